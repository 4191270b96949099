package main

import "github.com/v2pro/plz/zzverif/sym"

func main() {
	sym.Main(sym.T{"Source": Source, "Runes": Runes, "Uints": Uints, "Ints": Ints, "IntText": IntText, "Tokens": Tokens, "Ranges": Ranges, "Spaces": Spaces, "Pratt": Pratt, "PrattErr": PrattErr})
}
