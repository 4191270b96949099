package main

import "github.com/v2pro/plz/zzverif/sym"

func main() {
	sym.Main(sym.T{"Nested": Nested, "Subst": Subst, "Time": Time, "Malformed": Malformed, "Directive": Directive, "History": History, "Shapes": Shapes, "Parallel": Parallel, "Print": Print, "BytesEsc": BytesEsc})
}
