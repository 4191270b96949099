package main

import "github.com/v2pro/plz/zzverif/sym"

func main() {
	sym.Main(sym.T{"Floats": Floats, "FloatKinds": FloatKinds, "Kinds": Kinds, "Configured": Configured, "Errors": Errors, "Marshalers": Marshalers, "Composite": Composite, "Twice": Twice, "Ints": Ints, "Strings": Strings, "Bytes": Bytes})
}
