package main

import (
	"github.com/v2pro/plz/zzverif/sym"
)

func main() {
	sym.Main(sym.T{"Slices": Slices, "Arrays": Arrays, "Maps": Maps, "Fields": Fields, "Boxes": Boxes, "Rejects": Rejects, "Relations": Relations, "Kinds": Kinds})
}
