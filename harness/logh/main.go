package main

import "github.com/v2pro/plz/zzverif/sym"

func main() {
	sym.Main(sym.T{"Gates": Gates, "CallErrors": CallErrors, "Deliver": Deliver, "Ctx": Ctx, "Json": Json, "Hrf": Hrf, "Compact": Compact, "Printf": Printf, "Timer": Timer, "Faults": Faults, "Concurrent": Concurrent})
}
