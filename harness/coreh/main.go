package main

import "github.com/v2pro/plz/zzverif/sym"

func main() {
	sym.Main(sym.T{"CloseAll": CloseAll, "Merge": Merge, "CloseOne": CloseOne, "Gls": Gls, "GlsReuse": GlsReuse, "Exec": Exec, "ExecDeadline": ExecDeadline})
}
