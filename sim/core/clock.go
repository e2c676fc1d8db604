package core

import "runtime"

// setClock sets the simulated wall clock (ns since 1970).
func setClock(ns int64) { runtime.SimSetWall(ns) }
