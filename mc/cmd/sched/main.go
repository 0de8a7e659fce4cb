// Command sched checks the properties about threads, time and connections.
package main

import (
	"verifmc/engine"
	_ "verifmc/schedcheck"
)

func main() { engine.Main() }
