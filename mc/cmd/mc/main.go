// Command mc checks the properties that need no thread scheduling.
package main

import (
	_ "verifmc/checks"
	"verifmc/engine"
)

func main() { engine.Main() }
