package main

import (
	"verif/mc/core"
	_ "verif/mc/props"
)

func main() { core.Main() }
