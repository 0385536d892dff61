package main

import (
	"fmt"
	"os"

	"doqcheck/rules"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: doqcheck check ID... | dump PKG FUNC | list")
		os.Exit(2)
	}
	os.Exit(rules.Main(os.Args[1:]))
}
