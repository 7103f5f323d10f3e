package main

import (
	"fmt"
	"os"

	"github.com/lyraproj/hiera/cli"
)

// A command that fails ends the program with status 1, after its error has been printed.
//
//@ contract main
//@ property C32
func specLookupMain() {
	lookup := cli.NewCommand()
	if failure := lookup.Execute(); failure != nil {
		fmt.Println(lookup.OutOrStderr(), failure)
		os.Exit(1)
	}
}
