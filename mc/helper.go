package main

import (
	"fmt"
	"os"
)

var helpers = map[string]func(args []string) int{}

// helperMain runs one of the small programs a check starts in a process of its own.
func helperMain(args []string) int {
	if len(args) == 0 || helpers[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "unknown helper")
		return 2
	}
	return helpers[args[0]](args[1:])
}
