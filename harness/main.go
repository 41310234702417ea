package main

import (
	"fmt"
	"os"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: yv check ID | worker SUITE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2])
	case "check":
		os.Exit(checkMain(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
