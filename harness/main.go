// Command verifharness runs the generated checks of the properties listed in
// /verif/properties.jsonl against the spago module of /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"testing"

	"verifharness/eng"
	_ "verifharness/props"
)

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: run ID TIER | replay FILE | list")
		os.Exit(3)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "worker":
		eng.Worker(os.Args[2:])
	case "eval":
		eng.Eval(os.Args[2:])
	case "run":
		os.Exit(eng.Run(verif, os.Args[2], os.Args[3], os.Getenv("VERIF_RACEBIN")))
	case "replay":
		os.Exit(eng.Replay(verif, os.Args[2], os.Getenv("VERIF_RACEBIN")))
	case "needsrace":
		for _, s := range eng.Of(os.Args[2]) {
			if s.Race {
				fmt.Println("yes")
				return
			}
		}
		fmt.Println("no")
	case "needs": // other builds of the harness
		seen := map[string]bool{}
		for _, s := range eng.Of(os.Args[2]) {
			if s.Flavour != "" && !seen[s.Flavour] {
				seen[s.Flavour] = true
				fmt.Println(s.Flavour)
			}
		}
	case "list":
		for _, p := range eng.Props() {
			for _, s := range eng.Of(p) {
				fmt.Println(p, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		os.Exit(3)
	}
}
