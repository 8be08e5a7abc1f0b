// Command mc runs one property's check against the code in /repo.
package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/props"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		props.Child()
	}
	log.SetOutput(io.Discard)
	if len(os.Args) < 3 {
		fmt.Println("usage: mc run ID TIER | mc replay FILE")
		os.Exit(3)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	switch os.Args[1] {
	case "replay":
		os.Exit(core.Replay(os.Args[2]))
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		deadline := 420 * time.Second
		if tier == "thorough" {
			deadline = 90 * time.Minute
		}
		if d, err := time.ParseDuration(os.Getenv("VERIF_DEADLINE")); err == nil {
			deadline = d
		}
		os.Exit(core.Main(os.Args[2], tier, dir, seed, deadline))
	}
	os.Exit(3)
}
