// Command mc checks properties.
//
//	mc check ID -tier quick -out /verif -work DIR [-race BIN]
//	mc replay ID FILE -out /verif -work DIR
//	mc worker ID          (internal)
//	mc list
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	"vmc/explore"
	"vmc/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|replay|worker|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	if cmd == "list" {
		var l []string
		for id := range props.All() {
			l = append(l, id)
		}
		sort.Strings(l)
		for _, id := range l {
			p := props.All()[id]
			fmt.Printf("%s %s %d scenarios\n", id, p.Level, len(p.Scenarios))
		}
		return
	}
	if cmd == "describe" {
		// for tools/mkdesign.py
		type sc struct {
			Name, Doc              string
			Quick, Deep            explore.Bounds
			Race, NoPrio, Thorough bool
		}
		all := map[string][]sc{}
		for id, p := range props.All() {
			for _, s := range p.Scenarios {
				all[id] = append(all[id], sc{s.Name, s.Doc, s.Quick, s.Deep, s.Race, s.NoPrio, s.Thorough})
			}
		}
		json.NewEncoder(os.Stdout).Encode(all)
		return
	}
	if cmd == "bz2docs" {
		json.NewEncoder(os.Stdout).Encode(props.BZ2Docs())
		return
	}
	id := os.Args[2]
	p := props.All()[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		os.Exit(2)
	}
	if cmd == "worker" {
		explore.Worker(p)
		return
	}
	if cmd == "hasrace" {
		for _, s := range p.Scenarios {
			if s.Race {
				return
			}
		}
		os.Exit(1)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	out := fs.String("out", "/verif", "verif directory")
	work := fs.String("work", "/tmp", "scratch directory")
	race := fs.String("race", "", "race-enabled binary")
	budget := fs.Duration("budget", 0, "time budget")
	only := fs.String("only", "", "scenario name filter")
	verbose := fs.Bool("v", false, "verbose")
	workers := fs.Int("j", 0, "workers")
	args := os.Args[3:]
	file := ""
	if cmd == "replay" {
		file = args[0]
		args = args[1:]
	}
	fs.Parse(args)
	if *budget == 0 {
		*budget = 60 * time.Second
		if *tier == "thorough" {
			*budget = 40 * time.Minute
		}
		if s := os.Getenv("MC_BUDGET_S"); s != "" {
			n, _ := strconv.Atoi(s)
			*budget = time.Duration(n) * time.Second
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	m := &explore.Master{P: p, Bin: self, RaceBin: *race, Tier: *tier, Seed: seed, Budget: *budget, Out: *out,
		Workers: *workers, Only: *only, Verbose: *verbose}
	m.SetWorkDir(*work)
	os.Setenv("VMC_WORK", *work) // for workers
	if cmd == "replay" {
		os.Exit(m.ReplayFile(file))
	}
	os.Exit(m.Run())
}
