package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn func(p *Prog, r *Report)

var checks = map[string]checkFn{}

func main() {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("IVY_REPO")
	if repo == "" {
		repo = "/repo"
	}
	repo, _ = filepath.Abs(repo)
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Println("usage: ivycheck ID... | all")
		os.Exit(2)
	}
	if args[0] == "all" {
		args = nil
		for id := range checks {
			args = append(args, id)
		}
		sort.Strings(args)
	}
	start := time.Now()
	p, err := load(repo)
	code := 0
	for _, id := range args {
		if err != nil {
			fmt.Printf("%s: cannot analyse the working tree: %v\n", id, err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "evidence/"+id+".json")
			code = 1
			continue
		}
		f := checks[id]
		if f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		t := time.Now()
		if len(args) == 1 {
			t = start
		}
		if c := runOne(p, id, f, verif, t); c != 0 {
			code = c
		}
	}
	os.Exit(code)
}

func runOne(p *Prog, id string, f checkFn, verif string, start time.Time) (code int) {
	defer func() {
		if e := recover(); e != nil {
			// An analyser panic is an undecided property: it must not pass silently.
			fmt.Printf("%s: analyser failure: %v\n%s", id, e, debug.Stack())
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "evidence/"+id+".json")
			code = 1
		}
	}()
	r := newReport(p, id)
	f(p, r)
	return r.emit(verif, start)
}
