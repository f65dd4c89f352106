package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) >= 4 && (os.Args[1] == "check" || os.Args[1] == "replay" || os.Args[1] == "fuzz") {
		root, repo := os.Getenv("VERIF_ROOT"), os.Getenv("VERIF_REPO")
		if root == "" {
			root = "/verif"
		}
		if repo == "" {
			repo = "/repo"
		}
		switch os.Args[1] {
		case "check":
			os.Exit(checkMain(root, repo, os.Args[2], os.Args[3]))
		case "replay":
			os.Exit(replayMain(root, repo, os.Args[2], os.Args[3]))
		case "fuzz":
			n := 20
			fmt.Sscanf(os.Args[3], "%d", &n)
			seed := 1
			fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
			os.Exit(fuzzMain(root, repo, os.Args[2], seed, n))
		}
	}
	repo := flag.String("repo", "/repo", "source tree")
	specDir := flag.String("spec", "/verif/spec", "contract files")
	only := flag.String("only", "", "verify only these functions (comma separated)")
	secs := flag.Int("t", 4, "seconds per obligation, first pass")
	secs2 := flag.Int("t2", 0, "seconds per obligation and solver, second pass")
	keep := flag.String("keep", "", "keep queries in this directory")
	match := flag.String("match", "", "only obligations containing this text")
	maxF := flag.Int("maxfail", 15, "failures shown per function")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.Bool("dump", false, "print the functions of the program")
	flag.Parse()
	t0 := time.Now()
	var err error
	prog, err = loadProgram(*repo)
	if err != nil {
		fmt.Println("LOAD ERROR", err)
		os.Exit(3)
	}
	if *dump {
		for _, n := range sortedKeys(prog.funcs) {
			if strings.HasPrefix(n, "processors.") || strings.HasPrefix(n, "gtfs") || strings.HasPrefix(n, "main.") {
				fmt.Println(n)
			}
		}
		return
	}
	prop := ""
	if flag.NArg() > 0 {
		prop = flag.Arg(0)
	}
	if err := loadSpecs(*specDir, prop); err != nil {
		fmt.Println("SPEC ERROR", err)
		os.Exit(3)
	}
	workDir = *keep
	if workDir == "" {
		workDir, _ = os.MkdirTemp("", "vc")
		defer os.RemoveAll(workDir)
	} else {
		os.MkdirAll(workDir, 0755)
	}
	reps, err := verifyProperty(prop, splitList(*only))
	if err != nil {
		fmt.Println("SPEC ERROR", err)
		os.Exit(3)
	}
	var obls []*Obl
	for _, r := range reps {
		for _, o := range r.Obls {
			if *match == "" || strings.Contains(o.name, *match) {
				obls = append(obls, o)
			}
		}
	}
	fmt.Printf("generated %d obligations in %d functions (%.1fs)\n", len(obls), len(reps), time.Since(t0).Seconds())
	p2 := []int{*secs2, *secs2, *secs2, *secs2, *secs2}
	dischargeAll(obls, 3, []int{*secs, *secs, *secs, *secs, *secs}, p2, 16, nil)
	bad := 0
	for _, r := range reps {
		n, p := 0, 0
		for _, o := range r.Obls {
			if o.status == "" {
				continue
			}
			n++
			if o.ok() {
				p++
			}
		}
		st := "OK"
		if r.Err != "" || n != p {
			st = "FAIL"
			bad++
		}
		if r.Trusted {
			st = "TRUSTED"
		}
		fmt.Printf("%-6s %s: %d/%d %s\n", st, r.Name, p, n, r.Err)
		nf := 0
		for _, o := range r.Obls {
			if o.status != "" && (*verbose || !o.ok()) {
				s := "ok    "
				if !o.ok() {
					s = "FAILED"
				}
				if nf++; nf <= *maxF || *verbose {
					fmt.Printf("   %s %s [%s] %dms %s %s\n", s, o.name, o.pos, o.ms, o.solver, o.queryID)
				}
				if !o.ok() && *verbose {
					fmt.Println("      " + strings.ReplaceAll(strings.TrimSpace(o.output), "\n", "\n      "))
				}
			}
		}
		if *verbose {
			fmt.Println("   notes:", strings.Join(r.Notes, "; "))
			fmt.Println("   inlined:", strings.Join(r.Inlined, ", "))
		}
	}
	fmt.Printf("total %.1fs, failed functions %d\n", time.Since(t0).Seconds(), bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func splitList(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// loadSpecs reads common.spec and every file named after the property (all files when none given).
func loadSpecs(dir, prop string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Slice(fs, func(i, j int) bool {
		ci, cj := strings.HasPrefix(filepath.Base(fs[i]), "common"), strings.HasPrefix(filepath.Base(fs[j]), "common")
		if ci != cj {
			return ci
		}
		return fs[i] < fs[j]
	})
	for _, f := range fs {
		b := filepath.Base(f)
		if !strings.HasPrefix(b, "common") && prop != "" && !strings.HasPrefix(b, prop) {
			continue
		}
		if err := loadSpec(f); err != nil {
			return err
		}
	}
	return buildSpecAxioms()
}

// verifyProperty builds the obligations of the property's functions, the functions whose
// contracts they use, and the lemmas.
func verifyProperty(prop string, only []string) ([]*FuncReport, error) {
	var queue []string
	if len(only) > 0 {
		queue = only
	} else {
		queue = append(queue, properties[prop]...)
		if len(queue) == 0 {
			return nil, fmt.Errorf("no functions for property %q", prop)
		}
	}
	done := map[string]bool{}
	var reps []*FuncReport
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		ct := contracts[n]
		if ct == nil {
			return nil, fmt.Errorf("no contract for %s", n)
		}
		r := buildFunc(ct)
		reps = append(reps, r)
		if len(only) == 0 {
			queue = append(queue, r.Called...)
		}
	}
	if len(only) == 0 {
		for _, a := range axioms {
			if a.kind == "lemma" {
				reps = append(reps, buildLemma(a))
			}
		}
	}
	return reps, nil
}

// shortOut summarises what the solvers said about an obligation that was not proved.
func (o *Obl) shortOut() string {
	var out []string
	for _, l := range strings.Split(o.output, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			if len(l) > 60 {
				l = l[:60]
			}
			out = append(out, l)
		}
	}
	return strings.Join(out, " | ")
}
