package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// assumptions of the verification as a whole; each property adds its own with `assume` lines in its contract file.
var generalAssumptions = []string{
	"machine arithmetic: int, int64 and uint32 arithmetic is mathematical (no wrap-around); uint8/int8/int16 conversions are modelled",
	"floating point operations and comparisons are uninterpreted functions of their operands",
	"goroutines are executed at their spawn point; an obligation checks that each signals its channel exactly once, last, and that all are awaited, but data races between them are not",
	"termination is not proved (partial correctness)",
	"Go SSA construction (golang.org/x/tools/go/ssa), the translation in /verif/vc and the SMT solvers are trusted",
}

type violationFile struct {
	Property    string
	Verdict     string
	Obligations []failedObl
	Input       *replayResult `json:",omitempty"`
	Search      string
	Reproduce   string
}

type failedObl struct {
	Function   string
	Obligation string
	Position   string
	Solvers    string
}

type replayResult struct {
	Property string
	Seed     int64
	Size     int
	Failure  string
	Feed     []string
	Tried    int
}

// checkMain decides one property on the current tree.
func checkMain(root, repo, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var err error
	prog, err = loadProgram(repo)
	if err != nil {
		fmt.Println("cannot load the source tree:", err)
		return 2
	}
	if err := loadSpecs(filepath.Join(root, "spec"), prop); err != nil {
		fmt.Println("contract error:", err)
		return 2
	}
	workDir, _ = os.MkdirTemp("", "vc")
	defer func(d string) { os.RemoveAll(d) }(workDir)
	reps, err := verifyProperty(prop, nil)
	if err != nil {
		fmt.Println("contract error:", err)
		return 2
	}
	var obls []*Obl
	for _, r := range reps {
		obls = append(obls, r.Obls...)
	}
	tGen := time.Since(t0)
	pass1, pass2, maxLong := []int{5, 6, 5, 5, 6}, []int{30, 30, 30, 30, 30}, 24
	if tier == "thorough" {
		pass2, maxLong = []int{90, 90, 60, 60, 60}, 48
	}
	if os.Getenv("VC_KEEP") != "" {
		workDir = os.Getenv("VC_KEEP")
		os.MkdirAll(workDir, 0755)
	}
	// open obligations: a failing input found quickly decides, before the long attempts at a proof
	known := knownFindings(filepath.Join(root, "known-findings.txt"), prop)
	var rr *replayResult
	search := ""
	dischargeAll(obls, 3, pass1, pass2, maxLong, func() bool {
		open := map[string]bool{}
		for _, k := range known {
			open[k.obligation] = true
		}
		n := 0
		for _, r := range reps {
			for _, o := range r.Obls {
				if !o.sanity && !o.ok() && !open[r.Name+": "+o.name] {
					n++
				}
			}
		}
		if n == 0 {
			return false
		}
		rr, search = replaySearch(root, repo, prop, seed, 35)
		if rr != nil && replayKnown(rr, known) {
			rr = nil
		}
		return rr != nil
	})
	if os.Getenv("VC_KEEP") != "" {
		for _, o := range obls {
			if !o.sanity && (o.ms > 3000 || o.solver != solvers[0].name) {
				fmt.Printf("  %s [%s] %s by %s in %d ms (%s)\n", o.name, o.pos, o.status, o.solver, o.ms, o.queryID)
			}
		}
	}

	var failed []failedObl
	total, proved, sanity := 0, 0, 0
	backends := map[string]int{}
	var funcs, trusted []string
	inl := map[string]bool{}
	notes := map[string]bool{}
	for _, r := range reps {
		n, p := 0, 0
		for _, o := range r.Obls {
			if o.sanity {
				sanity++
				if !o.ok() {
					failed = append(failed, failedObl{r.Name, o.name + " (the contract is contradictory here)", o.pos, o.solver})
				}
				continue
			}
			n++
			if o.ok() {
				p++
				backends[o.solver]++
			} else {
				failed = append(failed, failedObl{r.Name, o.name, o.pos, o.shortOut()})
			}
		}
		total += n
		proved += p
		if r.Err != "" {
			total++
			failed = append(failed, failedObl{r.Name, "contract applies to the function: " + r.Err, "", ""})
		}
		if r.Trusted {
			trusted = append(trusted, r.Name+": "+r.Why)
			continue
		}
		funcs = append(funcs, fmt.Sprintf("%s (%d/%d)", r.Name, p, n))
		for _, i := range r.Inlined {
			inl[i] = true
		}
		for _, i := range r.Notes {
			notes[i] = true
		}
	}
	fmt.Printf("%s: %d obligations in %d functions, %d discharged, %d vacuity checks, %.1fs\n", prop, total, len(funcs), proved, sanity, time.Since(t0).Seconds())
	for i, f := range failed {
		if i == 12 {
			fmt.Printf("  ... and %d more\n", len(failed)-12)
			break
		}
		fmt.Printf("  FAILED %s: %s [%s]\n", f.Function, f.Obligation, f.Position)
	}

	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
	}
	failed = dropKnown(failed, known)

	cov := map[string]interface{}{
		"obligations": total, "discharged": proved,
		"checker_cmd":               fmt.Sprintf("cd /verif && ./check.sh %s %s", prop, tier),
		"trusted_base":              append([]string{"contracts on functions outside the repository and its GTFS library: " + strings.Join(usedIntrinsics(), ", ")}, trusted...),
		"functions_under_contract":  funcs,
		"functions_inlined":         sortedKeys(inl),
		"back_ends":                 backends,
		"solver_ms":                 solverTimes,
		"generation_s":              tGen.Seconds(),
		"vacuity_checks":            sanity,
		"not_modelled_and_havocked": sortedKeys(notes),
		"failed_obligations":        failed,
	}
	verdict := 0
	if rr == nil && (len(failed) > 0 || tier == "thorough") {
		budget := 100
		if len(failed) == 0 {
			budget = 60
		} else if tier == "thorough" {
			budget = 300
		}
		rr, search = replaySearch(root, repo, prop, seed+100, budget)
		if rr != nil && replayKnown(rr, known) {
			rr, search = nil, search+"; only known findings met"
		}
	}
	if search != "" {
		cov["replay_search"] = search
	}
	if len(failed) > 0 || rr != nil {
		verdict = 1
		out := filepath.Join(root, "out")
		os.MkdirAll(out, 0755)
		file := filepath.Join(out, prop+".violation.json")
		v := violationFile{Property: prop, Obligations: failed, Input: rr, Search: search}
		tail := ""
		if rr != nil {
			v.Verdict = "the obligations below fail, and the real code fails on the input below"
			if len(failed) == 0 {
				v.Verdict = "every obligation was discharged, but the real code fails on the input below: an assumed contract is wrong"
			}
			v.Reproduce = fmt.Sprintf("cd /verif && ./check.sh replay %s %d:%d", prop, rr.Seed, rr.Size)
			fmt.Printf("  failing input (seed %d, size %d): %s\n", rr.Seed, rr.Size, firstLine(rr.Failure))
		} else {
			v.Verdict = "the obligations below fail; no failing input was found"
			tail = " no-failing-input-found"
		}
		js, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(file, js, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, file, tail)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(append([]string{}, generalAssumptions...), specAssumes...),
		"wall_s":      time.Since(t0).Seconds(), "violations": verdict,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(js, '\n'), 0644)
	return verdict
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---------- known findings ----------

type knownFinding struct {
	what, obligation, failure string
}

// knownFindings reads lines `finding: property=ID | what | obligation text | replay text`.
func knownFindings(file, prop string) (out []knownFinding) {
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		p := strings.Split(l, " | ")
		if len(p) == 4 {
			out = append(out, knownFinding{strings.TrimSpace(p[1]), strings.TrimSpace(p[2]), strings.TrimSpace(p[3])})
		}
	}
	return
}

func dropKnown(fs []failedObl, ks []knownFinding) (out []failedObl) {
	for _, f := range fs {
		hit := false
		for _, k := range ks {
			if k.obligation != "" && f.Function+": "+f.Obligation == k.obligation {
				hit = true
			}
		}
		if !hit {
			out = append(out, f)
		}
	}
	return
}

func replayKnown(r *replayResult, ks []knownFinding) bool {
	for _, k := range ks {
		if k.failure != "" && strings.Contains(r.Failure, k.failure) {
			return true
		}
	}
	return false
}

// ---------- search for a concrete failing input ----------

func replayBuild(root, repo, prop, dir string) (string, error) {
	files := map[string]string{}
	pkg := filepath.Join(repo, "processors")
	files[filepath.Join(pkg, "zz_verif_gen_test.go")] = filepath.Join(root, "replay", "gen_verif_test.go")
	files[filepath.Join(pkg, "zz_verif_prop_test.go")] = filepath.Join(root, "replay", strings.ToLower(prop)+"_verif_test.go")
	// the package's own tests stay out of the binary
	ts, _ := filepath.Glob(filepath.Join(pkg, "*_test.go"))
	for _, t := range ts {
		files[t] = ""
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": files})
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, js, 0644)
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./processors")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func replaySearch(root, repo, prop string, seed, budget int) (*replayResult, string) {
	dir, _ := os.MkdirTemp("", "vcreplay")
	defer os.RemoveAll(dir)
	bin, err := replayBuild(root, repo, prop, dir)
	if err != nil {
		fmt.Println("  the replay harness does not build:", firstLine(err.Error()))
		return nil, "harness does not build: " + err.Error()
	}
	const workers = 7
	var wg sync.WaitGroup
	res := make([]*replayResult, workers)
	tried := make([]int, workers)
	cmds := make([]*exec.Cmd, workers)
	var mu sync.Mutex
	stop := false
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			outf := filepath.Join(dir, fmt.Sprintf("out%d.json", w))
			cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.timeout", fmt.Sprintf("%ds", budget+60))
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_SEED=%d", seed*workers+w), fmt.Sprintf("VERIF_BUDGET=%d", budget), "VERIF_OUT="+outf, "GOMAXPROCS=3", "GOMEMLIMIT=2GiB")
			mu.Lock()
			cmds[w] = cmd
			s := stop
			mu.Unlock()
			if s {
				return
			}
			out, _ := cmd.CombinedOutput()
			if b, e := os.ReadFile(outf); e == nil {
				var r replayResult
				if json.Unmarshal(b, &r) == nil {
					res[w] = &r
					mu.Lock()
					stop = true
					for _, c := range cmds {
						if c != nil && c.Process != nil && c != cmd {
							c.Process.Kill()
						}
					}
					mu.Unlock()
					return
				}
			}
			// a crash of a goroutine of the code ends the whole process: the harness left the input behind
			if b, e := os.ReadFile(outf + ".cur"); e == nil && (strings.Contains(string(out), "panic: ") || strings.Contains(string(out), "fatal error: ")) && !strings.Contains(string(out), "panic: test timed out") {
				var r replayResult
				if json.Unmarshal(b, &r) == nil {
					i := strings.Index(string(out), "panic: ")
					if i < 0 {
						i = strings.Index(string(out), "fatal error: ")
					}
					f := string(out)[i:]
					if len(f) > 1500 {
						f = f[:1500]
					}
					r.Failure = f
					res[w] = &r
					return
				}
			}
			fmt.Sscanf(lastTried(string(out)), "tried %d", &tried[w])
		}(w)
	}
	wg.Wait()
	n := 0
	var best *replayResult
	for w := range res {
		n += tried[w]
		if res[w] != nil && (best == nil || res[w].Size < best.Size) {
			best = res[w]
		}
	}
	if best != nil {
		return best, fmt.Sprintf("failing input found by random search (seed %d)", seed)
	}
	return nil, fmt.Sprintf("random search over %d generated feeds in %d s found no failing input", n, budget)
}

func lastTried(s string) string {
	i := strings.LastIndex(s, "tried ")
	if i < 0 {
		return ""
	}
	return s[i:]
}

func replayMain(root, repo, prop, one string) int {
	dir, _ := os.MkdirTemp("", "vcreplay")
	defer os.RemoveAll(dir)
	bin, err := replayBuild(root, repo, prop, dir)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_PROP="+prop, "VERIF_ONE="+one)
	out, err := cmd.CombinedOutput()
	fmt.Print(string(out))
	if err != nil {
		return 1
	}
	return 0
}

// fuzzMain runs only the random search: it is used to develop oracles, never by a check.
func fuzzMain(root, repo, prop string, seed, budget int) int {
	r, s := replaySearch(root, repo, prop, seed, budget)
	fmt.Println(s)
	if r == nil {
		return 0
	}
	fmt.Printf("seed %d size %d\n%s\n%s\n", r.Seed, r.Size, strings.Join(r.Feed, "\n"), r.Failure)
	return 1
}

func usedIntrinsics() []string {
	var o []string
	for k := range intrinsicsUsed {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var intrinsicsUsed = map[string]bool{}
