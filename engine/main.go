package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type harnessInfo struct {
	name, bounds string
	file         string
	quickOnly    bool
	thorough     bool // only in the thorough tier
	weight       float64
}

// scanHarness lists the ZZ_<prop>_ functions of a file with their doc text.
func scanHarness(file string) ([]harnessInfo, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []harnessInfo
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !strings.HasPrefix(fd.Name.Name, "ZZ_") {
			continue
		}
		h := harnessInfo{name: fd.Name.Name, file: file, bounds: strings.Join(strings.Fields(fd.Doc.Text()), " "), weight: 1}
		if strings.Contains(h.bounds, "(thorough only)") {
			h.thorough = true
		}
		out = append(out, h)
	}
	return out, nil
}

type knownFinding struct {
	prop, harness, what string
	re                  *regexp.Regexp
	hit                 bool
}

func loadKnown(file string) []*knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []*knownFinding
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r, err := regexp.Compile(m[3])
			if err == nil {
				out = append(out, &knownFinding{prop: m[1], harness: m[2], re: r, what: m[4]})
			}
		}
	}
	return out
}

type runSpec struct {
	Harness string        `json:"harness"`
	Inputs  []ReplayInput `json:"inputs"`
	Repeat  int           `json:"repeat,omitempty"`
	Timeout int           `json:"timeout_ms,omitempty"`
}

type runRes struct {
	Status string        `json:"status"`
	Msg    string        `json:"msg"`
	Obs    []ReplayInput `json:"obs"`
}

func (nb *nativeBin) run(specs []runSpec, tier string, race bool, limit time.Duration) ([]runRes, string, error) {
	in, err := os.CreateTemp(nb.dir, "in*.json")
	if err != nil {
		return nil, "", err
	}
	b, _ := json.Marshal(specs)
	in.Write(b)
	in.Close()
	outf := in.Name() + ".out"
	cmd := exec.Command(nb.path, "-test.run", "^TestZZReplay$", "-test.timeout", "10m")
	cmd.Dir = nb.dir
	cmd.Env = append(os.Environ(), "ZZ_REPLAY="+in.Name(), "ZZ_OUT="+outf, "ZZ_TIER="+tier)
	if race {
		cmd.Env = append(cmd.Env, "ZZ_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	var txt strings.Builder
	cmd.Stdout, cmd.Stderr = &txt, &txt
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	ob, err := os.ReadFile(outf)
	if err != nil {
		return nil, txt.String(), fmt.Errorf("native run: %v", werr)
	}
	var res []runRes
	if err := json.Unmarshal(ob, &res); err != nil {
		return nil, txt.String(), err
	}
	return res, txt.String(), nil
}

func main() {
	prop := flag.String("p", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "regexp of harness names (development)")
	budget := flag.Int("budget", 0, "seconds for exploration")
	workers := flag.Int("j", runtime.NumCPU(), "")
	verbose := flag.Bool("v", false, "")
	noev := flag.Bool("noev", false, "do not write evidence")
	replay := flag.String("replay", "", "run a replay file natively and exit")
	selftest := flag.Bool("selftest", false, "translation check of the repository's own tests")
	flag.Parse()
	if *selftest {
		os.Exit(runSelftest(*repo, *verif, *verbose, *only))
	}
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "usage: engine -p ID [-tier quick|thorough]")
		os.Exit(2)
	}
	c := &checker{prop: *prop, tier: *tier, repo: *repo, verif: *verif, only: *only, nw: *workers, verbose: *verbose, noev: *noev}
	c.budget = 150 * time.Second
	if *tier == "thorough" {
		c.budget = 600 * time.Second
	}
	if *budget > 0 {
		c.budget = time.Duration(*budget) * time.Second
	}
	if *replay != "" {
		os.Exit(c.replayFile(*replay))
	}
	os.Exit(c.run())
}

type checker struct {
	prop, tier, repo, verif, only string
	nw                            int
	budget                        time.Duration
	verbose, noev                 bool

	files     []string
	harnesses []harnessInfo
	scratch   string
	native    *nativeBin
	race      *nativeBin
	natErr    error
}

func (c *checker) collect() error {
	dir := filepath.Join(c.verif, "harness")
	c.files = []string{filepath.Join(dir, "zz_verif_api.go"), filepath.Join(dir, "zz_verif_lib.go")}
	ms, _ := filepath.Glob(filepath.Join(dir, "zz_verif_"+strings.ToLower(c.prop)+"*.go"))
	if len(ms) == 0 {
		return fmt.Errorf("no harness for %s", c.prop)
	}
	for _, m := range ms {
		hs, err := scanHarness(m)
		if err != nil {
			return err
		}
		c.harnesses = append(c.harnesses, hs...)
	}
	c.files = append(c.files, ms...)
	// shared helper files named in a "//zz:use name" line
	seen := map[string]bool{}
	for i := 0; i < len(c.files); i++ {
		b, err := os.ReadFile(c.files[i])
		if err != nil {
			return err
		}
		for _, m := range regexp.MustCompile(`(?m)^//zz:use (\S+)$`).FindAllStringSubmatch(string(b), -1) {
			if !seen[m[1]] {
				seen[m[1]] = true
				c.files = append(c.files, filepath.Join(dir, "zz_verif_"+m[1]+".go"))
			}
		}
	}
	// registry of harness functions for native runs
	var sb strings.Builder
	sb.WriteString("package nanomux\n\nvar zzHarnesses = map[string]func(){\n")
	for _, h := range c.harnesses {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.name, h.name)
	}
	sb.WriteString("}\n")
	reg := filepath.Join(c.scratch, "zz_verif_reg.go")
	return os.WriteFile(reg, []byte(sb.String()), 0o644)
}

func (c *checker) nativeFiles() []string {
	return append(append([]string(nil), c.files...), filepath.Join(c.scratch, "zz_verif_reg.go"))
}

func (c *checker) getNative(race bool) (*nativeBin, error) {
	if race {
		if c.race == nil {
			b, err := buildNative(c.repo, c.verif, c.nativeFiles(), true, filepath.Join(c.scratch, "race.test"))
			if err != nil {
				return nil, err
			}
			c.race = b
		}
		return c.race, nil
	}
	if c.native == nil && c.natErr == nil {
		c.native, c.natErr = buildNative(c.repo, c.verif, c.nativeFiles(), false, filepath.Join(c.scratch, "native.test"))
	}
	return c.native, c.natErr
}

// confirm replays a candidate violation against the real code.
func (c *checker) confirm(h string, v *violationRec) (bool, string) {
	race := v.Kind == "shared" || v.Kind == "pool"
	nb, err := c.getNative(race)
	if err != nil {
		return false, err.Error()
	}
	spec := runSpec{Harness: h, Inputs: v.inputs, Repeat: 200}
	limit := 120 * time.Second
	if v.Kind == "steps" {
		spec.Repeat, spec.Timeout = 1, 20000
	}
	if race {
		spec.Repeat = 20
	}
	res, txt, err := nb.run([]runSpec{spec}, c.tier, race, limit)
	if race && strings.Contains(txt, "DATA RACE") {
		i := strings.Index(txt, "WARNING: DATA RACE")
		t := txt[i:]
		if len(t) > 1500 {
			t = t[:1500]
		}
		return true, "data race in the real code:\n" + t
	}
	if err != nil {
		if strings.Contains(txt, "fatal error:") || strings.Contains(txt, "stack overflow") || strings.Contains(txt, "goroutine ") {
			if len(txt) > 600 {
				txt = txt[:600]
			}
			return true, "the real code crashes: " + txt
		}
		return false, err.Error()
	}
	if len(res) == 0 {
		return false, "no result"
	}
	r := res[0]
	switch r.Status {
	case "violation", "panic", "hang":
		return true, r.Status + ": " + r.Msg
	}
	return false, r.Status + ": " + r.Msg
}

func (c *checker) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayDoc
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	if c.setup() != nil || c.collect() != nil {
		return 2
	}
	defer os.RemoveAll(c.scratch)
	c.tier = rf.Tier
	ok, msg := c.confirm(rf.Harness, &violationRec{Kind: rf.Kind, Msg: rf.Msg, inputs: rf.Inputs})
	fmt.Println(msg)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		return 1
	}
	return 0
}

type replayDoc struct {
	Property string        `json:"property"`
	Harness  string        `json:"harness"`
	Tier     string        `json:"tier"`
	Kind     string        `json:"kind"`
	Msg      string        `json:"msg"`
	Text     string        `json:"inputs_text"`
	Outcome  string        `json:"native_outcome"`
	Inputs   []ReplayInput `json:"inputs"`
	How      string        `json:"how"`
}

func (c *checker) setup() error {
	d, err := os.MkdirTemp("", "zzverif")
	c.scratch = d
	return err
}

func (c *checker) run() int {
	t0 := time.Now()
	if err := c.setup(); err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.scratch)
	if err := c.collect(); err != nil {
		fmt.Println(err)
		return 2
	}
	tierN := 0
	if c.tier == "thorough" {
		tierN = 1
	}
	natCh := make(chan struct{})
	go func() { // overlaps with loading and exploring
		c.getNative(false)
		close(natCh)
	}()
	p, err := loadProgram(c.repo, c.files)
	if err != nil {
		fmt.Printf("cannot load the code with its harness: %v\n", err)
		return 2
	}
	tLoad := time.Since(t0)
	cache := &SharedCache{}
	ws := make([]*Interp, c.nw)
	errs := make([]error, c.nw)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws[i], errs[i] = newWorker(p, cache, tierN)
		}(i)
	}
	wg.Wait()
	for i, in := range ws {
		if errs[i] != nil {
			fmt.Println(errs[i])
			return 2
		}
		defer in.solver.stop()
	}
	known := loadKnown(filepath.Join(c.verif, "known_findings.txt"))
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	rng := rand.New(rand.NewSource(seed))

	var sel []harnessInfo
	for _, h := range c.harnesses {
		if c.only != "" && !regexp.MustCompile(c.only).MatchString(h.name) {
			continue
		}
		if h.thorough && tierN == 0 {
			continue
		}
		sel = append(sel, h)
	}
	end := time.Now().Add(c.budget)
	var results []*HarnessResult
	var explorers []*Explorer
	for i, h := range sel {
		rem := time.Until(end)
		share := rem / time.Duration(len(sel)-i)
		if share < rem/3 && i < len(sel)-1 {
			share = rem / 3
		}
		e := &Explorer{fn: p.harness[h.name], workers: ws, deadline: time.Now().Add(share), maxPaths: 4_000_000, maxSteps: 8_000_000, nsamples: 24, rng: rng}
		if tierN == 1 {
			e.nsamples = 120
		}
		e.known = func(v *violationRec) bool { return matchKnown(known, c.prop, h.name, v) != nil }
		r := e.run()
		r.Bounds = h.bounds
		results = append(results, r)
		explorers = append(explorers, e)
	}
	// what the others left of the time goes to those that are unfinished
	for i, e := range explorers {
		if !e.unfinished() || time.Until(end) < time.Second {
			continue
		}
		n := 0
		for _, e := range explorers[i:] {
			if e.unfinished() {
				n++
			}
		}
		e.resume(time.Now().Add(time.Until(end) / time.Duration(n)))
	}
	for _, r := range results {
		if c.verbose {
			fmt.Printf("%-44s paths=%d dead=%d dec=%d asserts=%d/%d left=%d unk=%d viol=%d steps=%.1fM %.1fs unsupported=%v\n", r.Name, r.Paths, r.Dead, r.Decisions, r.AssertQ, r.Asserts, r.Leftover, r.Unknown, len(r.Violations), float64(r.Steps)/1e6, r.Wall, r.Unsupported)
			for _, l := range r.Labels {
				if !r.Covered[l] {
					fmt.Printf("   NOT COVERED: %s\n", l)
				}
			}
		}
	}
	<-natCh

	// translation check: completed paths' witnesses on the real code
	validated, mismatches := 0, 0
	var mmTexts []string
	if c.natErr != nil {
		fmt.Printf("note: no native build: %v\n", c.natErr)
	} else {
		for _, r := range results {
			if len(r.Samples) == 0 {
				continue
			}
			var specs []runSpec
			for _, s := range r.Samples {
				specs = append(specs, runSpec{Harness: r.Name, Inputs: s.Inputs, Timeout: 20000})
			}
			res, txt, err := c.native.run(specs, c.tier, false, 100*time.Second)
			if err != nil {
				mismatches++
				mmTexts = append(mmTexts, fmt.Sprintf("%s: %v %s", r.Name, err, tail(txt, 300)))
				continue
			}
			for i, s := range r.Samples {
				if i >= len(res) {
					break
				}
				if d := diffRun(s, res[i]); d != "" {
					mismatches++
					r.Mismatch++
					mmTexts = append(mmTexts, fmt.Sprintf("%s %s: %s", r.Name, describeInputs(s.Inputs), d))
					if st := res[i].Status; st == "violation" || st == "panic" || st == "hang" {
						// the real code breaks the property on a witness the
						// translation considered fine; it is a counterexample
						r.Violations = append(r.Violations, &violationRec{Kind: "native", Msg: res[i].Msg, inputs: s.Inputs})
					}
				} else {
					validated++
					r.Validated++
				}
			}
		}
	}

	// candidate violations: replay against the real code
	code := 0
	nviol, nknown, unconfirmed := 0, 0, 0
	reported := map[string]bool{}
	var lines []string
	for _, r := range results {
		cands := append([]*violationRec(nil), r.Violations...)
		cands = append(cands, r.StepPaths...)
		tried := map[string]int{}
		for _, v := range cands {
			key := r.Name + "|" + v.Kind + "|" + v.Msg
			k := matchKnown(known, c.prop, r.Name, v)
			if k != nil {
				if k.hit {
					continue
				}
			} else if reported[key] || tried[key] >= 3 {
				continue
			}
			tried[key]++
			ok, out := c.confirm(r.Name, v)
			if !ok {
				unconfirmed++
				lines = append(lines, fmt.Sprintf("not reproduced by the real code (not reported): %s %s [%s]: %s", r.Name, v.Msg, describeInputs(v.inputs), tail(out, 300)))
				continue
			}
			if k != nil {
				k.hit = true
				nknown++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.what)
				continue
			}
			reported[key] = true
			nviol++
			path := c.writeReplay(r.Name, v, out)
			fmt.Printf("%s: %s\n  inputs: %s\n  real code: %s\n", r.Name, v.Msg, describeInputs(v.inputs), tail(out, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			code = 1
		}
	}
	for _, l := range lines {
		fmt.Println("note:", l)
	}
	for _, l := range mmTexts {
		fmt.Println("note: translation check:", l)
	}
	wall := time.Since(t0).Seconds()
	if !c.noev {
		c.writeEvidence(results, ws, cache, seed, validated, mismatches, nviol, nknown, unconfirmed, tLoad.Seconds(), wall)
	}
	st := &cache.stats
	fmt.Printf("property=%s tier=%s violations=%d known=%d validated=%d mismatches=%d queries=%d (z3 %d, %.1fs) load=%.1fs wall=%.1fs\n", c.prop, c.tier, nviol, nknown, validated, mismatches, st.queries.Load(), st.sent.Load(), float64(st.nanos.Load())/1e9, tLoad.Seconds(), wall)
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func diffRun(s Sample, r runRes) string {
	if r.Status != "ok" {
		return "real code: " + r.Status + ": " + r.Msg
	}
	if len(s.Observed) != len(r.Obs) {
		return fmt.Sprintf("observed %d values, real code %d", len(s.Observed), len(r.Obs))
	}
	for i, o := range s.Observed {
		if o != r.Obs[i] {
			return fmt.Sprintf("observed %+v, real code %+v", o, r.Obs[i])
		}
	}
	return ""
}

func matchKnown(ks []*knownFinding, prop, h string, v *violationRec) *knownFinding {
	for _, k := range ks {
		if k.prop == prop && k.harness == h && k.re.MatchString(v.Msg+" | "+describeInputs(v.inputs)) {
			return k
		}
	}
	return nil
}

func (c *checker) writeReplay(h string, v *violationRec, out string) string {
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	for i := 1; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, h, i))
		if i < 50 {
			if _, err := os.Stat(p); err == nil {
				continue
			}
		}
		d := replayDoc{Property: c.prop, Harness: h, Tier: c.tier, Kind: v.Kind, Msg: v.Msg, Text: describeInputs(v.inputs), Outcome: out, Inputs: v.inputs,
			How: "run: /verif/check.sh " + c.prop + " replay " + p}
		b, _ := json.MarshalIndent(d, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
}

func (c *checker) writeEvidence(results []*HarnessResult, ws []*Interp, cache *SharedCache, seed int64, validated, mismatches, nviol, nknown, unconfirmed int, load, wall float64) {
	var paths, decs, asserts, aq, dead int64
	complete := true
	var hs []any
	var samples []any
	var labelsMissing []string
	for _, r := range results {
		paths += r.Paths
		decs += r.Decisions
		asserts += r.Asserts
		aq += r.AssertQ
		dead += r.Dead
		if !r.complete() {
			complete = false
		}
		for _, l := range r.Labels {
			if !r.Covered[l] {
				labelsMissing = append(labelsMissing, r.Name+":"+l)
			}
		}
		var uns []string
		for k, n := range r.Unsupported {
			uns = append(uns, fmt.Sprintf("%d x %s", n, k))
		}
		sort.Strings(uns)
		hs = append(hs, map[string]any{"harness": r.Name, "bounds": r.Bounds, "paths": r.Paths, "paths_cut_by_assumptions": r.Dead, "branch_decisions": r.Decisions,
			"assertions_met": r.Asserts, "assertions_sent_to_solver": r.AssertQ, "exhausted_within_bounds": r.complete(), "unexplored_branches": r.Leftover,
			"not_encodable": uns, "undecided_by_solver": r.Unknown, "ssa_instructions": r.Steps, "wall_s": r.Wall, "witnesses_checked_on_real_code": r.Validated})
		for i, s := range r.Samples {
			if i >= 3 {
				break
			}
			samples = append(samples, r.Name+": "+describeInputs(s.Inputs))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	// functions of the package that were executed symbolically
	type cov struct{ calls, blocks, hit int64 }
	fns := map[string]*cov{}
	other := map[string]bool{}
	intr := map[string]bool{}
	for _, in := range ws {
		for _, fc := range in.codes {
			if fc.calls == 0 {
				continue
			}
			if fc.intr != nil {
				if !strings.Contains(fc.name, ".zz") {
					intr[fc.name] = true
				}
				continue
			}
			if !fc.target {
				if fc.fn.Pkg != nil && fc.fn.Pkg != in.p.target {
					other[fc.name] = true
				}
				continue
			}
			x := fns[fc.name]
			if x == nil {
				x = &cov{}
				fns[fc.name] = x
			}
			x.calls += fc.calls
			x.blocks = int64(len(fc.blocks))
		}
	}
	blkHit := map[string]map[int]bool{}
	for _, in := range ws {
		for _, fc := range in.codes {
			if !fc.target || fc.calls == 0 {
				continue
			}
			m := blkHit[fc.name]
			if m == nil {
				m = map[int]bool{}
				blkHit[fc.name] = m
			}
			for i := range fc.blocks {
				if *fc.blocks[i].hits > 0 {
					m[i] = true
				}
			}
		}
	}
	var fl []string
	tb, hb := int64(0), int64(0)
	for n, x := range fns {
		x.hit = int64(len(blkHit[n]))
		tb += x.blocks
		hb += x.hit
		fl = append(fl, fmt.Sprintf("%s (%d of %d blocks)", n, x.hit, x.blocks))
	}
	sort.Strings(fl)
	var il []string
	for n := range intr {
		il = append(il, n)
	}
	sort.Strings(il)
	st := &cache.stats
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":                  complete,
			"explanation":                 "states = feasible symbolic paths of the real code's SSA executed to the end (each stands for all inputs satisfying its path condition); transitions = branch decisions taken on symbolic conditions; every assertion is decided by z3 for all values of its path",
			"harnesses":                   hs,
			"assertions":                  asserts,
			"assertions_sent_to_solver":   aq,
			"paths_cut_by_assumptions":    dead,
			"translation_mismatches":      mismatches,
			"counterexamples_unconfirmed": unconfirmed,
			"known_findings_seen":         nknown,
			"vacuity_labels_not_reached":  labelsMissing,
			"functions_encoded":           fl,
			"blocks_encoded":              tb,
			"blocks_reached":              hb,
			"stdlib_functions_encoded":    len(other),
			"modelled_functions":          il,
			"solver":                      map[string]any{"queries": st.queries.Load(), "decided_by_z3": st.sent.Load(), "same_up_to_renaming": st.cacheHits.Load(), "unsat": st.unsat.Load(), "sat": st.sat.Load(), "unknown": st.unknown.Load(), "z3_seconds": float64(st.nanos.Load()) / 1e9, "slowest_ms": float64(st.maxNanos.Load()) / 1e6},
			"load_s":                      load,
		},
		"assumptions": []string{
			"the Go compiler implements the SSA that golang.org/x/tools/go/ssa builds from the same source (checked by replaying witnesses of explored paths on the compiled code)",
			"modelled library functions (listed) behave as their models; all other library code is executed from its source",
			"inputs outside the stated bounds are not covered",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}
