package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog   *ssa.Program
	target *ssa.Package

	fnDecodeRune *ssa.Function
	rtErrT       types.Type
	errStringT   types.Type
	wrapErrT     types.Type
	wrapErrsT    types.Type
	rtypeT       types.Type
	errorIface   *types.Interface
	poolNewOff   int

	pcMu  sync.Mutex
	pcs   map[*ssa.Function]uint64
	pcFns map[uint64]*ssa.Function

	harness map[string]*ssa.Function
}

func (p *Program) pcOf(fn *ssa.Function) uint64 {
	if x, ok := p.pcs[fn]; ok {
		return x
	}
	x := uint64(len(p.pcs)+1) << 8
	p.pcs[fn] = x
	p.pcFns[x] = fn
	return x
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
}

func repoSources(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(m)
	return m
}

// loadProgram type-checks /repo's package (without its tests) together with
// the harness files, and builds SSA for it and all its dependencies.
func loadProgram(repo string, harness []string) (*Program, error) {
	ov := map[string][]byte{}
	for _, h := range harness {
		b, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, filepath.Base(h))] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     goEnv(),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("loaded %d packages", len(pkgs))
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, target: spkgs[0], pcs: map[*ssa.Function]uint64{}, pcFns: map[uint64]*ssa.Function{}}
	p.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	typ := func(path, name string) types.Type {
		pk := prog.ImportedPackage(path)
		if pk == nil || pk.Type(name) == nil {
			return nil
		}
		return pk.Type(name).Type()
	}
	p.rtErrT = typ("runtime", "errorString")
	p.errStringT = typ("errors", "errorString")
	p.wrapErrT = typ("fmt", "wrapError")
	p.wrapErrsT = typ("fmt", "wrapErrors")
	p.rtypeT = typ("reflect", "rtype")
	if pk := prog.ImportedPackage("unicode/utf8"); pk != nil {
		p.fnDecodeRune = pk.Func("DecodeRuneInString")
	}
	p.harness = map[string]*ssa.Function{}
	for n, m := range p.target.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "ZZ_") {
			p.harness[n] = f
		}
	}
	return p, nil
}

func (p *Program) setPoolOff(in *Interp) {
	pk := p.prog.ImportedPackage("sync")
	if pk == nil || pk.Type("Pool") == nil {
		return
	}
	t := pk.Type("Pool").Type()
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			p.poolNewOff = in.ti(t).foff[i]
		}
	}
}

// ---- native test binary ----

type nativeBin struct {
	path string
	dir  string
}

// buildNative compiles /repo's package with the harness into a test binary.
func buildNative(repo, verif string, harness []string, race bool, out string) (*nativeBin, error) {
	dir := filepath.Dir(out)
	rep := map[string]string{}
	ents, _ := os.ReadDir(repo)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			rep[filepath.Join(repo, e.Name())] = ""
		}
	}
	for _, h := range harness {
		rep[filepath.Join(repo, filepath.Base(h))] = h
	}
	rep[filepath.Join(repo, "zz_verif_native_test.go")] = filepath.Join(verif, "harness", "native", "zz_verif_native_test.go")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := out + ".overlay.json"
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return nil, err
	}
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go test -c: %v\n%s", err, o)
	}
	return &nativeBin{path: out, dir: dir}, nil
}
