package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int8

const (
	Unsat Sat = iota
	IsSat
	Unknown
)

type cacheEntry struct {
	res   Sat
	model []uint64 // in renamed order
}

// SolverStats is shared by all workers.
type SolverStats struct {
	queries   atomic.Int64 // queries the exploration asked for
	sent      atomic.Int64 // queries z3 decided (the rest: identical up to renaming)
	unsat     atomic.Int64
	sat       atomic.Int64
	unknown   atomic.Int64
	nanos     atomic.Int64
	cacheHits atomic.Int64
	maxNanos  atomic.Int64
}

type SharedCache struct {
	m     sync.Map
	stats SolverStats
}

type Solver struct {
	ctx    *TermCtx
	cache  *SharedCache
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	dead   bool
	bin    []string
	timeMs int
	n      int
}

func newSolver(ctx *TermCtx, cache *SharedCache) *Solver {
	return &Solver{ctx: ctx, cache: cache, bin: []string{"z3", "-in", "-smt2"}, timeMs: 20000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err = s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeMs)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the conjunction of ts. On IsSat it returns assignments
// (variable number -> value) for the variables occurring in ts.
func (s *Solver) check(ts []*Term) (Sat, []int32, []uint64) {
	st := &s.cache.stats
	st.queries.Add(1)
	w := newSmtWriter()
	text := w.render(ts)
	if e, ok := s.cache.m.Load(text); ok {
		st.cacheHits.Add(1)
		ce := e.(*cacheEntry)
		return ce.res, w.order, ce.model
	}
	t0 := time.Now()
	res, model := s.ask(text, len(w.order))
	d := time.Since(t0).Nanoseconds()
	st.nanos.Add(d)
	for {
		m := st.maxNanos.Load()
		if d <= m || st.maxNanos.CompareAndSwap(m, d) {
			break
		}
	}
	st.sent.Add(1)
	switch res {
	case IsSat:
		st.sat.Add(1)
	case Unsat:
		st.unsat.Add(1)
	default:
		st.unknown.Add(1)
	}
	if res != Unknown {
		s.cache.m.Store(text, &cacheEntry{res, model})
	}
	return res, w.order, model
}

func (s *Solver) ask(text string, nv int) (Sat, []uint64) {
	for try := 0; try < 2; try++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return Unknown, nil
			}
			s.n = 0
		}
		res, model, err := s.ask1(text, nv)
		if err == nil {
			s.n++
			if s.n > 20000 { // keep the process small
				s.stop()
			}
			return res, model
		}
		s.stop()
	}
	return Unknown, nil
}

func (s *Solver) ask1(text string, nv int) (Sat, []uint64, error) {
	if _, err := io.WriteString(s.in, "(push 1)\n"+text+"(check-sat)\n"); err != nil {
		return Unknown, nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		_, err = io.WriteString(s.in, "(pop 1)\n")
		return Unsat, nil, err
	case "sat":
		if nv == 0 {
			_, err = io.WriteString(s.in, "(pop 1)\n")
			return IsSat, nil, err
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for i := 0; i < nv; i++ {
			fmt.Fprintf(&sb, "v%d ", i)
		}
		sb.WriteString("))\n(pop 1)\n(echo \"done\")\n")
		if _, err = io.WriteString(s.in, sb.String()); err != nil {
			return Unknown, nil, err
		}
		var all strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				return Unknown, nil, err
			}
			if strings.TrimSpace(l) == "done" {
				break
			}
			all.WriteString(l)
		}
		m, err := parseModel(all.String(), nv)
		if err != nil {
			return Unknown, nil, err
		}
		return IsSat, m, nil
	case "unknown", "timeout":
		_, err = io.WriteString(s.in, "(pop 1)\n")
		return Unknown, nil, err
	}
	// "(error" or anything else: inconclusive; restart the solver.
	return Unknown, nil, fmt.Errorf("solver: %s", line)
}

func parseModel(out string, nv int) ([]uint64, error) {
	if strings.Contains(out, "(error") {
		return nil, fmt.Errorf("solver: %s", out)
	}
	m := make([]uint64, nv)
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(out))
	seen := 0
	for i := 0; i+1 < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 'v' {
			n, err := strconv.Atoi(f[i][1:])
			if err != nil || n >= nv {
				return nil, fmt.Errorf("model: %q", out)
			}
			v := f[i+1]
			var val uint64
			switch {
			case v == "true":
				val = 1
			case v == "false":
				val = 0
			case strings.HasPrefix(v, "#x"):
				val, err = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				val, err = strconv.ParseUint(v[2:], 2, 64)
			case v == "_" && i+2 < len(f) && strings.HasPrefix(f[i+2], "bv"):
				val, err = strconv.ParseUint(f[i+2][2:], 10, 64)
			default:
				err = fmt.Errorf("model: %q", out)
			}
			if err != nil {
				return nil, err
			}
			m[n] = val
			seen++
			i++
		}
	}
	if seen != nv {
		return nil, fmt.Errorf("model: %d of %d values", seen, nv)
	}
	return m, nil
}
