package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SolveResult struct {
	Res    string // unsat, sat, unknown
	Solver string
	Secs   float64
	Out    string
}

var solverSem = make(chan struct{}, 8)
var solverNanos int64
var solverCalls int64
var scratchDir string
var fileN int64

var scratchMu sync.Mutex

func scratch() string {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

type solverCfg struct {
	name string
	args func(file string, secs float64) []string
}

var zNew = solverCfg{"z3-new", func(f string, s float64) []string {
	return []string{"z3-new", fmt.Sprintf("-t:%d", int(s*1000)), fmt.Sprintf("-T:%d", int(s)+2), "-memory:3000", f}
}}
var zOld = solverCfg{"z3", func(f string, s float64) []string {
	return []string{"z3", fmt.Sprintf("-t:%d", int(s*1000)), fmt.Sprintf("-T:%d", int(s)+2), "-memory:3000", f}
}}
var cvc5 = solverCfg{"cvc5", func(f string, s float64) []string {
	return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", int(s*1000)), f}
}}
var cvc5e = solverCfg{"cvc5-enum", func(f string, s float64) []string {
	return []string{"cvc5", "--lang=smt2", "--enum-inst", fmt.Sprintf("--tlimit=%d", int(s*1000)), f}
}}

func runSolver(ctx context.Context, c solverCfg, file string, secs float64) SolveResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return SolveResult{Res: "unknown", Solver: c.name}
	}
	start := time.Now()
	a := c.args(file, secs)
	cctx, cancel := context.WithTimeout(ctx, time.Duration((secs+3)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	el := time.Since(start)
	atomic.AddInt64(&solverNanos, int64(el))
	atomic.AddInt64(&solverCalls, 1)
	res := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = "error"
			break
		}
	}
	return SolveResult{res, c.name, el.Seconds(), out.String()}
}

var keepSMT = os.Getenv("GOVC_KEEP")

// Solve decides satisfiability of the conjunction with a portfolio.
func Solve(name string, asserts []*Term, quick, slow float64) SolveResult {
	script := Script(asserts, "(set-logic ALL)\n") + "(check-sat)\n"
	return solveScript(name, script, quick, slow)
}

var resCache sync.Map

func solveScript(name, script string, quick, slow float64) SolveResult {
	ck := script
	if slow > 0 {
		ck = script + ";slow"
	}
	if v, ok := resCache.Load(script); ok && (slow <= 0 || v.(SolveResult).Res == "unsat" || v.(SolveResult).Res == "sat") {
		return v.(SolveResult)
	}
	if v, ok := resCache.Load(ck); ok {
		return v.(SolveResult)
	}
	n := atomic.AddInt64(&fileN, 1)
	f := filepath.Join(scratch(), fmt.Sprintf("q%d.smt2", n))
	if err := os.WriteFile(f, []byte(script), 0644); err != nil {
		panic(err)
	}
	if keepSMT != "" {
		_ = os.MkdirAll(keepSMT, 0755)
		_ = os.WriteFile(filepath.Join(keepSMT, strings.ReplaceAll(sanitize(name), "/", "_")+fmt.Sprintf("_%d.smt2", n)), []byte(script), 0644)
	} else {
		defer os.Remove(f)
	}
	bg := context.Background()
	r := runSolver(bg, zNew, f, quick)
	if r.Res == "error" {
		fmt.Fprintf(os.Stderr, "SOLVER ERROR in %s: %s\n", name, trunc(r.Out, 500))
	}
	if r.Res == "unsat" || r.Res == "sat" || slow <= 0 {
		resCache.Store(ck, r)
		return r
	}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	cfgs := []solverCfg{cvc5, zOld, cvc5e, zNew}
	ch := make(chan SolveResult, len(cfgs))
	for _, c := range cfgs {
		go func(c solverCfg) { ch <- runSolver(ctx, c, f, slow) }(c)
	}
	best := r
	for range cfgs {
		x := <-ch
		if x.Res == "unsat" || x.Res == "sat" {
			resCache.Store(script, x)
			best = x
			cancel()
			break
		}
	}
	resCache.Store(ck, best)
	return best
}
