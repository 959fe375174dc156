package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The check driver: for one property, discharge every contract obligation on the
// current source, run the bounded stand-in/replay harness of the property, write
// evidence and decide.

type harnessCfg struct {
	Pkg  string   `json:"pkg"`  // directory below /repo
	File string   `json:"file"` // file below /verif/harness
	Run  string   `json:"run"`
	PG   bool     `json:"pg"`
	Race bool     `json:"race"`
	Keep bool     `json:"keep_tests"` // keep the package's own test files
	Also []string `json:"also"`       // further harness files
}

type propCfg struct {
	Harness     []harnessCfg `json:"harness"`
	Assumptions []string     `json:"assumptions"`
}

type harnessResult struct {
	cfg      harnessCfg
	status   string // pass, fail, nobuild
	fails    []hfail
	evals    int
	distinct int
	samples  []string
	out      string
	secs     float64
}
type hfail struct{ key, text string }

type finding struct{ prop, key, text string }

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return
}

func goEnv(extra ...string) []string {
	env := []string{"HOME=/root",
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=/opt/veriftools/go1.23.12", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTELEMETRY=off", "CGO_ENABLED=1",
		"SYNCV3_DEBUG=1", "SYNCV3_SECRET=itsasecret"}
	for _, k := range []string{"TMPDIR", "VERIF_SEED", "VERIF_TIER", "VERIF_ONLY"} {
		if v := os.Getenv(k); v != "" {
			env = append(env, k+"="+v)
		}
	}
	return append(env, extra...)
}

type pgServer struct{ dir, bin string }

func aspg(args ...string) *exec.Cmd {
	c := exec.Command("setpriv", append([]string{"--reuid=postgres", "--regid=postgres", "--init-groups"}, args...)...)
	c.Dir = "/"
	return c
}

func startPG() (*pgServer, error) {
	m, _ := filepath.Glob("/usr/lib/postgresql/*/bin")
	if len(m) == 0 {
		return nil, fmt.Errorf("no postgres")
	}
	p := &pgServer{bin: m[len(m)-1]}
	d, err := os.MkdirTemp("/tmp", "govcpg")
	if err != nil {
		return nil, err
	}
	p.dir = d
	os.Chmod(d, 0755)
	os.Mkdir(d+"/pg", 0755)
	if out, err := exec.Command("chown", "postgres:", d+"/pg").CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v %s", err, out)
	}
	if out, err := aspg(p.bin+"/initdb", "-D", d+"/pg/data", "-U", "postgres", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync").CombinedOutput(); err != nil {
		return p, fmt.Errorf("%v %s", err, out)
	}
	st := aspg(p.bin+"/pg_ctl", "-D", d+"/pg/data", "-l", d+"/pg/server.log", "-w", "-t", "60", "-o",
		"-k "+d+"/pg -c listen_addresses= -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c max_connections=200", "start")
	if err := st.Run(); err != nil {
		b, _ := os.ReadFile(d + "/pg/server.log")
		return p, fmt.Errorf("%v %s", err, b)
	}
	if out, err := exec.Command(p.bin+"/createdb", "-h", d+"/pg", "-U", "postgres", "syncv3").CombinedOutput(); err != nil {
		return p, fmt.Errorf("%v %s", err, out)
	}
	return p, nil
}

func (p *pgServer) stop() {
	if p == nil {
		return
	}
	aspg(p.bin+"/pg_ctl", "-D", p.dir+"/pg/data", "-m", "immediate", "-w", "stop").Run()
	if strings.HasPrefix(p.dir, "/tmp/govcpg") {
		os.RemoveAll(p.dir)
	}
}

func pkgName(repo, dir string) string {
	m, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	re := regexp.MustCompile(`(?m)^package (\w+)`)
	for _, f := range m {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		if x := re.FindStringSubmatch(string(b)); x != nil {
			return x[1]
		}
	}
	return filepath.Base(dir)
}

func runHarness(repo, vdir string, h harnessCfg, pg *pgServer, timeout int) (r harnessResult) {
	r.cfg = h
	start := time.Now()
	defer func() { r.secs = time.Since(start).Seconds() }()
	dir, err := os.MkdirTemp("", "govch")
	if err != nil {
		r.status, r.out = "nobuild", err.Error()
		return
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	if !h.Keep {
		m, _ := filepath.Glob(filepath.Join(repo, h.Pkg, "*_test.go"))
		for _, f := range m {
			rep[f] = ""
		}
	}
	name := pkgName(repo, h.Pkg)
	hb, _ := os.ReadFile(filepath.Join(vdir, "harness", "helper.go.txt"))
	hp := filepath.Join(dir, "helper_test.go")
	os.WriteFile(hp, []byte(strings.Replace(string(hb), "PACKAGE", name, 1)), 0644)
	rep[filepath.Join(repo, h.Pkg, "zz_verif_helper_test.go")] = hp
	for i, f := range append([]string{h.File}, h.Also...) {
		rep[filepath.Join(repo, h.Pkg, fmt.Sprintf("zz_verif_%d_test.go", i))] = filepath.Join(vdir, "harness", f)
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0644)
	bin := filepath.Join(dir, "h.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if h.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+h.Pkg)
	c := exec.Command("go", args...)
	c.Path = "/opt/veriftools/go1.23.12/bin/go"
	c.Dir = repo
	c.Env = goEnv()
	if out, err := c.CombinedOutput(); err != nil {
		r.status, r.out = "nobuild", string(out)
		return
	}
	env := goEnv()
	if pg != nil {
		env = append(env, "POSTGRES_HOST="+pg.dir+"/pg", "POSTGRES_USER=postgres", "POSTGRES_DB=syncv3", "PGHOST="+pg.dir+"/pg", "PGUSER=postgres")
	}
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0755)
	c = exec.Command(bin, "-test.run", "^("+h.Run+")$", "-test.v", fmt.Sprintf("-test.timeout=%ds", timeout))
	c.Dir = work
	c.Env = env
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	r.out = buf.String()
	for _, l := range strings.Split(r.out, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "VERIF-FAIL key="); i >= 0 {
			rest := l[i+len("VERIF-FAIL key="):]
			k, t, _ := strings.Cut(rest, " ")
			r.fails = append(r.fails, hfail{k, t})
		}
		if i := strings.Index(l, "VERIF-STATS "); i >= 0 {
			for _, kv := range strings.Fields(l[i+len("VERIF-STATS "):]) {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "evaluations":
					r.evals += n
				case "distinct":
					r.distinct += n
				}
			}
		}
		if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 && len(r.samples) < 4 {
			r.samples = append(r.samples, trunc(l[i+len("VERIF-SAMPLE "):], 400))
		}
	}
	r.status = "pass"
	if err != nil {
		r.status = "fail"
		if len(r.fails) == 0 {
			key := "crash"
			if strings.Contains(r.out, "test timed out") {
				key = "hang"
			}
			r.fails = append(r.fails, hfail{key, "the harness ended abnormally: " + lastPanic(r.out)})
		}
	} else if !strings.Contains(r.out, "--- PASS") {
		r.status, r.out = "nobuild", "no test ran: "+r.out
	}
	return
}

func lastPanic(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
			return trunc(l, 300)
		}
	}
	return "see replay file"
}

func runCheck(prop, repo, vdir string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	os.Setenv("VERIF_TIER", tier)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	os.Setenv("VERIF_SEED", strconv.Itoa(seed))
	cfgs := map[string]propCfg{}
	cb, err := os.ReadFile(filepath.Join(vdir, "props.json"))
	if err == nil {
		err = json.Unmarshal(cb, &cfgs)
	}
	if err != nil {
		fmt.Println("CONFIG ERROR", err)
		return 2
	}
	cfg := cfgs[prop]
	known := map[string]string{}
	for _, f := range loadFindings(filepath.Join(vdir, "known-findings.txt")) {
		if f.prop == prop {
			known[f.key] = f.text
		}
	}
	eng, err := load(repo)
	if err != nil {
		fmt.Println("LOAD ERROR", err)
		return 2
	}
	db, err := parseSpecs(filepath.Join(vdir, "contracts"))
	if err != nil {
		fmt.Println("SPEC ERROR", err)
		return 2
	}
	eng.specs = db
	b := budget{1.5, 8, 30}
	if tier == "thorough" {
		b = budget{3, 15, 90}
	}
	// harness
	var pg *pgServer
	var hres []harnessResult
	for _, h := range cfg.Harness {
		if h.PG && pg == nil {
			pg, err = startPG()
			if err != nil {
				fmt.Println("  no database for the harness:", trunc(err.Error(), 300))
				pg.stop()
				pg = nil
				continue
			}
		}
		var p *pgServer
		if h.PG {
			p = pg
		}
		to := 200
		if tier == "thorough" {
			to = 500
		}
		r := runHarness(repo, vdir, h, p, to)
		fmt.Printf("  bounded harness %-42s %-8s %d evaluations %.1fs\n", h.Run, r.status, r.evals, r.secs)
		if r.status == "nobuild" {
			fmt.Println("    harness unavailable:", trunc(strings.TrimSpace(r.out), 600))
		}
		hres = append(hres, r)
	}
	pg.stop()

	// a failing input decides already; the proof then only adds which obligations fail
	deadline := start.Add(600 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(3 * time.Hour)
	}
	for _, r := range hres {
		for _, f := range r.fails {
			if _, ok := known[f.key]; !ok {
				deadline = time.Now().Add(100 * time.Second)
			}
		}
	}
	var results []*RootResult
	for _, c := range db.order {
		if c.trusted || !contains(c.props, prop) {
			continue
		}
		if time.Now().After(deadline) {
			r := &RootResult{Key: c.key, Status: "skipped", Msg: "no time left for this proof", Backends: map[string]int{}}
			fmt.Printf("  %-58s %-11s %s\n", r.Key, r.Status, r.Msg)
			results = append(results, r)
			continue
		}
		r := eng.Verify(c, b)
		fmt.Printf("  %-58s %-11s %d/%d obligations %.1fs %s\n", r.Key, r.Status, r.Discharged, r.Total, r.Secs, r.Msg)
		results = append(results, r)
	}
	// decide
	type viol struct{ key, text string }
	var inputs, obls []viol
	knownHit := map[string]string{}
	for _, r := range hres {
		for _, f := range r.fails {
			if t, ok := known[f.key]; ok {
				knownHit[f.key] = t
				continue
			}
			inputs = append(inputs, viol{f.key, f.text})
		}
	}
	obligations, discharged := 0, 0
	trusted := map[string]bool{}
	backends := map[string]int{}
	var funcs []map[string]interface{}
	var undecided []string
	for _, r := range results {
		obligations += r.Total
		discharged += r.Discharged
		for k, v := range r.Backends {
			backends[k] += v
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		switch r.Status {
		case "failed":
			for _, o := range r.Failed {
				key := r.Key + "/" + strings.ReplaceAll(o.name, " ", "_")
				if t, ok := known[key]; ok {
					knownHit[key] = t
					continue
				}
				obls = append(obls, viol{key, fmt.Sprintf("obligation %q [%s] of %s at %s: solver %s said %s after %.1fs", o.name, o.kind, r.Key, o.pos, o.res.Solver, o.res.Res, o.res.Secs)})
			}
		case "unsupported", "missing", "skipped":
			undecided = append(undecided, r.Key+": "+r.Status+": "+r.Msg)
		}
		funcs = append(funcs, map[string]interface{}{"function": r.Key, "status": r.Status, "obligations": r.Total, "discharged": r.Discharged, "secs": round(r.Secs), "inlined": r.Inlined, "contracts_used": r.Used, "invariants_found_inductive": r.CandsAlive, "abstractions": r.Notes})
	}
	keys := make([]string, 0)
	for k := range knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", prop, k, knownHit[k])
	}
	nviol := 0
	code := 0
	if len(inputs)+len(obls) > 0 {
		nviol = len(inputs) + len(obls)
		code = 1
		rp := filepath.Join(vdir, "replay")
		os.MkdirAll(rp, 0755)
		rf := filepath.Join(rp, prop+".txt")
		var w strings.Builder
		fmt.Fprintf(&w, "property %s, tier %s, seed %d, repo %s\n", prop, tier, seed, repo)
		for _, o := range obls {
			fmt.Fprintf(&w, "FAILED OBLIGATION %s\n  %s\n", o.key, o.text)
		}
		for _, i := range inputs {
			fmt.Fprintf(&w, "FAILING INPUT %s\n  %s\n", i.key, i.text)
		}
		fmt.Fprintf(&w, "rerun: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n", seed, tier, prop)
		for _, r := range results {
			for _, o := range r.Failed {
				fmt.Fprintf(&w, "---- solver output for %s / %s\n%s\n", r.Key, o.name, trunc(o.res.Out, 2000))
			}
		}
		for _, h := range hres {
			if h.status == "fail" {
				fmt.Fprintf(&w, "---- harness %s output\n%s\n", h.cfg.Run, trunc(h.out, 20000))
			}
		}
		os.WriteFile(rf, []byte(w.String()), 0644)
		for _, o := range obls {
			fmt.Println("  failed obligation:", o.text)
		}
		for _, i := range inputs {
			fmt.Println("  failing input:", i.key, trunc(i.text, 600))
		}
		if len(inputs) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rf)
		}
	}
	// evidence
	tb := []string{"govc verification-condition generator (/verif/tool) over golang.org/x/tools/go/ssa", "z3 4.x (z3-new, z3), cvc5 1.1.2", "Go compiler semantics; integers are mathematical (no overflow)"}
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb[3:])
	cov := map[string]interface{}{
		"obligations": obligations, "discharged": discharged,
		"checker_cmd":                 fmt.Sprintf("./check.sh %s", prop),
		"trusted_base":                tb,
		"functions":                   funcs,
		"backends":                    backends,
		"solver_calls":                solverCalls,
		"solver_secs":                 round(float64(solverNanos) / 1e9),
		"undecided_by_proof_this_run": undecided,
	}
	var hb []map[string]interface{}
	for _, h := range hres {
		m := map[string]interface{}{"harness": h.cfg.Run, "label": "bounded", "status": h.status, "evaluations": h.evals, "distinct": h.distinct, "samples": h.samples, "secs": round(h.secs)}
		hb = append(hb, m)
	}
	cov["bounded_checks"] = hb
	ass := append([]string{
		"goroutine interleaving is not modelled: each function is verified as if run without interference (locks are treated as no-ops)",
		"machine integers are treated as mathematical integers; strings as an ordered uninterpreted sort",
		"functions outside the verified set that appear in trusted_base are abstracted by the stated contract",
	}, cfg.Assumptions...)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": round(time.Since(start).Seconds()), "violations": nviol}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), eb, 0644)
	if code == 0 {
		msg := "held"
		if len(undecided) > 0 {
			msg = "held on everything explored (some functions only by the bounded harness: " + strings.Join(undecided, "; ") + ")"
		}
		fmt.Printf("OK property=%s %s: %d/%d obligations, %.0fs\n", prop, msg, discharged, obligations, time.Since(start).Seconds())
	}
	return code
}

func round(f float64) float64 { return float64(int(f*10+0.5)) / 10 }
