package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	only := flag.String("func", "", "verify only contracts whose key contains this")
	prop := flag.String("prop", "", "verify only contracts of this property")
	check := flag.String("check", "", "decide this property (check driver)")
	vdir := flag.String("verif", "/verif", "")
	flag.Parse()
	if *check != "" {
		code := runCheck(*check, *repo, *vdir)
		if scratchDir != "" {
			os.RemoveAll(scratchDir)
		}
		os.Exit(code)
	}
	defer func() {
		if scratchDir != "" {
			os.RemoveAll(scratchDir)
		}
	}()
	eng, err := load(*repo)
	if err != nil {
		fmt.Println("LOAD ERROR", err)
		os.Exit(2)
	}
	db, err := parseSpecs(*specs)
	if err != nil {
		fmt.Println("SPEC ERROR", err)
		os.Exit(2)
	}
	eng.specs = db
	for _, c := range db.order {
		if c.trusted {
			continue
		}
		if *only != "" && !strings.Contains(c.key, *only) {
			continue
		}
		if *prop != "" && !contains(c.props, *prop) {
			continue
		}
		r := eng.Verify(c, budget{1, 5, 20})
		fmt.Printf("%-60s %-11s %d/%d obls, cands %d/%d (%d q), %.1fs %v %s\n", r.Key, r.Status, r.Discharged, r.Total, r.CandsAlive, r.Cands, r.CandQueries, r.Secs, r.Backends, r.Msg)
		for _, f := range r.Failed {
			fmt.Printf("    FAILED %s [%s] at %s: %s (%s %.1fs)\n", f.name, f.kind, f.pos, f.res.Res, f.res.Solver, f.res.Secs)
		}
		if verbose {
			fmt.Println("   notes:", strings.Join(r.Notes, "\n          "))
			fmt.Println("   trusted:", r.Trusted)
			fmt.Println("   inlined:", r.Inlined)
		}
	}
}

func contains(a []string, s string) bool {
	for _, v := range a {
		if v == s {
			return true
		}
	}
	return false
}
