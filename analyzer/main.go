// Command vtdcheck decides the properties of /verif/properties.jsonl from the
// source of the repository, without running it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/analyzer/absint"
	"verif/analyzer/core"
	"verif/analyzer/effects"
	"verif/analyzer/errflow"
)

type check struct {
	level string
	rule  string // the rule, in words, for the evidence
	run   func(*env) *core.Report
}

type env struct {
	repo, verif, tier string
	seed              int
	prog              *core.Program
	debug             string
	entry             string
	stats             bool
}

func (e *env) load() *core.Program {
	if e.prog == nil {
		p, err := core.Load(e.repo, nil)
		if err != nil {
			panic(undecided(err.Error()))
		}
		e.prog = p
	}
	return e.prog
}

type undecided string

var checks = map[string]check{
	"C18": {"other", effects.RuleShared, func(e *env) *core.Report { return effects.SharedState(e.load()) }},
	"C19": {"other", effects.RuleIO, func(e *env) *core.Report { return effects.ExternalEffects(e.load()) }},
	"C20": {"other", effects.RuleDoc, func(e *env) *core.Report { return effects.DocumentImmutable(e.load()) }},
	"C01": {"proof", ruleParse, func(e *env) *core.Report {
		return parts(
			func() *core.Report {
				return interpret(e, "parser", absint.Config{Safety: true, Subst: true}, "hParse")
			},
			func() *core.Report {
				return interpret(e, "parser", absint.Config{Safety: true}, "hXmlChar", "hBufferLong", "hBufferInt")
			})
	}},
	"C02": {"proof", ruleParseRank, func(e *env) *core.Report {
		return parts(
			func() *core.Report {
				return interpret(e, "parser", absint.Config{Rank: true, Subst: true}, "hParse")
			},
			func() *core.Report {
				return interpret(e, "parser", absint.Config{Rank: true}, "hXmlChar", "hBufferLong", "hBufferInt")
			})
	}},
	"X3": {"proof", ruleNav, func(e *env) *core.Report {
		return interpret(e, "parser", absint.Config{Window: true, Subst: true, Zero: true}, "hParse")
	}},
	"C04": {"proof", ruleToken, func(e *env) *core.Report {
		r := interpret(e, "parser", absint.Config{Pack: true, Subst: true}, "hParse")
		if e.entry == "" {
			r.Floor("coverage", "obligations: token", 1)
			r.Floor("coverage", "obligations: pack", 1)
		}
		return r
	}},
	"C08": {"proof", ruleWrap, func(e *env) *core.Report {
		r := parts(
			func() *core.Report {
				return interpret(e, "parser", absint.Config{Wrap: true, Subst: true}, "hParse")
			},
			func() *core.Report {
				return interpret(e, "nav", absint.Config{Wrap: true}, "hNavT", "hEntity")
			})
		if e.entry == "" {
			r.Floor("coverage", "obligations: wrap", 1)
		}
		return r
	}},
	"X4": {"proof", ruleNav, func(e *env) *core.Report { // all the parser's rules at once
		return interpret(e, "parser", absint.Config{Safety: true, Rank: true, Pack: true, Wrap: true, Subst: true}, "hParse")
	}},
	"X5": {"proof", ruleFront, func(e *env) *core.Report {
		return interpret(e, "parser", absint.Config{Front: true, Subst: true}, "hFront")
	}},
	"X1": {"proof", ruleNav, func(e *env) *core.Report {
		return interpret(e, "xmlchar", absint.Config{Safety: true}, "hXmlChar")
	}},
	"C09": {"proof", ruleReaders, func(e *env) *core.Report {
		return interpret(e, "reader", absint.Config{Safety: true, Window: true}, "hReader")
	}},
	"C10": {"proof", ruleBuffers, func(e *env) *core.Report {
		return interpret(e, "buffer", absint.Config{Safety: true}, "hBuffer")
	}},
	"C14": {"proof", ruleNav, func(e *env) *core.Report {
		return interpret(e, "nav", absint.Config{Safety: true}, "hNav")
	}},
	"C15": {"proof", ruleNavRank, func(e *env) *core.Report {
		return interpret(e, "nav", absint.Config{Rank: true}, "hNav")
	}},
	"C16": {"proof", ruleNavSame, func(e *env) *core.Report {
		return interpret(e, "nav", absint.Config{}, "hNavMoves")
	}},
	"C23": {"other", effects.RuleTaxonomy, func(e *env) *core.Report { return effects.Taxonomy(e.load()) }},
	"C21": {"other", errflow.RuleSwallow, func(e *env) *core.Report { return errflow.Swallow(e.load()) }},
	"C22": {"other", errflow.RuleExclusive, func(e *env) *core.Report { return errflow.Exclusive(e.load()) }},
}

// parts runs the parts of a check side by side and adds up what they report.
func parts(fs ...func() *core.Report) *core.Report {
	rs := make([]*core.Report, len(fs))
	fail := make([]any, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { fail[i] = recover() }()
			rs[i] = f()
		}()
	}
	wg.Wait()
	total := core.NewReport()
	for i, r := range rs {
		if fail[i] != nil {
			panic(fail[i])
		}
		if r != nil {
			total.Merge(r)
		}
	}
	return total
}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of the checks")
	dbg := flag.String("debug", "", "trace the loops of functions whose name contains this")
	entry := flag.String("entry", "", "run only this entry function")
	list := flag.Bool("list", false, "list the properties")
	verbose := flag.Bool("v", false, "print every violation")
	cpu := flag.String("cpuprofile", "", "write a profile here")
	flag.Parse()
	if *cpu != "" {
		if f, err := os.Create(*cpu); err == nil && pprof.StartCPUProfile(f) == nil {
			fmt.Println("profiling")
		}
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	e := &env{repo: *repo, verif: *verif, tier: "quick", seed: 1, debug: *dbg, entry: *entry, stats: *verbose}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		e.tier = t
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		e.seed = s
	}
	debug.SetGCPercent(400)
	start := time.Now()
	done := make(chan *core.Report, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				r := core.NewReport()
				if u, ok := x.(undecided); ok {
					r.Fail("undecided", "-", "-", "%s", string(u))
				} else {
					r.Fail("undecided", "-", "-", "the analysis could not decide: %v", x)
					fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
				}
				done <- r
			}
		}()
		done <- c.run(e)
	}()
	var r *core.Report
	select {
	case r = <-done:
	case <-time.After(840 * time.Second):
		r = core.NewReport()
		r.Fail("undecided", "-", "-", "the analysis did not finish in 840 s")
	}
	pprof.StopCPUProfile()
	if *verbose {
		fmt.Println("lp:", absint.LpStats())
	}
	finish(e, *prop, c, r, time.Since(start).Seconds(), *verbose)
}

func finish(e *env, prop string, c check, r *core.Report, wall float64, verbose bool) {
	findings := known(filepath.Join(e.verif, "known_findings.txt"), prop)
	var open []core.Violation
	for _, v := range r.Violations {
		if what, ok := findings[v.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			continue
		}
		open = append(open, v)
	}
	cov := r.Coverage
	cov["rule"] = c.rule
	if c.level == "proof" {
		cov["obligations"] = r.Obligations
		cov["discharged"] = r.Discharged
		cov["checker_cmd"] = "bash /verif/check.sh " + prop
		if _, ok := cov["trusted_base"]; !ok {
			cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "the abstract interpreter in /verif/analyzer"}
		}
	} else {
		if r.Obligations > 0 {
			cov["obligations_checked"] = r.Obligations
			cov["obligations_discharged"] = r.Discharged
		}
		if _, ok := cov["explanation"]; !ok {
			cov["explanation"] = c.rule
		}
	}
	ev := map[string]any{
		"property": prop, "tier": e.tier, "seed": e.seed, "level": c.level,
		"coverage": cov, "wall_s": wall, "assumptions": r.Assumptions, "violations": len(open),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(open) == 0 {
		fmt.Printf("property %s holds: %d obligations, %.1f s\n", prop, r.Obligations, wall)
		os.Exit(0)
	}
	dir := filepath.Join(e.verif, "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s is broken; replay: bash /verif/check.sh %s\nrule: %s\n\n", prop, prop, c.rule)
	for _, v := range open {
		fmt.Fprintln(&sb, v.String())
	}
	_ = os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i >= 20 && !verbose {
			fmt.Printf("... and %d more\n", len(open)-i)
			break
		}
		fmt.Println(v.String())
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	os.Exit(1)
}

// known reads the open findings of a property: lines of the form
// "finding: property=<id> key=<rule|func|message> what=<text>".
func known(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" key=")
		if !ok {
			continue
		}
		if k, w, ok := strings.Cut(rest, " what="); ok {
			out[k] = w
		}
	}
	return out
}
