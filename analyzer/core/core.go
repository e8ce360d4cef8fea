// Package core loads /repo and collects the verdict of a rule.
package core

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-form program under analysis.
type Program struct {
	Dir    string
	Module string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // packages of the repository, harness included
	SSA    *ssa.Program
	Funcs  []*ssa.Function // every function with a body in those packages
}

const HarnessPath = "verifharness"

// Load type-checks the current working tree and builds its SSA form.
// overlay adds harness sources (they are never written to disk).
func Load(dir string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Tests:   false,
	}
	pats := []string{"./..."}
	seen := map[string]bool{}
	for f := range overlay {
		rel, err := filepath.Rel(dir, filepath.Dir(f))
		if err == nil && !seen[rel] {
			seen[rel] = true
			pats = append(pats, "./"+rel)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	uniq := map[string]*packages.Package{}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		uniq[p.PkgPath] = p
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	pkgs = pkgs[:0]
	for _, p := range uniq {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA form for %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	p := &Program{Dir: dir, Pkgs: pkgs, SSA: prog, Fset: prog.Fset}
	if pkgs[0].Module != nil {
		p.Module = pkgs[0].Module.Path
	}
	own := map[*types.Package]bool{}
	for _, q := range pkgs {
		own[q.Types] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if pk := FuncPkg(fn); pk != nil && own[pk] {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// FuncPkg is the package a function (or its outermost parent) belongs to.
func FuncPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// Owns tells whether a package belongs to the repository.
func (p *Program) Owns(pk *types.Package) bool {
	if pk == nil {
		return false
	}
	for _, q := range p.Pkgs {
		if q.Types == pk {
			return true
		}
	}
	return false
}

// Pkg finds a repository package by the last elements of its path.
func (p *Program) Pkg(suffix string) *packages.Package {
	for _, q := range p.Pkgs {
		if q.PkgPath == suffix || strings.HasSuffix(q.PkgPath, "/"+suffix) {
			return q
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InstrPos is the position of an instruction, or of its neighbourhood.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if b := in.Block(); b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.Pos(b.Instrs[i].Pos())
			}
		}
		for i := idx; i < len(b.Instrs) && i >= 0; i++ {
			if b.Instrs[i].Pos().IsValid() {
				return p.Pos(b.Instrs[i].Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.Pos(in.Parent().Pos())
	}
	return "-"
}

// Violation is one broken obligation.
type Violation struct {
	Rule, Where, Func, Msg string
}

func (v Violation) Key() string { return v.Rule + "|" + v.Func + "|" + v.Msg }

func (v Violation) String() string {
	return fmt.Sprintf("%s: %s: in %s: %s", v.Rule, v.Where, v.Func, v.Msg)
}

// Report is what a rule hands back.
type Report struct {
	Violations  []Violation
	Coverage    map[string]any
	Assumptions []string
	Obligations int
	Discharged  int
	seen        map[string]bool
}

func NewReport() *Report {
	return &Report{Coverage: map[string]any{}, seen: map[string]bool{}}
}

// Fail records a violation once per construct.
func (r *Report) Fail(rule, where, fn, format string, args ...any) {
	v := Violation{rule, where, fn, fmt.Sprintf(format, args...)}
	k := v.Rule + v.Where + v.Func + v.Msg
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Violations = append(r.Violations, v)
}

// Count adds to a named counter of the coverage.
func (r *Report) Count(name string, n int) {
	c, _ := r.Coverage[name].(int)
	r.Coverage[name] = c + n
}

// Floor fails when fewer instances were found than the rule needs to mean
// anything.
func (r *Report) Floor(rule, name string, min int) {
	c, _ := r.Coverage[name].(int)
	if c < min {
		r.Fail(rule, "-", "-", "the rule found %d %s, fewer than the %d it needs to say anything", c, name, min)
	}
}

// Sample keeps up to n examples under a name.
func (r *Report) Sample(name, s string, n int) {
	l, _ := r.Coverage[name].([]string)
	if len(l) < n {
		r.Coverage[name] = append(l, s)
	}
}

// Short is a readable name of a function.
func (p *Program) Short(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	return strings.ReplaceAll(s, p.Module+"/", "")
}

// Merge adds another report to this one.
func (r *Report) Merge(o *Report) {
	for _, v := range o.Violations {
		r.Fail(v.Rule, v.Where, v.Func, "%s", v.Msg)
	}
	r.Obligations += o.Obligations
	r.Discharged += o.Discharged
	r.Count("obligations in total", o.Obligations)
	for k, v := range o.Coverage {
		switch x := v.(type) {
		case int:
			if k != "functions_analysed" {
				r.Count(k, x)
			}
		case []string:
			set := map[string]bool{}
			old, _ := r.Coverage[k].([]string)
			for _, s := range append(append([]string(nil), old...), x...) {
				set[s] = true
			}
			var l []string
			for s := range set {
				l = append(l, s)
			}
			sort.Strings(l)
			r.Coverage[k] = l
			if k == "functions" {
				r.Coverage["functions_analysed"] = len(l)
			}
		}
	}
}
