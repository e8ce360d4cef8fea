package effects

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

const (
	RuleShared = "no instruction reachable from an exported function writes memory that is reachable from a package-level variable (points-to analysis, package initialisation apart)"
	RuleIO     = "no function reachable from an exported function or an initialiser refers to a function or variable outside the repository that is not on the list of pure ones, starts a goroutine, or uses print, println or unsafe"
	RuleDoc    = "no instruction reachable from an exported function writes through a pointer or slice that may refer to the bytes a caller handed in (points-to analysis; append and copy destinations and external callees included)"
)

func (a *Pts) coverage(r *core.Report) {
	names := map[string]bool{}
	for k := range a.fns {
		names[a.p.Short(k.fn)] = true
	}
	r.Count("functions", len(names))
	r.Count("write_sites", len(a.writes))
	r.Count("abstract_objects", len(a.objs))
	pk := 0
	for range a.p.Pkgs {
		pk++
	}
	r.Count("packages", pk)
	entries := 0
	for _, fn := range a.p.Funcs {
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Object() != nil && fn.Object().Exported() {
			entries++
		}
	}
	r.Count("exported_entry_points", entries)
	r.Floor("coverage", "functions", 60)
	r.Floor("coverage", "write_sites", 100)
	r.Floor("coverage", "exported_entry_points", 40)
	r.Assumptions = append(r.Assumptions,
		"implementations of the library's interfaces supplied from outside the library are not analysed",
		"standard library functions have the memory effects listed in effects/pts.go; a function that is not listed may write everything it is given")
}

func (a *Pts) sortedWrites() []Write {
	var ws []Write
	for _, w := range a.writes {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool {
		x, y := a.p.InstrPos(ws[i].in)+ws[i].what, a.p.InstrPos(ws[j].in)+ws[j].what
		return x < y
	})
	return ws
}

// SharedState decides C18.
func SharedState(p *core.Program) *core.Report {
	r := core.NewReport()
	a := NewPts(p)
	a.coverage(r)
	// memory reachable from the package-level variables
	shared := map[*Obj]string{}
	var work []*Obj
	mark := func(o *Obj, why string) {
		if _, ok := shared[o]; !ok {
			shared[o] = why
			work = append(work, o)
		}
	}
	globals := 0
	for _, o := range a.objs {
		if o.kind == global {
			globals++
			mark(o, o.name)
		}
	}
	byObj := map[*Obj][]nodeID{}
	for k, id := range a.nodes {
		if o, ok := k.base.(*Obj); ok {
			byObj[o] = append(byObj[o], id)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, n := range byObj[o] {
			for l := range a.pts[n] {
				if l.o.kind == closure {
					for _, b := range l.o.bind {
						for m := range a.pts[b] {
							mark(m.o, shared[o])
						}
					}
				}
				mark(l.o, shared[o])
			}
		}
	}
	direct := map[string]bool{}
	r.Coverage["package_variables"] = globals
	r.Coverage["shared_objects"] = len(shared)
	for _, w := range a.sortedWrites() {
		if w.c == boot {
			continue
		}
		r.Obligations++
		bad := ""
		for l := range a.pts[w.ptr] {
			if l.o.kind == global {
				direct[p.InstrPos(w.in)] = true
			}
			if why, ok := shared[l.o]; ok && l.o.kind != caller && l.o.kind != callerBytes {
				if bad == "" || why < bad {
					bad = why
				}
			}
		}
		if bad != "" {
			r.Fail("shared-state", p.InstrPos(w.in), p.Short(w.fn), "%s writes memory reachable from %s", w.what, bad)
			continue
		}
		r.Discharged++
	}
	// the writes of the variables themselves come first
	sort.SliceStable(r.Violations, func(i, j int) bool {
		return direct[r.Violations[i].Where] && !direct[r.Violations[j].Where]
	})
	return r
}

// DocumentImmutable decides C20.
func DocumentImmutable(p *core.Program) *core.Report {
	r := core.NewReport()
	a := NewPts(p)
	a.coverage(r)
	docs := 0
	for _, o := range a.objs {
		if o.kind == callerBytes {
			docs++
			r.Sample("documents", o.name, 20)
		}
	}
	r.Coverage["document_roots"] = docs
	r.Floor("coverage", "document_roots", 5)
	holders := 0
	for _, s := range a.pts {
		for l := range s {
			if l.o.kind == callerBytes {
				holders++
				break
			}
		}
	}
	r.Coverage["values_that_alias_a_document"] = holders
	r.Floor("coverage", "values_that_alias_a_document", 20)
	for _, w := range a.sortedWrites() {
		r.Obligations++
		bad := ""
		for l := range a.pts[w.ptr] {
			if l.o.kind == callerBytes {
				bad = l.o.name
			}
		}
		if bad != "" {
			r.Fail("document-write", p.InstrPos(w.in), p.Short(w.fn), "%s may write %s", w.what, "the bytes of the document ("+bad+")")
			continue
		}
		r.Discharged++
	}
	return r
}

var purePkgs = map[string]bool{
	"bytes": true, "errors": true, "strings": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"strconv": true, "math": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true,
	"encoding/binary": true, "encoding/hex": true, "html": true, "container/list": true, "container/heap": true,
	"hash/fnv": true, "hash/crc32": true, "iter": true, "reflect": true, "internal/bytealg": true,
	"sync": true, "sync/atomic": true,
}

var pureFmt = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"fmt.Append": true, "fmt.Appendf": true, "fmt.Appendln": true,
	"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true,
	"fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Sscanln": true,
	"io.EOF": true, "io.ErrUnexpectedEOF": true, "io.WriteString": true, "io.ReadFull": true, "io.ReadAll": true,
}

func pure(name string) bool {
	if pureFmt[name] {
		return true
	}
	n := strings.TrimPrefix(name, "(")
	n = strings.TrimPrefix(n, "*")
	if i := strings.Index(n, "["); i >= 0 {
		n = n[:i]
	}
	slash := strings.LastIndex(n, "/")
	dot := strings.Index(n[slash+1:], ".")
	if dot < 0 {
		return false
	}
	return purePkgs[n[:slash+1+dot]]
}

// ExternalEffects decides C19.
func ExternalEffects(p *core.Program) *core.Report {
	r := core.NewReport()
	a := NewPts(p)
	a.coverage(r)
	type ref struct {
		fn   *ssa.Function
		name string
		in   ssa.Instruction
	}
	var refs []ref
	for fn, m := range a.refs {
		for name, in := range m {
			refs = append(refs, ref{fn, name, in})
		}
	}
	sort.Slice(refs, func(i, j int) bool {
		if x, y := p.Short(refs[i].fn), p.Short(refs[j].fn); x != y {
			return x < y
		}
		return refs[i].name < refs[j].name
	})
	distinct := map[string]bool{}
	for _, f := range refs {
		r.Obligations++
		if strings.HasSuffix(f.name, ".init") && f.fn.Name() == "init" {
			r.Discharged++
			continue // the initialisers of imported packages run anyway
		}
		distinct[f.name] = true
		if !pure(f.name) {
			r.Fail("external-effect", p.InstrPos(f.in), p.Short(f.fn), "uses %s", f.name)
			continue
		}
		r.Discharged++
	}
	var names []string
	for n := range distinct {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Coverage["external_references"] = names
	if len(names) < 3 {
		r.Fail("coverage", "-", "-", "only %d references outside the repository were found", len(names))
	}
	for _, q := range p.Pkgs {
		for path := range q.Imports {
			r.Obligations++
			if path == "unsafe" || path == "C" || path == "plugin" {
				r.Fail("external-effect", "-", q.PkgPath, "imports %s", path)
				continue
			}
			r.Discharged++
		}
	}
	return r
}

// ErrorTypes lists the dynamic types of the errors each exported function can
// return.
func (a *Pts) ErrorTypes() map[*ssa.Function]map[string]bool {
	out := map[*ssa.Function]map[string]bool{}
	for _, fn := range a.p.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if !isErrorType(res.At(i).Type()) {
				continue
			}
			set := map[string]bool{}
			for l := range a.pts[a.node(retKey{run, fn}, "#"+string(rune('0'+i)))] {
				set[l.o.typ.String()] = true
			}
			out[fn] = set
		}
	}
	return out
}
