package absint

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A function that writes nothing a caller can see, and whose results are
// strings or booleans only, has no effect on its caller but those results.
// What it does is decided once per condition it is called under: from the
// part of the state it can read.

type memoKind struct {
	ok     bool
	fields map[string]bool
	all    map[string]bool // struct types read whole
}

type memoReq struct {
	fn  *ssa.Function
	pre *State
}

type memoEntry struct {
	pre *State
	log *passLog
}

// memoable tells whether fn is such a function, and what it reads.
func (an *Analysis) memoable(fn *ssa.Function) *memoKind {
	if k, ok := an.memoKinds[fn]; ok {
		return k
	}
	k := &memoKind{ok: true, fields: map[string]bool{}, all: map[string]bool{}}
	an.memoKinds[fn] = k
	res := fn.Signature.Results()
	if res.Len() != 1 || !isStrType(res.At(0).Type()) && !isBoolType(res.At(0).Type()) {
		k.ok = false
		return k
	}
	loop := false
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !k.ok {
			return
		}
		seen[f] = true
		if sub := an.substitute(f); sub != nil && an.cfg.Subst {
			f = sub
		}
		if !ownFn(an, f) {
			return
		}
		if f.Pkg != nil && f.Pkg.Pkg == an.harness || len(f.FreeVars) > 0 {
			k.ok = false
			return
		}
		for _, c := range an.info(f).wto {
			loop = loop || c.loop
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !localAddr(x.Addr) {
						k.ok = false
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.MakeClosure:
					k.ok = false
				case *ssa.FieldAddr:
					t := x.X.Type().Underlying().(*types.Pointer).Elem()
					k.fields[fieldKey(t, x.Field)] = true
				case *ssa.UnOp:
					if x.Op == token.MUL {
						k.all[x.Type().String()] = true
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok {
						if b.Name() != "len" && b.Name() != "cap" {
							k.ok = false
						}
						continue
					}
					callee := x.Call.StaticCallee()
					if callee == nil {
						k.ok = false
						return
					}
					visit(callee)
				}
			}
		}
	}
	visit(fn)
	k.ok = k.ok && loop
	return k
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

// reduced is what of st the function in its top frame can read.
func (an *Analysis) reduced(st *State, k *memoKind) *State {
	red := st.clone()
	red.frames = []*Frame{st.top()}
	red.visit = nil
	red.sticky = ""
	red.resolveDefs()
	red.heap = append([]*Obj(nil), st.heap...)
	red.hOwn = true
	for id, o := range red.heap {
		if o == nil {
			continue
		}
		s, ok := o.val.(StructV)
		if !ok || k.all[o.typ.String()] {
			continue
		}
		c := *o
		n := StructV{f: append([]Val(nil), s.f...)}
		for i := range n.f {
			if !k.fields[fieldKey(o.typ, i)] {
				n.f[i] = TopV{}
			}
		}
		c.val = n
		red.heap[id] = &c
	}
	red.gc()
	return red
}

// memoCall passes over a call of a memoable function whose frame has been
// pushed on st; what holds inside is decided in the end, for the states the
// accepted passes called it from.
func (an *Analysis) memoCall(st *State, fn *ssa.Function, k *memoKind) []*State {
	an.log.memos = append(an.log.memos, memoReq{fn, an.reduced(st, k)})
	f := st.top()
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	st.fOwn = false
	if cv, ok := f.call.(ssa.Value); ok {
		st.set(cv, st.havoc(fn.Signature.Results().At(0).Type(), fn.Name()))
	}
	return []*State{st}
}

// memoFinish decides the calls passed over.
func (an *Analysis) memoFinish() {
	for len(an.log.memos) > 0 {
		reqs := an.log.memos
		an.log.memos = nil
		byFn := map[*ssa.Function][]*State{}
		var fns []*ssa.Function
		for _, q := range reqs {
			if byFn[q.fn] == nil {
				fns = append(fns, q.fn)
			}
			byFn[q.fn] = append(byFn[q.fn], q.pre)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, fn := range fns {
			for _, red := range byFn[fn] {
				an.memoDecide(red, fn)
			}
		}
	}
}

func (an *Analysis) memoDecide(red *State, fn *ssa.Function) {
	es := an.memos[fn]
	for _, e := range es {
		if ok, _ := an.included(red, e.pre); ok {
			return
		}
	}
	e := an.memoRun(red, fn)
	if e.good() && len(es) > 0 {
		// the join with what was seen before, if the function is still right then
		last := es[len(es)-1]
		if m := an.mergeStates([]*State{last.pre.clone(), red.clone()}, false); len(m) == 1 {
			if j := an.memoRun(m[0], fn); j.good() {
				an.log.merge(j.log)
				es[len(es)-1] = j
				return
			}
		}
	}
	an.log.merge(e.log)
	if e.good() {
		an.memos[fn] = append(es, e)
	}
}

func (e *memoEntry) good() bool {
	for _, r := range e.log.obs {
		if !r.ok {
			return false
		}
	}
	return true
}

func (an *Analysis) memoRun(pre *State, fn *ssa.Function) *memoEntry {
	saved := an.log
	an.log = newLog()
	st := pre.clone()
	fi := an.info(fn)
	r := &run{an: an, fi: fi, in: map[*ssa.BasicBlock][]*State{}}
	r.push(fn.Blocks[0], st)
	r.comps(fi.wto)
	e := &memoEntry{pre: pre, log: an.log}
	an.log = saved
	return e
}
