package absint

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A function with loops that writes nothing a caller can see, and whose
// results are numbers, strings, booleans and errors, is run once for the
// states it is called in as far as it can read them; the results are then
// described by their ranges. Unlike a memo (memo.go) the description is used
// at the call.

type sumOut struct {
	v    Val // over atoms of its own, within lo and hi
	objs []*Obj
	lo   map[Atom]int64
	hi   map[Atom]int64
}

type sumEntry struct {
	pre  *State
	log  *passLog
	outs []sumOut
}

// maxSums bounds the descriptions kept of one function.
const maxSums = 6

// summable tells whether fn is such a function, and what it reads.
func (an *Analysis) summable(fn *ssa.Function) *memoKind {
	if k, ok := an.sumKinds[fn]; ok {
		return k
	}
	k := &memoKind{ok: true, fields: map[string]bool{}, all: map[string]bool{}}
	an.sumKinds[fn] = k
	res := fn.Signature.Results()
	if res.Len() == 0 || len(fn.FreeVars) > 0 {
		k.ok = false
		return k
	}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			continue
		}
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			continue
		}
		k.ok = false
		return k
	}
	loop := false
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !k.ok {
			return
		}
		seen[f] = true
		if sub := an.substitute(f); sub != nil && an.cfg.Subst {
			f = sub
		}
		if f.Pkg != nil && f.Pkg.Pkg == an.harness {
			k.ok = false
			return
		}
		if !ownFn(an, f) {
			return
		}
		for _, c := range an.info(f).wto {
			loop = loop || c.loop
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !localAddr(x.Addr) {
						k.ok = false
					}
				case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select:
					k.ok = false
				case *ssa.MakeClosure:
					for _, u := range *x.Referrers() {
						c, ok := u.(*ssa.Call)
						if !ok || c.Call.Value != x {
							if _, dbg := u.(*ssa.DebugRef); !dbg {
								k.ok = false
							}
						}
					}
				case *ssa.FieldAddr:
					t := x.X.Type().Underlying().(*types.Pointer).Elem()
					k.fields[fieldKey(t, x.Field)] = true
				case *ssa.UnOp:
					if x.Op == token.MUL {
						k.all[x.Type().String()] = true
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok {
						if b.Name() != "len" && b.Name() != "cap" {
							k.ok = false
						}
						continue
					}
					if x.Call.IsInvoke() {
						for _, g := range an.implementations(x.Call.Value.Type(), x.Call.Method) {
							visit(g)
						}
						continue
					}
					callee := x.Call.StaticCallee()
					if callee == nil {
						k.ok = false
						return
					}
					visit(callee)
				}
			}
		}
	}
	visit(fn)
	k.ok = k.ok && loop
	return k
}

// implementations are the methods of the module a call of an interface method
// can reach.
func (an *Analysis) implementations(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, rt := range an.prog.SSA.RuntimeTypes() {
		if !types.Implements(rt, it) {
			continue
		}
		if g := an.prog.SSA.LookupMethod(rt, m.Pkg(), m.Name()); g != nil {
			r = append(r, g)
		}
	}
	return r
}

// sumCall passes over a call of a summable function whose frame has been
// pushed on st, or reports that it has to be followed.
func (an *Analysis) sumCall(st *State, fn *ssa.Function, k *memoKind) ([]*State, bool) {
	if len(st.frames) < 2 {
		return nil, false
	}
	top := st.top()
	call, ok := top.call.(*ssa.Call)
	if !ok {
		return nil, false
	}
	caller := st.frames[len(st.frames)-2]
	red := an.reduced(st, k)
	es := an.sums[fn]
	e := (*sumEntry)(nil)
	for _, x := range es {
		if ok, _ := an.included(red.clone(), x.pre); ok {
			e = x
			break
		}
	}
	if e == nil {
		if len(es) > 0 {
			last := es[len(es)-1]
			if m := an.mergeStates([]*State{last.pre.clone(), red.clone()}, len(es) > 2); len(m) == 1 {
				if x := an.sumRun(m[0], caller, call, fn); x != nil {
					e = x
					es[len(es)-1] = x
				}
			}
		}
		if e == nil {
			if len(es) >= maxSums {
				return nil, false
			}
			if e = an.sumRun(red, caller, call, fn); e == nil {
				if len(es) == 0 {
					k.ok = an.sumMiss[fn] < 4
					an.sumMiss[fn]++
				}
				return nil, false
			}
			an.sums[fn] = append(es, e)
		}
	}
	an.log.merge(e.log)
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	st.fOwn = false
	var out []*State
	for i, o := range e.outs {
		q := st
		if i < len(e.outs)-1 {
			q = st.clone()
		}
		an.apply(q, call, o)
		out = append(out, q)
	}
	return out, true
}

// apply puts one of the outcomes of a described call into st.
func (an *Analysis) apply(st *State, call *ssa.Call, o sumOut) {
	sub := map[Atom]Lin{}
	f := func(l Lin) Lin {
		for _, t := range l.T {
			if _, ok := sub[t.A]; ok {
				continue
			}
			z := an.newAtom(an.atoms[t.A].name, negInf, posInf)
			sub[t.A] = atomLin(z)
			st.bounds(atomLin(z), o.lo[t.A], o.hi[t.A])
		}
		r, _ := l.substMap(sub)
		return r
	}
	for _, p := range o.objs {
		c := *p
		c.val = st.reid(mapLins(p.val, f))
		if old := st.obj(p.id); old != nil {
			c.weak = true
			c.val = st.mix(old.val, c.val)
		}
		st.setObj(&c)
	}
	v := st.reid(mapLins(o.v, f))
	st.factsOf(v)
	st.set(call, v)
}

// sumRun runs fn from pre and describes what it returns; nil if something in
// it is not right or its results say more than their ranges do.
func (an *Analysis) sumRun(pre *State, caller *Frame, call *ssa.Call, fn *ssa.Function) *sumEntry {
	saved := an.log
	an.log = newLog()
	defer func() { an.log = saved }()
	st := pre.clone()
	dummy := &Frame{fi: caller.fi, regs: make([]Val, len(caller.regs)), ctx: caller.ctx}
	callee := *pre.frames[len(pre.frames)-1]
	callee.call = call
	st.frames = []*Frame{dummy, &callee}
	st.fOwn = false
	have := map[ObjID]bool{}
	for id, o := range st.heap {
		if o != nil {
			have[ObjID(id)] = true
		}
	}
	_, old := pre.mark()
	fi := an.info(fn)
	r := &run{an: an, fi: fi, in: map[*ssa.BasicBlock][]*State{}}
	r.push(fn.Blocks[0], st)
	r.comps(fi.wto)
	e := &sumEntry{pre: pre, log: an.log}
	for _, x := range e.log.obs {
		if !x.ok {
			return nil
		}
	}
	rets := an.mergeStates(r.rets, false)
	for _, s := range rets {
		if s.sys.bot {
			continue
		}
		i, ok := s.top().fi.idx[call]
		if !ok || s.top().regs[i] == nil {
			// nobody looks at the result
			e.outs = append(e.outs, sumOut{v: s.havoc(call.Type(), fn.Name())})
			continue
		}
		o := sumOut{lo: map[Atom]int64{}, hi: map[Atom]int64{}}
		lossy := false
		memo := map[string]Lin{}
		var f func(l Lin) Lin
		f = func(l Lin) Lin {
			l = s.sys.norm(l)
			if l.isConst() {
				return l
			}
			if z, ok := memo[l.key()]; ok {
				return z
			}
			for _, t := range l.T {
				lossy = lossy || old[t.A]
			}
			if hi, lo := splitPow(l, 32); len(hi.T) > 0 && len(lo.T)+len(hi.T) > 1 {
				if r, ok := lincomb(1<<32, f(hi), 1, f(lo)); ok {
					memo[l.key()] = r
					return r
				}
			}
			z := an.newAtom(an.atoms[l.T[0].A].name, negInf, posInf)
			o.lo[z], o.hi[z] = negInf, posInf
			if v, ok := s.sys.lower(l); ok && v != posInf {
				o.lo[z] = v
			}
			if v, ok := s.sys.upper(l); ok && v != negInf {
				o.hi[z] = v
			}
			memo[l.key()] = atomLin(z)
			return atomLin(z)
		}
		o.v = mapLins(s.top().regs[i], f)
		// the errors made on the way
		done := map[ObjID]bool{}
		var refs func(v Val)
		refs = func(v Val) {
			walk(v, func(Lin) {}, func(id ObjID) {
				if done[id] || have[id] {
					return
				}
				done[id] = true
				p := s.obj(id)
				if p == nil || p.arr != nil || p.val == nil {
					lossy = true
					return
				}
				c := *p
				c.val = mapLins(p.val, f)
				o.objs = append(o.objs, &c)
				refs(p.val)
			})
		}
		refs(s.top().regs[i])
		if lossy {
			return nil
		}
		e.outs = append(e.outs, o)
	}
	return e
}
