package absint

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxLen = 1 << 47 // no slice or string has more elements (address space)

// ---- allocation ----

func (an *Analysis) objFor(in ssa.Instruction, ctx, sub string, t types.Type) ObjID {
	k := allocKey{in, ctx + "!" + sub}
	if id, ok := an.allocs[k]; ok {
		return id
	}
	name := sub
	if in != nil {
		name = short(in.Parent().String()) + ":" + an.prog.InstrPos(in) + sub
	}
	an.objs = append(an.objs, objInfo{name: name, typ: t})
	id := ObjID(len(an.objs) - 1)
	an.allocs[k] = id
	return id
}

func (an *Analysis) isErrType(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e) || types.Implements(types.NewPointer(t), e)
}

// fresh object for an allocation site; when an older object of the site is
// still reachable the object becomes a summary.
func (st *State) alloc(in ssa.Instruction, sub string, t types.Type, val Val, arr *Arr) ObjID {
	an := st.an
	ctx := ""
	if !an.isErrType(t) && len(st.frames) > 0 {
		ctx = st.top().ctx
	}
	id := an.objFor(in, ctx, sub, t)
	if old := st.obj(id); old != nil {
		// the register receiving the result is overwritten
		if v, ok := in.(ssa.Value); ok && len(st.frames) > 0 {
			f := st.wframe()
			if i, ok := f.fi.idx[v]; ok {
				f.regs[i] = nil
			}
		}
		live, _ := st.mark()
		if live[id] {
			o := &Obj{id: id, typ: t, weak: true}
			if val != nil {
				o.val = st.mix(old.val, val)
			}
			if arr != nil {
				c := *old
				ar := *old.arr
				c.arr = &ar
				ar.ents = nil
				ar.ver = an.newID()
				if arr.fixed != nil || ar.fixed != nil {
					// keep element-wise when the shapes agree
					if len(arr.fixed) == len(ar.fixed) {
						nf := make([]Val, len(ar.fixed))
						for i := range nf {
							nf[i] = st.mix(ar.fixed[i], arr.fixed[i])
						}
						ar.fixed = nf
					} else {
						for _, v := range ar.fixed {
							ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], v)
						}
						for _, v := range arr.fixed {
							ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], v)
						}
						ar.fixed = nil
					}
				}
				ar.n = st.mixLin(ar.n, arr.n)
				if arr.tmpl != nil {
					ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], arr.tmpl.val)
				}
				ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], arr.pend...)
				ar.zero = ar.zero || arr.zero
				o.arr = &ar
				o.weak = true
				st.setObj(o)
				if len(ar.pend) > 0 {
					st.setObj(st.folded(o))
				}
				return id
			}
			st.setObj(o)
			return id
		}
	}
	st.setObj(&Obj{id: id, typ: t, val: val, arr: arr})
	return id
}

// mixLin is a form covering both values.
func (st *State) mixLin(a, b Lin) Lin {
	a, b = st.sys.norm(a), st.sys.norm(b)
	if a.eq(b) {
		return a
	}
	z := st.an.newAtom("mix", negInf, posInf)
	if st.isCounter(a) && st.isCounter(b) {
		st.an.atoms[z].counter = true
	}
	bound := func(l Lin) (lo, hi int64) {
		lo, hi = negInf, posInf
		if v, ok := st.sys.lower(l); ok && v != posInf {
			lo = v
		}
		if v, ok := st.sys.upper(l); ok && v != negInf {
			hi = v
		}
		return
	}
	l1, h1 := bound(a)
	l2, h2 := bound(b)
	if l2 < l1 {
		l1 = l2
	}
	if h2 > h1 {
		h1 = h2
	}
	st.bounds(atomLin(z), l1, h1)
	// common symbolic bounds
	for _, c := range []Lin{a, b} {
		d, ok := b.sub(a)
		if !ok {
			break
		}
		if !c.isConst() {
			if st.sys.entailGE(d) { // a <= b
				if x, ok := atomLin(z).sub(a); ok {
					st.S().addGE(x)
				}
				if x, ok := b.sub(atomLin(z)); ok {
					st.S().addGE(x)
				}
			} else if n, ok := d.neg(); ok && st.sys.entailGE(n) {
				if x, ok := atomLin(z).sub(b); ok {
					st.S().addGE(x)
				}
				if x, ok := a.sub(atomLin(z)); ok {
					st.S().addGE(x)
				}
			}
			break
		}
	}
	return atomLin(z)
}

func (st *State) bounds(l Lin, lo, hi int64) {
	if lo != negInf {
		if x, ok := l.addC(-lo); ok {
			st.S().addGE(x)
		}
	}
	if hi != posInf {
		if x, ok := l.neg(); ok {
			if x, ok = x.addC(hi); ok {
				st.S().addGE(x)
			}
		}
	}
}

// mix covers both values within one state.
func (st *State) mix(x, y Val) Val {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			return IntV{st.mixLin(a.L, b.L)}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			if sameCond(a.C, b.C) {
				return a
			}
			return BoolV{st.an.freshBool("mix")}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			if a.c != nil && b.c != nil && *a.c == *b.c {
				return a
			}
			r := StrV{n: st.mixLin(a.n, b.n), ascii: a.ascii && b.ascii}
			if a.set != nil && b.set != nil {
				r.set = unionU32(a.set, b.set)
			}
			return r
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			r := PtrV{null: joinNull(a.null, b.null), id: st.an.newID()}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					m := &r.alts[i]
					if m.obj == l.obj && m.elem == l.elem && m.path == l.path {
						hit = true
						if m.elem {
							m.idx = st.mixLin(m.idx, l.idx)
						}
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			r := SliceV{null: joinNull(a.null, b.null), id: st.an.newID(), ver: a.ver}
			if a.ver != b.ver {
				r.ver = -1
			}
			r.alts = unionObjs(a.alts, b.alts)
			r.off, r.len, r.cap = st.mixLin(a.off, b.off), st.mixLin(a.len, b.len), st.mixLin(a.cap, b.cap)
			st.sliceFacts(r)
			return r
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			r := IfaceV{null: joinNull(a.null, b.null), id: st.an.newID()}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					if types.Identical(r.alts[i].t, l.t) {
						r.alts[i].v = st.mix(r.alts[i].v, l.v)
						hit = true
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case FuncV:
		if b, ok := y.(FuncV); ok {
			r := FuncV{null: joinNull(a.null, b.null), id: st.an.newID()}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					if r.alts[i].fn == l.fn && len(r.alts[i].bind) == len(l.bind) {
						nb := make([]Val, len(l.bind))
						for k := range nb {
							nb[k] = st.mix(r.alts[i].bind[k], l.bind[k])
						}
						r.alts[i].bind = nb
						hit = true
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case StructV:
		if b, ok := y.(StructV); ok && len(a.f) == len(b.f) {
			return StructV{st.mixVals(a.f, b.f)}
		}
	case ArrayV:
		if b, ok := y.(ArrayV); ok && len(a.f) == len(b.f) {
			return ArrayV{st.mixVals(a.f, b.f)}
		}
	case TupV:
		if b, ok := y.(TupV); ok && len(a) == len(b) {
			return TupV(st.mixVals(a, b))
		}
	}
	return TopV{}
}

func (st *State) mixVals(a, b []Val) []Val {
	r := make([]Val, len(a))
	for i := range a {
		r[i] = st.mix(a[i], b[i])
	}
	return r
}

// sliceFacts states what holds of every slice.
func (st *State) sliceFacts(v SliceV) {
	s := st.S()
	s.addGE(v.len)
	s.addGE(v.off)
	if d, ok := v.cap.sub(v.len); ok {
		s.addGE(d)
	}
	st.bounds(v.cap, negInf, maxLen)
}

// freshen renames the contents of a summarised cell: a read sees some
// instance.
func (st *State) freshen(v Val) Val {
	memo := map[string]Lin{}
	f := func(l Lin) Lin {
		l = st.sys.norm(l)
		if l.isConst() {
			return l
		}
		if z, ok := memo[l.key()]; ok {
			return z
		}
		z := st.an.newAtom("some", negInf, posInf)
		lo, hi := int64(negInf), int64(posInf)
		if v, ok := st.sys.lower(l); ok && v != posInf {
			lo = v
		}
		if v, ok := st.sys.upper(l); ok && v != negInf {
			hi = v
		}
		if st.isCounter(l) {
			st.an.atoms[z].counter = true
		}
		st.bounds(atomLin(z), lo, hi)
		memo[l.key()] = atomLin(z)
		return atomLin(z)
	}
	r := st.reid(mapLins(v, f))
	st.factsOf(r)
	return r
}

// factsOf restates slice and string facts inside v.
func (st *State) factsOf(v Val) {
	switch x := v.(type) {
	case SliceV:
		if !x.len.isConst() || !x.cap.isConst() {
			st.sliceFacts(x)
		}
	case StrV:
		if !x.n.isConst() {
			st.bounds(x.n, 0, maxLen)
		}
	case StructV:
		for _, f := range x.f {
			st.factsOf(f)
		}
	case ArrayV:
		for _, f := range x.f {
			st.factsOf(f)
		}
	case TupV:
		for _, f := range x {
			st.factsOf(f)
		}
	case IfaceV:
		for _, a := range x.alts {
			st.factsOf(a.v)
		}
	}
}

// reid gives fresh identities to the references inside v.
func (st *State) reid(v Val) Val {
	switch x := v.(type) {
	case PtrV:
		x.id = st.an.newID()
		return x
	case SliceV:
		x.id = st.an.newID()
		return x
	case IfaceV:
		x.id = st.an.newID()
		n := append([]IAlt(nil), x.alts...)
		for i := range n {
			n[i].v = st.reid(n[i].v)
		}
		x.alts = n
		return x
	case FuncV:
		x.id = st.an.newID()
		return x
	case StructV:
		n := make([]Val, len(x.f))
		for i := range n {
			n[i] = st.reid(x.f[i])
		}
		return StructV{n}
	case ArrayV:
		n := make([]Val, len(x.f))
		for i := range n {
			n[i] = st.reid(x.f[i])
		}
		return ArrayV{n}
	}
	return v
}

// ---- unknown values ----

// havoc is an arbitrary value of type t. References inside it are nil or
// unknown; unknown memory is not followed.
func (st *State) havoc(t types.Type, name string) Val {
	an := st.an
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{an.atomOf(name, t)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{an.freshBool(name)}
		case u.Info()&types.IsString != 0:
			return st.freshStr(name)
		}
	case *types.Struct:
		s := StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = st.havoc(u.Field(i).Type(), name)
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			s := ArrayV{f: make([]Val, u.Len())}
			for i := range s.f {
				s.f[i] = st.havoc(u.Elem(), name)
			}
			return s
		}
	case *types.Tuple:
		s := make(TupV, u.Len())
		for i := range s {
			s[i] = st.havoc(u.At(i).Type(), name)
		}
		return s
	}
	return TopV{}
}

func (st *State) freshStr(name string) StrV {
	a := st.an.newAtom(name+".len", 0, maxLen)
	return StrV{n: atomLin(a)}
}

// ---- paths ----

func pathGet(v Val, path string) (Val, bool) {
	for i := 0; i < len(path); i++ {
		k := int(path[i])
		switch x := v.(type) {
		case StructV:
			if k >= len(x.f) {
				return nil, false
			}
			v = x.f[k]
		case ArrayV:
			if k >= len(x.f) {
				return nil, false
			}
			v = x.f[k]
		default:
			return nil, false
		}
	}
	return v, true
}

func pathSet(v Val, path string, n Val) (Val, bool) {
	if path == "" {
		return n, true
	}
	k := int(path[0])
	switch x := v.(type) {
	case StructV:
		if k >= len(x.f) {
			return nil, false
		}
		e, ok := pathSet(x.f[k], path[1:], n)
		if !ok {
			return nil, false
		}
		f := append([]Val(nil), x.f...)
		f[k] = e
		return StructV{f}, true
	case ArrayV:
		if k >= len(x.f) {
			return nil, false
		}
		e, ok := pathSet(x.f[k], path[1:], n)
		if !ok {
			return nil, false
		}
		f := append([]Val(nil), x.f...)
		f[k] = e
		return ArrayV{f}, true
	}
	return nil, false
}

// ---- loads and stores ----

// load reads the cell l; the address is known to be valid.
func (st *State) load(l Loc, t types.Type, in ssa.Instruction) Val {
	o := st.obj(l.obj)
	if o == nil {
		st.an.undecided(in, "read of an unknown object")
		return st.havocRef(t)
	}
	var v Val
	if l.elem {
		v = st.loadElem(o, l.idx, in)
		if v == nil {
			return nil
		}
	} else {
		v = o.val
		if o.arr != nil { // a whole array
			if o.arr.fixed != nil {
				v = ArrayV{append([]Val(nil), o.arr.fixed...)}
			} else {
				return TopV{}
			}
		}
	}
	v, ok := pathGet(v, l.path)
	if !ok || v == nil {
		return st.havocRef(t)
	}
	if o.weak && !l.elem {
		v = st.freshen(v)
	}
	if _, top := v.(TopV); top {
		return st.havocRef(t)
	}
	return v
}

// havocRef is havoc for scalars and an untracked value for references.
func (st *State) havocRef(t types.Type) Val { return st.havoc(t, "unknown") }

func (st *State) loadElem(o *Obj, idx Lin, in ssa.Instruction) Val {
	a := o.arr
	if a == nil {
		return TopV{}
	}
	idx = st.sys.norm(idx)
	if a.fixed != nil {
		if idx.isConst() && idx.C >= 0 && idx.C < int64(len(a.fixed)) {
			v := a.fixed[idx.C]
			if o.weak {
				v = st.freshen(v)
			}
			return v
		}
		var v Val
		for _, e := range a.fixed {
			v = st.mix(v, e)
		}
		if v == nil {
			st.S().bot = true
			return nil
		}
		if o.weak {
			v = st.freshen(v)
		}
		return st.reid(v)
	}
	if !o.weak {
		for _, e := range a.ents {
			if st.sys.norm(e.idx).eq(idx) {
				return e.v
			}
		}
	}
	if a.doc && a.tmpl == nil {
		v := IntV{atomLin(st.an.newAtom("byte", 0, 255))}
		if !isByte(a.elem) {
			v = IntV{st.an.atomOf("elem", a.elem)}
		}
		if !st.an.cfg.Subst || st.head(a, idx) {
			st.cacheEnt(o, idx, v)
		}
		return v
	}
	if len(a.pend) > 0 {
		o = st.folded(o)
		st.setObj(o)
		a = o.arr
	}
	if a.tmpl == nil && a.zero {
		return IntV{konst(0)}
	}
	if a.tmpl == nil {
		// no element has ever been stored: the read cannot happen
		st.S().bot = true
		return nil
	}
	v := st.instantiate(a.tmpl)
	if a.zero {
		if st.an.cfg.Debug == "state" && in != nil {
			trace("MIXZERO %s weak %v", st.an.prog.InstrPos(in), o.weak)
		}
		v = st.mix(v, IntV{konst(0)})
	}
	if !o.weak {
		st.cacheEnt(o, idx, v)
	}
	return v
}

// splitZero tells the case that an element is as it was made from the case that
// it has been stored.
func (st *State) splitZero(id ObjID, idx Lin) []*State {
	one := []*State{st}
	o := st.obj(id)
	if o == nil || o.arr == nil || !o.arr.zero || o.weak {
		return one
	}
	idx = st.sys.norm(idx)
	for _, e := range o.arr.ents {
		if st.sys.norm(e.idx).eq(idx) {
			return one
		}
	}
	if len(o.arr.pend) > 0 {
		o = st.folded(o)
		st.setObj(o)
	}
	if o.arr.tmpl == nil {
		return one
	}
	if st.an.cfg.Debug == "split" {
		trace("SPLIT %s", st.top().fi.fn)
	}
	z := st.clone()
	z.cacheEnt(o, idx, IntV{konst(0)})
	v := st.instantiate(o.arr.tmpl)
	st.cacheEnt(o, idx, v)
	if st.sys.bot {
		return []*State{z}
	}
	return []*State{z, st}
}

// readsInts tells whether the function reads elements that splitZero splits.
func (fi *fnInfo) readsInts() bool {
	if fi.ints == 0 {
		fi.ints = 1
		for _, b := range fi.fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.IndexAddr); ok && onlyRead(x) {
					t := x.Type().Underlying().(*types.Pointer).Elem()
					if isIntType(t) && !isByte(t) {
						fi.ints = 2
					}
				}
			}
		}
	}
	return fi.ints == 2
}

// forgetZeros ends the cases splitZero has made.
func (st *State) forgetZeros() {
	for _, o := range st.heap {
		if o == nil || o.arr == nil || !o.arr.zero {
			continue
		}
		var keep []Ent
		for _, e := range o.arr.ents {
			if !isZero(st, e.v) {
				keep = append(keep, e)
			}
		}
		if len(keep) < len(o.arr.ents) {
			c := *o
			ar := *o.arr
			ar.ents = keep
			c.arr = &ar
			st.setObj(&c)
		}
	}
}

// head says whether idx is one of the first bytes of the window of the
// document, which decide how the rest is read.
func (st *State) head(a *Arr, idx Lin) bool {
	d, ok := idx.sub(st.sys.norm(a.lo))
	return ok && d.isConst() && d.C >= 0 && d.C < 4
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (st *State) cacheEnt(o *Obj, idx Lin, v Val) {
	c := *o
	ar := *o.arr
	n := len(ar.ents)
	if n >= 12 {
		ar.ents = ar.ents[n-11:]
	}
	ar.ents = append(ar.ents[:len(ar.ents):len(ar.ents)], Ent{idx, v})
	c.arr = &ar
	st.setObj(&c)
}

// instantiate gives one element described by t.
func (st *State) instantiate(t *Tmpl) Val {
	ren := map[Atom]Lin{}
	for _, a := range t.atoms {
		inf := st.an.atoms[a]
		n := st.an.newAtom(inf.name, inf.lo, inf.hi)
		st.an.atoms[n].counter = inf.counter
		ren[a] = atomLin(n)
	}
	addRows(st.S(), renameRows(t.cons, ren))
	v := mapLins(t.val, func(l Lin) Lin {
		r, ok := l.substMap(ren)
		if !ok {
			return atomLin(st.an.newAtom("el", negInf, posInf))
		}
		return r
	})
	v = st.reid(v)
	st.factsOf(v)
	return v
}

// store writes v to the cell l.
func (st *State) store(l Loc, v Val, in ssa.Instruction, weak bool) {
	o := st.obj(l.obj)
	if o == nil {
		st.an.undecided(in, "write to an unknown object")
		return
	}
	weak = weak || o.weak
	if !l.elem {
		c := *o
		if o.arr != nil {
			av, ok := v.(ArrayV)
			ar := *o.arr
			if ok && ar.fixed != nil && len(av.f) == len(ar.fixed) && l.path == "" {
				if weak {
					ar.fixed = st.mixVals(ar.fixed, av.f)
				} else {
					ar.fixed = append([]Val(nil), av.f...)
				}
				c.arr = &ar
				st.setObj(&c)
				return
			}
			st.an.undecided(in, "whole-array write")
			return
		}
		if weak {
			old, ok := pathGet(o.val, l.path)
			if ok && old != nil {
				v = st.mix(old, v)
			}
		}
		n, ok := pathSet(o.val, l.path, v)
		if !ok {
			st.an.undecided(in, "write through an unknown path")
			return
		}
		c.val = n
		st.setObj(&c)
		return
	}
	a := o.arr
	if a == nil {
		st.an.undecided(in, "element write to a non-array")
		return
	}
	idx := st.sys.norm(l.idx)
	if l.path != "" {
		old := st.loadElem(o, idx, in)
		if old == nil {
			return
		}
		o = st.obj(l.obj)
		a = o.arr
		if weak {
			if p, ok := pathGet(old, l.path); ok && p != nil {
				v = st.mix(p, v)
			}
		}
		n, ok := pathSet(old, l.path, v)
		if !ok {
			st.an.undecided(in, "write through an unknown path")
			return
		}
		v = n
	}
	c := *o
	ar := *a
	c.arr = &ar
	if !a.dirty {
		same := false
		for _, e := range a.ents {
			if !o.weak && l.path == "" && st.sys.norm(e.idx).eq(idx) {
				x, ok1 := e.v.(IntV)
				y, ok2 := v.(IntV)
				if ok1 && ok2 {
					if d, ok := x.L.sub(y.L); ok && st.sys.entailEQ(d) {
						same = true
					}
				}
			}
		}
		ar.dirty = !same
	}
	if a.fixed != nil {
		f := append([]Val(nil), a.fixed...)
		if idx.isConst() && idx.C >= 0 && idx.C < int64(len(f)) {
			if weak {
				f[idx.C] = st.mix(f[idx.C], v)
			} else {
				f[idx.C] = v
			}
		} else {
			for i := range f {
				f[i] = st.mix(f[i], v)
			}
		}
		ar.fixed = f
		st.setObj(&c)
		return
	}
	var keep []Ent
	for _, e := range a.ents {
		d, ok := st.sys.norm(e.idx).sub(idx)
		if ok && st.sys.entailNE(d) {
			keep = append(keep, e)
		}
	}
	ar.ents = keep
	ar.pend = append(a.pend[:len(a.pend):len(a.pend)], v)
	if !weak {
		ar.ents = append(ar.ents[:len(ar.ents):len(ar.ents)], Ent{idx, v})
	}
	st.setObj(&c)
	if len(ar.pend) > 4 {
		st.setObj(st.folded(&c))
	}
}

// ---- refinement ----

// mapRefs rewrites every value of the state.
func (st *State) mapRefs(f func(Val) (Val, bool)) {
	var rec func(v Val) (Val, bool)
	rec = func(v Val) (Val, bool) {
		if n, ok := f(v); ok {
			return n, true
		}
		switch x := v.(type) {
		case StructV:
			if n, ok := recVals(x.f, rec); ok {
				return StructV{n}, true
			}
		case ArrayV:
			if n, ok := recVals(x.f, rec); ok {
				return ArrayV{n}, true
			}
		case TupV:
			if n, ok := recVals(x, rec); ok {
				return TupV(n), true
			}
		case IfaceV:
			for i := range x.alts {
				if n, ok := rec(x.alts[i].v); ok {
					al := append([]IAlt(nil), x.alts...)
					al[i].v = n
					x.alts = al
					return x, true
				}
			}
		case BoolV:
			if x.C.op == cNil || x.C.op == cNonNil {
				if n, ok := rec(x.C.v); ok {
					return BoolV{&Cond{op: x.C.op, v: n}}, true
				}
			}
		}
		return v, false
	}
	for i, fr := range st.frames {
		if n, ok := recVals(fr.regs, rec); ok {
			c := *fr
			c.regs = n
			st.frames[i] = &c
			if i == len(st.frames)-1 {
				st.fOwn = true
			}
		}
	}
	for _, o := range st.heap {
		if o == nil || o.weak {
			continue
		}
		if o.val != nil {
			if n, ok := rec(o.val); ok {
				c := *o
				c.val = n
				st.setObj(&c)
				continue
			}
		}
		if o.arr != nil {
			ch := false
			ar := *o.arr
			if n, ok := recVals(ar.fixed, rec); ok {
				ar.fixed = n
				ch = true
			}
			for k := range ar.ents {
				if n, ok := rec(ar.ents[k].v); ok {
					if !ch || true {
						ar.ents = append([]Ent(nil), ar.ents...)
					}
					ar.ents[k].v = n
					ch = true
				}
			}
			if ch {
				c := *o
				c.arr = &ar
				st.setObj(&c)
			}
		}
	}
}

func recVals(vs []Val, rec func(Val) (Val, bool)) ([]Val, bool) {
	var out []Val
	for i, v := range vs {
		if v == nil {
			continue
		}
		if n, ok := rec(v); ok {
			if out == nil {
				out = append([]Val(nil), vs...)
			}
			out[i] = n
		}
	}
	return out, out != nil
}

func nullOf(v Val) (tri, int, bool) {
	switch x := v.(type) {
	case PtrV:
		return x.null, x.id, true
	case SliceV:
		return x.null, x.id, true
	case IfaceV:
		return x.null, x.id, true
	case FuncV:
		return x.null, x.id, true
	}
	return maybeNil, 0, false
}

func setNull(v Val, nl bool) Val {
	n := nonNil
	if nl {
		n = isNil
	}
	switch x := v.(type) {
	case PtrV:
		x.null = n
		if nl {
			x.alts = nil
		}
		return x
	case SliceV:
		x.null = n
		if nl {
			x.alts = nil
			x.off, x.len, x.cap = konst(0), konst(0), konst(0)
		}
		return x
	case IfaceV:
		x.null = n
		if nl {
			x.alts = nil
		}
		return x
	case FuncV:
		x.null = n
		if nl {
			x.alts = nil
		}
		return x
	}
	return v
}

// refineNil restricts the state to v being nil (or not) and reports whether
// anything remains.
func (st *State) refineNil(v Val, nl bool) bool {
	n, id, ok := nullOf(v)
	if !ok {
		return true
	}
	if n == isNil {
		return nl
	}
	if n == nonNil {
		return !nl
	}
	if s, ok := v.(SliceV); ok && nl {
		st.S().addEQ(s.len)
		if st.sys.bot {
			return false
		}
	}
	if id == 0 {
		return true
	}
	st.mapRefs(func(x Val) (Val, bool) {
		m, i, ok := nullOf(x)
		if !ok || i != id || m != maybeNil {
			return x, false
		}
		return setNull(x, nl), true
	})
	return true
}

// replaceID substitutes a refined value for every copy of it.
func (st *State) replaceID(id int, n Val) {
	if id == 0 {
		return
	}
	st.mapRefs(func(x Val) (Val, bool) {
		_, i, ok := nullOf(x)
		if !ok || i != id {
			return x, false
		}
		if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", n) {
			return x, false
		}
		return n, true
	})
}

// assume restricts the state to c being true (or false). It may split.
func (st *State) assume(c *Cond, truth bool) []*State {
	switch c.op {
	case cTrue, cFalse:
		if (c.op == cTrue) == truth {
			return []*State{st}
		}
		return nil
	case cGE:
		l := c.l
		if !truth {
			n, ok := l.neg()
			if ok {
				n, ok = n.addC(-1)
			}
			if !ok {
				return []*State{st}
			}
			l = n
		}
		return st.withGE(l)
	case cEQ, cNE:
		if (c.op == cEQ) == truth {
			l := st.sys.norm(c.l)
			st.S().addEQ(l)
			return st.settled(l)
		}
		l := st.sys.norm(c.l)
		st.S().addNE(l)
		return st.settled(l)
	case cAnd, cOr:
		if (c.op == cAnd) == truth {
			var out []*State
			for _, s := range st.assume(c.a, truth) {
				out = append(out, s.assume(c.b, truth)...)
			}
			return out
		}
		o := st.clone()
		out := st.assume(c.a, truth)
		for _, s := range o.assume(c.a, !truth) {
			out = append(out, s.assume(c.b, truth)...)
		}
		return out
	case cNil, cNonNil:
		if st.refineNil(c.v, (c.op == cNil) == truth) {
			return []*State{st}
		}
		return nil
	}
	return []*State{st}
}

func (st *State) withGE(l Lin) []*State {
	l = st.sys.norm(l)
	if l.isConst() {
		if l.C >= 0 {
			return []*State{st}
		}
		return nil
	}
	if n, ok := l.neg(); ok {
		if n, ok = n.addC(-1); ok && st.sys.entailGE(n) {
			return nil
		}
	}
	st.S().addGE(l)
	return st.settled(l)
}

func (st *State) settled(l Lin) []*State {
	if st.sys.bot || !st.sys.feasible(l) {
		return nil
	}
	if len(st.defs) > 0 {
		st.resolveDefs()
		if st.sys.bot {
			return nil
		}
	}
	return []*State{st}
}

// decide evaluates a condition: 1 true, 0 false, -1 unknown.
func (st *State) decide(c *Cond) int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	switch c.op {
	case cTrue:
		return 1
	case cFalse:
		return 0
	case cGE:
		if st.sys.entailGE(c.l) {
			return 1
		}
		if n, ok := c.l.neg(); ok {
			if n, ok = n.addC(-1); ok && st.sys.entailGE(n) {
				return 0
			}
		}
	case cEQ, cNE:
		if st.sys.entailEQ(c.l) {
			return b(c.op == cEQ)
		}
		if st.sys.entailNE(c.l) {
			return b(c.op == cNE)
		}
	case cNil, cNonNil:
		n, _, ok := nullOf(c.v)
		if ok && n != maybeNil {
			return b((n == isNil) == (c.op == cNil))
		}
	case cAnd:
		x, y := st.decide(c.a), st.decide(c.b)
		if x == 0 || y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
	case cOr:
		x, y := st.decide(c.a), st.decide(c.b)
		if x == 1 || y == 1 {
			return 1
		}
		if x == 0 && y == 0 {
			return 0
		}
	}
	return -1
}
