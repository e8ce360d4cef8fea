package absint

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joiner merges two states of the same program point.
type joiner struct {
	an    *Analysis
	a, b  *State
	pairs []jpair
	eqs   []jsame  // equalities between joined quantities
	inv   []Lin    // what is likely to hold of a joined quantity: len <= cap
	wins  []window // the windows of the documents
	guess map[int][3]int
	idx   map[string]int
	// values with a free truth value on one side
	freeA, freeB []Atom
	noPair       bool
	inRegs       bool
	vers         map[ObjID]int
}

type jpair struct {
	z      Atom
	l1, l2 Lin
}

// jsame: the joined quantity z equals d (or d is zero, once built).
type jsame struct {
	z Atom
	d Lin
}

func (j *joiner) lin(l1, l2 Lin) Lin {
	l1, l2 = j.a.sys.norm(l1), j.b.sys.norm(l2)
	if l1.eq(l2) {
		return l1
	}
	big := func(l Lin) bool {
		if abs64(l.C) >= 1<<32 && l.C != negInf {
			return true
		}
		for _, t := range l.T {
			if t.K%(1<<32) == 0 || t.K > 1<<31 || t.K < -1<<31 {
				return true
			}
		}
		return false
	}
	if big(l1) || big(l2) {
		h1, o1 := splitPow(l1, 32)
		h2, o2 := splitPow(l2, 32)
		if len(h1.T)+len(h2.T) > 0 {
			h := j.lin(h1, h2)
			o := j.lin(o1, o2)
			if r, ok := lincomb(1<<32, h, 1, o); ok {
				// the halves are often a length and an offset
				for _, win := range j.wins {
					if d, ok := o.sub(win.lo); ok && (j.an.cfg.Window || j.an.cfg.Pack) {
						j.inv = append(j.inv, d)
					}
					w := win.hi
					for _, m := range []Lin{o, h} {
						w1, ok := w.sub(m)
						if !ok {
							break
						}
						j.inv = append(j.inv, w1)
						w = w1
					}
				}
				return r
			}
		}
	}
	mid := func(l Lin) bool {
		for _, t := range l.T {
			if t.K%(1<<16) == 0 {
				return true
			}
		}
		return false
	}
	if mid(l1) && mid(l2) {
		h1, o1 := splitPow(l1, 16)
		h2, o2 := splitPow(l2, 16)
		h := j.lin(h1, h2)
		o := j.lin(o1, o2)
		if r, ok := lincomb(1<<16, h, 1, o); ok {
			return r
		}
	}
	key := l1.key() + "~" + l2.key()
	if i, ok := j.idx[key]; ok {
		return atomLin(j.pairs[i].z)
	}
	var same []jsame
	for i := range j.pairs {
		p := &j.pairs[i]
		d1, ok1 := l1.sub(p.l1)
		d2, ok2 := l2.sub(p.l2)
		if ok1 && ok2 && d1.eq(d2) {
			if len(d1.T) > 0 && l1.isConst() && l2.isConst() {
				// keep the plain quantity plain: the earlier one is rewritten
				// in terms of it
				same = append(same, jsame{p.z, d1})
				continue
			}
			if r, ok := atomLin(p.z).add(d1); ok {
				return r
			}
		}
		// one goes up as the other goes down
		if mv, ok := l2.sub(l1); !j.inRegs || !ok || !mv.isConst() {
			continue
		}
		s1, ok1 := l1.add(p.l1)
		s2, ok2 := l2.add(p.l2)
		if ok1 && ok2 && !s1.isConst() && s1.eq(s2) {
			if r, ok := s1.sub(atomLin(p.z)); ok {
				return r
			}
		}
	}
	name := "z"
	if len(l1.T) == 1 {
		name = j.an.atoms[l1.T[0].A].name
	} else if len(l2.T) == 1 {
		name = j.an.atoms[l2.T[0].A].name
	}
	z := j.an.newAtom(name, negInf, posInf)
	if j.a.isCounter(l1) && j.b.isCounter(l2) {
		j.an.atoms[z].counter = true
	}
	j.idx[key] = len(j.pairs)
	j.pairs = append(j.pairs, jpair{z, l1, l2})
	for _, q := range same {
		// z = q.z + q.d on both sides
		if r, ok := atomLin(q.z).add(q.d); ok {
			if r, ok = r.sub(atomLin(z)); ok {
				j.eqs = append(j.eqs, jsame{q.z, r})
			}
		}
	}
	return atomLin(z)
}

// counts guesses how the numbers in a joined struct are bounded: by the length
// of a list beside them, or by the window of the document. A guess that has
// failed too often is not made again.
func (j *joiner) counts(v StructV) {
	guess := func(i, k int, d Lin, ok bool) {
		key := [3]int{len(v.f), i, k}
		if !ok || len(d.T) < 2 || j.an.badInv[key] > 8+j.an.goodInv[key]/4 {
			return
		}
		if j.guess == nil {
			j.guess = map[int][3]int{}
		}
		j.guess[len(j.inv)] = key
		j.inv = append(j.inv, d)
	}
	for k, g := range v.f {
		n, ok := g.(IntV)
		if !ok || n.L.isConst() {
			continue
		}
		for _, w := range j.wins {
			d, ok := w.hi.sub(n.L)
			guess(-1, k, d, ok)
			if j.an.cfg.Window || j.an.cfg.Pack {
				d, ok = n.L.sub(w.lo)
				guess(-2, k, d, ok)
			}
		}
		for i, f := range v.f {
			if sl, ok := f.(SliceV); ok && !sl.len.isConst() {
				d, ok := sl.len.sub(n.L)
				guess(i, k, d, ok)
			}
		}
	}
}

// progress guesses that a field has grown, or shrunk, since a loop's head.
func (j *joiner) progress(r *State) {
	for vi, m := range r.visit {
		for k, at := range m.at {
			if at[0] < 0 || m.tags[k+1] != "" || r.heap[at[0]] == nil {
				continue
			}
			s, ok := r.heap[at[0]].val.(StructV)
			if !ok || at[1] >= len(s.f) {
				continue
			}
			n, ok := s.f[at[1]].(IntV)
			if !ok || (j.a.heap[at[0]] == j.b.heap[at[0]] && m.vals[k].eq(j.a.visit[vi].vals[k])) {
				continue
			}
			d, ok := n.L.sub(m.vals[k])
			if !ok || len(d.T) < 2 {
				continue
			}
			e, _ := d.neg()
			for i, g := range []Lin{d, e} {
				key := [3]int{-1 - vi, at[1], i}
				if j.an.badInv[key] > 8+j.an.goodInv[key]/4 {
					continue
				}
				if j.guess == nil {
					j.guess = map[int][3]int{}
				}
				j.guess[len(j.inv)] = key
				j.inv = append(j.inv, g)
			}
		}
	}
}

type window struct{ lo, hi Lin }

// windows lists the windows of the documents of a state.
func windows(st *State) []window {
	var r []window
	for _, o := range st.heap {
		if o != nil && o.arr != nil && o.arr.doc && o.arr.track {
			r = append(r, window{o.arr.lo, o.arr.hi})
		}
	}
	return r
}

func sameCond(a, b *Cond) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return false
	}
	switch a.op {
	case cTrue, cFalse:
		return true
	case cGE, cEQ, cNE:
		return a.l.eq(b.l)
	case cAnd, cOr:
		return sameCond(a.a, b.a) && sameCond(a.b, b.b)
	}
	return false
}

// boolLin gives the 0/1 form of a condition, when it has one.
func boolLin(c *Cond) (Lin, bool) {
	switch c.op {
	case cTrue:
		return konst(1), true
	case cFalse:
		return konst(0), true
	case cGE:
		if len(c.l.T) == 1 && c.l.T[0].K == 1 && c.l.C == -1 {
			return Lin{0, c.l.T}, true
		}
		if len(c.l.T) == 1 && c.l.T[0].K == -1 && c.l.C == 0 { // -b >= 0: not b
			return Lin{1, c.l.T}, true
		}
	}
	return Lin{}, false
}

func (j *joiner) boolean(c1, c2 *Cond) Val {
	if sameCond(c1, c2) {
		return BoolV{c1}
	}
	isBool := func(s *State, l Lin) bool { return s.within(l, 0, 1) }
	b1, ok1 := boolLin(c1)
	b2, ok2 := boolLin(c2)
	ok1 = ok1 && isBool(j.a, b1)
	ok2 = ok2 && isBool(j.b, b2)
	if !ok1 && !ok2 {
		return BoolV{j.an.freshBool("bool")}
	}
	if !ok1 {
		f := j.an.newAtom("bool", 0, 1)
		b1 = atomLin(f)
	}
	if !ok2 {
		f := j.an.newAtom("bool", 0, 1)
		b2 = atomLin(f)
	}
	z := j.lin(b1, b2)
	if z.isConst() {
		if z.C == 1 {
			return BoolV{condTrue}
		}
		return BoolV{condFalse}
	}
	l, _ := z.addC(-1)
	return BoolV{&Cond{op: cGE, l: l}}
}

func (an *Analysis) freshBool(name string) *Cond {
	return &Cond{op: cGE, l: Lin{-1, []Term{{an.newAtom(name, 0, 1), 1}}}}
}

func joinNull(a, b tri) tri {
	if a == b {
		return a
	}
	return maybeNil
}

func (j *joiner) id(a, b int) int {
	if a == b {
		return a
	}
	return j.an.newID()
}

func (an *Analysis) newID() int { an.ids++; return an.ids }

func (j *joiner) val(x, y Val) Val {
	if x == nil || y == nil {
		return nil
	}
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			return IntV{j.lin(a.L, b.L)}
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			return j.boolean(a.C, b.C)
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			r := PtrV{null: joinNull(a.null, b.null), id: j.id(a.id, b.id)}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					m := &r.alts[i]
					if m.obj == l.obj && m.elem == l.elem && m.path == l.path {
						hit = true
						if m.elem {
							m.idx = j.lin(m.idx, l.idx)
						}
						break
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			r := SliceV{null: joinNull(a.null, b.null), id: j.id(a.id, b.id), ver: a.ver}
			if len(a.alts) == 1 && len(b.alts) == 1 && a.alts[0] == b.alts[0] && j.a.current(a) && j.b.current(b) {
				r.ver = j.verOf(a.alts[0])
			} else if a.ver != b.ver || j.a.current(a) != j.b.current(b) {
				r.ver = -1
			}
			r.alts = unionObjs(a.alts, b.alts)
			r.off, r.len, r.cap = j.lin(a.off, b.off), j.lin(a.len, b.len), j.lin(a.cap, b.cap)
			if d, ok := r.cap.sub(r.len); ok && !d.isConst() {
				j.inv = append(j.inv, d)
			}
			return r
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			r := StrV{n: j.lin(a.n, b.n), ascii: a.ascii && b.ascii}
			if a.c != nil && b.c != nil && *a.c == *b.c {
				r.c = a.c
			}
			if a.set != nil && b.set != nil {
				r.set = unionU32(a.set, b.set)
			}
			return r
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			r := IfaceV{null: joinNull(a.null, b.null), id: j.id(a.id, b.id)}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					if types.Identical(r.alts[i].t, l.t) {
						r.alts[i].v = j.val(r.alts[i].v, l.v)
						hit = true
						break
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case FuncV:
		if b, ok := y.(FuncV); ok {
			r := FuncV{null: joinNull(a.null, b.null), id: j.id(a.id, b.id)}
			r.alts = append(r.alts, a.alts...)
			for _, l := range b.alts {
				hit := false
				for i := range r.alts {
					if r.alts[i].fn == l.fn && len(r.alts[i].bind) == len(l.bind) {
						nb := make([]Val, len(l.bind))
						for k := range nb {
							nb[k] = j.val(r.alts[i].bind[k], l.bind[k])
						}
						r.alts[i].bind = nb
						hit = true
						break
					}
				}
				if !hit {
					r.alts = append(r.alts, l)
				}
			}
			return r
		}
	case StructV:
		if b, ok := y.(StructV); ok && len(a.f) == len(b.f) {
			r := StructV{j.vals(a.f, b.f)}
			j.counts(r)
			return r
		}
	case ArrayV:
		if b, ok := y.(ArrayV); ok && len(a.f) == len(b.f) {
			return ArrayV{j.vals(a.f, b.f)}
		}
	case TupV:
		if b, ok := y.(TupV); ok && len(a) == len(b) {
			return TupV(j.vals(a, b))
		}
	}
	return TopV{}
}

func (j *joiner) vals(a, b []Val) []Val {
	r := make([]Val, len(a))
	for i := range a {
		r[i] = j.val(a[i], b[i])
	}
	return r
}

func unionObjs(a, b []ObjID) []ObjID {
	r := append([]ObjID(nil), a...)
	for _, x := range b {
		hit := false
		for _, y := range r {
			if x == y {
				hit = true
			}
		}
		if !hit {
			r = append(r, x)
		}
	}
	return r
}

func unionU32(a, b []uint32) []uint32 {
	r := append([]uint32(nil), a...)
	for _, x := range b {
		hit := false
		for _, y := range r {
			if x == y {
				hit = true
			}
		}
		if !hit {
			r = append(r, x)
		}
	}
	return r
}

// tmplJob is a template to be computed once all pairs are known.
type tmplJob struct {
	t1, t2 *Tmpl
	out    *Obj
}

// join merges a and b. With widen, facts that hold on one side only are
// dropped instead of weakened.
func (an *Analysis) join(a, b *State, widen bool) *State {
	an.stats.joins++
	a.flush()
	b.flush()
	an.matchEnts(a, b)
	an.matchEnts(b, a)
	j := &joiner{an: an, a: a, b: b, idx: map[string]int{}, wins: windows(a)}
	r := &State{an: an, sticky: a.sticky, bad: a.bad || b.bad}
	// registers
	r.frames = make([]*Frame, len(a.frames))
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			r.frames[i] = fa
			continue
		}
		nf := *fa
		nf.regs = make([]Val, len(fa.regs))
		for k := range fa.regs {
			if fa.regs[k] == nil || fb.regs[k] == nil {
				continue
			}
			j.inRegs = true
			nf.regs[k] = j.val(fa.regs[k], fb.regs[k])
			j.inRegs = false
		}
		r.frames[i] = &nf
	}
	// a frame shared by pointer may still have values with equalities in
	// only one system; they are the same forms, which is all that matters
	for i := range a.visit {
		m := a.visit[i]
		m.vals = make([]Lin, len(a.visit[i].vals))
		for k := range m.vals {
			m.vals[k] = j.lin(a.visit[i].vals[k], b.visit[i].vals[k])
		}
		m.tags = joinTags(a.visit[i].tags, b.visit[i].tags)
		r.visit = append(r.visit, m)
	}
	// heap
	n := len(an.objs)
	r.heap = make([]*Obj, n)
	r.hOwn, r.sysOwn, r.fOwn = true, true, false
	var jobs []tmplJob
	var one1, one2 []*Obj
	for id := 0; id < n; id++ {
		oa, ob := a.obj(ObjID(id)), b.obj(ObjID(id))
		switch {
		case oa == nil && ob == nil:
		case ob == nil:
			o := j.oneSided(oa)
			r.heap[id] = o
			one1 = append(one1, o)
		case oa == nil:
			o := j.oneSided(ob)
			r.heap[id] = o
			one2 = append(one2, o)
		case oa == ob:
			r.heap[id] = oa
			if oa.arr != nil && oa.arr.tmpl != nil && len(oa.arr.tmpl.cons) > 0 {
				c := *oa
				ar := *oa.arr
				c.arr = &ar
				r.heap[id] = &c
				jobs = append(jobs, tmplJob{oa.arr.tmpl, ob.arr.tmpl, &c})
			}
		default:
			o := &Obj{id: oa.id, typ: oa.typ, weak: oa.weak || ob.weak}
			if oa.val != nil && ob.val != nil {
				o.val = j.val(oa.val, ob.val)
			}
			if oa.arr != nil && ob.arr != nil {
				var job *tmplJob
				o.arr, job = j.arrays(ObjID(id), oa.arr, ob.arr)
				if job != nil {
					job.out = o
					jobs = append(jobs, *job)
				}
			}
			r.heap[id] = o
		}
	}
	// definitions present on both sides
	for _, d := range a.defs {
		for _, e := range b.defs {
			if d.a == e.a {
				r.defs = append(r.defs, d)
				break
			}
		}
	}
	// constraints
	r.sys = newSys(an)
	_, live := r.mark()
	j.progress(r)
	for _, d := range r.defs {
		if live[d.a] {
			for _, t := range d.x.T {
				live[t.A] = true
			}
			for _, t := range d.y.T {
				live[t.A] = true
			}
		}
	}
	ta, tb := a.sys.clone(), b.sys.clone()
	dead := func(x Atom) bool { return !live[x] }
	for _, p := range j.pairs {
		if x, ok := atomLin(p.z).sub(p.l1); ok {
			ta.addEQpref(x, dead)
		}
		if x, ok := atomLin(p.z).sub(p.l2); ok {
			tb.addEQpref(x, dead)
		}
	}
	fullA, fullB := ta, tb
	if len(jobs) > 0 {
		fullA, fullB = ta.clone(), tb.clone()
	}
	isLive := func(x Atom) bool { return live[x] }
	ta.project(isLive)
	tb.project(isLive)
	ghost1, ghost2 := map[Atom]bool{}, map[Atom]bool{}
	collectGhosts(one1, ghost1)
	collectGhosts(one2, ghost2)
	var zs []Atom
	for _, p := range j.pairs {
		if live[p.z] {
			zs = append(zs, p.z)
		}
	}
	mergeSys(an, r.sys, ta, tb, widen, zs, ghost1, ghost2)
	for i, l := range j.inv {
		usable := true
		for _, t := range l.T {
			usable = usable && live[t.A]
		}
		if !usable {
			continue
		}
		if ta.entailGE(l) && tb.entailGE(l) {
			r.sys.addGE(l)
			if k, ok := j.guess[i]; ok {
				an.goodInv[k]++
			}
		} else if k, ok := j.guess[i]; ok {
			an.badInv[k]++
		}
	}
	for _, e := range j.eqs {
		usable := true
		for _, t := range e.d.T {
			usable = usable && live[t.A]
		}
		if usable {
			r.sys.addEQpref(e.d, func(x Atom) bool { return x == e.z })
		}
	}
	for _, jb := range jobs {
		nt := an.joinTmpl(fullA, jb.t1, fullB, jb.t2, isLive, widen, j.wins)
		jb.out.arr.tmpl = nt
	}
	r.gc()
	return r
}

// matchEnts makes the array elements a knows at a constant index known in b
// too, where b's summary describes them.
func (an *Analysis) matchEnts(a, b *State) {
	for id, oa := range a.heap {
		if oa == nil || oa.arr == nil || oa.weak || oa.arr.doc || len(oa.arr.ents) == 0 {
			continue
		}
		ob := b.obj(ObjID(id))
		if ob == nil || ob == oa || ob.weak || ob.arr != nil && ob.arr.zero || ob.arr == nil || ob.arr.fixed != nil {
			continue
		}
	ents:
		for _, e := range oa.arr.ents {
			i := a.sys.norm(e.idx)
			if !i.isConst() || i.C < 0 {
				continue
			}
			ob = b.obj(ObjID(id))
			if ob.arr.tmpl == nil && len(ob.arr.pend) == 0 {
				continue
			}
			for _, f := range ob.arr.ents {
				if b.sys.norm(f.idx).eq(i) {
					continue ents
				}
			}
			if d, ok := ob.arr.n.addC(-i.C - 1); ok && b.sys.entailGE(d) {
				b.loadElem(ob, i, nil)
			}
		}
	}
}

func collectGhosts(os []*Obj, out map[Atom]bool) {
	lin := func(l Lin) {
		for _, t := range l.T {
			out[t.A] = true
		}
	}
	for _, o := range os {
		if o.val != nil {
			walk(o.val, lin, func(ObjID) {})
		}
		if o.arr != nil {
			lin(o.arr.n)
		}
	}
}

func (j *joiner) oneSided(o *Obj) *Obj {
	if o.arr == nil {
		return o
	}
	c := *o
	ar := *o.arr
	ar.ents = nil
	c.arr = &ar
	return &c
}

// current reports whether the slice is the latest version of its array.
func (st *State) current(s SliceV) bool {
	if len(s.alts) != 1 {
		return false
	}
	o := st.obj(s.alts[0])
	return o != nil && o.arr != nil && o.arr.ver == s.ver
}

// verOf is the version of the joined array id.
func (j *joiner) verOf(id ObjID) int {
	if v, ok := j.vers[id]; ok {
		return v
	}
	oa, ob := j.a.obj(id), j.b.obj(id)
	v := oa.arr.ver
	if ob.arr.ver != v {
		v = j.an.newID()
	}
	if j.vers == nil {
		j.vers = map[ObjID]int{}
	}
	j.vers[id] = v
	return v
}

func isZero(st *State, v Val) bool {
	x, ok := v.(IntV)
	if !ok {
		return false
	}
	l := st.sys.norm(x.L)
	return l.isConst() && l.C == 0
}

func (j *joiner) arrays(id ObjID, a, b *Arr) (*Arr, *tmplJob) {
	r := &Arr{elem: a.elem, doc: a.doc, track: a.track, dirty: a.dirty || b.dirty, zero: a.zero || b.zero}
	r.n = j.lin(a.n, b.n)
	r.ver = j.verOf(id)
	if a.doc {
		r.lo, r.hi, r.front = j.lin(a.lo, b.lo), j.lin(a.hi, b.hi), j.lin(a.front, b.front)
	}
	if a.fixed != nil && b.fixed != nil && len(a.fixed) == len(b.fixed) {
		r.fixed = j.vals(a.fixed, b.fixed)
		return r, nil
	}
	for _, e := range a.ents {
		i1 := j.a.sys.norm(e.idx)
		best := -1
		for k, f := range b.ents {
			if i1.eq(j.b.sys.norm(f.idx)) {
				best = k
			}
		}
		if best >= 0 && r.zero && isZero(j.a, e.v) != isZero(j.b, b.ents[best].v) {
			continue // to be told apart again when it is read
		}
		if best >= 0 {
			r.ents = append(r.ents, Ent{i1, j.val(e.v, b.ents[best].v)})
		}
	}
	// fixed on one side only cannot happen after flush
	if a.tmpl == nil && b.tmpl == nil {
		return r, nil
	}
	if a.tmpl == nil {
		r.tmpl = b.tmpl
		return r, &tmplJob{t1: nil, t2: b.tmpl}
	}
	if b.tmpl == nil {
		r.tmpl = a.tmpl
		return r, &tmplJob{t1: a.tmpl, t2: nil}
	}
	r.tmpl = a.tmpl
	if a.tmpl == b.tmpl && len(a.tmpl.cons) == 0 {
		return r, nil
	}
	return r, &tmplJob{t1: a.tmpl, t2: b.tmpl}
}

// mergeSys puts into out what both ta and tb imply.
func mergeSys(an *Analysis, out, ta, tb *Sys, widen bool, zs []Atom, ghost1, ghost2 map[Atom]bool) {
	if ta.bot && tb.bot {
		out.bot = true
		return
	}
	if ta.bot {
		*out = *tb.clone()
		return
	}
	if tb.bot {
		*out = *ta.clone()
		return
	}
	mention := func(s *Sys) map[Atom]bool {
		m := map[Atom]bool{}
		for _, r := range s.rows {
			for _, t := range r.T {
				m[t.A] = true
			}
		}
		for _, e := range s.eqs {
			m[e.A] = true
			for _, t := range e.L.T {
				m[t.A] = true
			}
		}
		return m
	}
	ma, mb := mention(ta), mention(tb)
	done := map[string]bool{}
	try := func(src, dst *Sys, l Lin, ghost, dm map[Atom]bool) { // l >= 0 holds in src
		if len(l.T) == 0 || len(l.T) > 5 || noise(l) {
			return
		}
		if len(ghost) > 0 {
			all := true
			for _, t := range l.T {
				if !ghost[t.A] || dm[t.A] {
					all = false
					break
				}
			}
			if all {
				out.addGE(l)
				return
			}
		}
		k := l.linKey()
		// when widening, a bound found only on the new side must not creep
		fresh := widen && src == tb
		if !fresh && dst.entailGE(l) {
			out.addGE(l)
			done[k] = true
			return
		}
		if fresh && len(l.T) > 1 && an.strict < 2 && !ta.stateOf(l) && dst.entailGE(l) {
			out.addGE(l)
			return
		}
		if widen {
			if len(l.T) == 1 && abs64(l.T[0].K) == 1 {
				ths := an.thresholds
				if an.strict >= 1 {
					ths = an.coarser()
				}
				// thresholds: l.C is -lower or the upper bound
				for i, th := range ths {
					c := th
					if l.T[0].K > 0 {
						// the largest one below
						c = -ths[len(ths)-1-i]
					}
					if c < l.C {
						continue
					}
					m := Lin{c, l.T}
					if src == tb && !tb.entailGE(m) {
						continue
					}
					if dst.entailGE(m) {
						out.addGE(m)
						return
					}
				}
			}
			return
		}
		if done[k] {
			return
		}
		done[k] = true
		if b, ok := dst.lower(Lin{0, l.T}); ok && b != posInf && b > -(1<<61) {
			if m := (Lin{-b, l.T}); !noise(m) {
				out.addGE(m)
			}
		}
	}
	collect := false
	var qs []query
	question := func(src, dst *Sys, l Lin, ghost, dm map[Atom]bool) {
		if len(l.T) == 0 || len(l.T) > 5 || noise(l) || len(ghost) > 0 {
			return
		}
		fresh := widen && src == tb
		if !fresh || len(l.T) > 1 && an.strict < 2 && !ta.stateOf(l) {
			qs = append(qs, query{dst, l, !widen})
		}
	}
	side := func(src, dst *Sys, ghost, dm map[Atom]bool) {
		try := try
		if collect {
			try = question
		}
		for i := range src.rows {
			r := src.rows[i]
			if !widen {
				if k := dst.findRow(r.T, r.h); k >= 0 && len(ghost) == 0 {
					// the same row on both sides: take the hull
					q := dst.rows[k]
					lo, hi := r.lo, r.hi
					if q.lo < lo {
						lo = q.lo
					}
					if q.hi > hi {
						hi = q.hi
					}
					both := Row{r.T, r.h, lo, hi}
					for _, l := range rowGE(&both) {
						if !noise(l) && !collect {
							out.addGE(l)
						}
					}
					if (r.lo != negInf && q.lo == negInf) || (r.hi != posInf && q.hi == posInf) {
						// one side is missing explicitly; it may still be implied
						for _, l := range rowGE(&r) {
							try(src, dst, l, ghost, dm)
						}
					}
					continue
				}
			}
			for _, l := range rowGE(&r) {
				try(src, dst, l, ghost, dm)
			}
		}
		for _, e := range src.eqs {
			x, ok := lincomb(1, atomLin(e.A), -1, e.L)
			if !ok {
				continue
			}
			if len(e.L.T) >= 2 {
				// rows that are shorter in terms of the eliminated quantity
				for i := range src.rows {
					n := 0
					for _, t := range src.rows[i].T {
						if e.L.coef(t.A) != 0 {
							n++
						}
					}
					if n < 2 {
						continue
					}
					for _, l := range rowGE(&src.rows[i]) {
						for _, k := range []int64{1, -1} {
							if m, ok := lincomb(1, l, k, x); ok && len(m.T) < len(l.T) {
								try(src, dst, m, ghost, dm)
							}
						}
					}
				}
			}
			try(src, dst, x, ghost, dm)
			if y, ok := x.neg(); ok {
				try(src, dst, y, ghost, dm)
			}
		}
	}
	collect = true
	side(ta, tb, ghost1, mb)
	side(tb, ta, ghost2, ma)
	collect = false
	ahead(ta, tb, qs)
	side(ta, tb, ghost1, mb)
	side(tb, ta, ghost2, ma)
	if !widen {
		for _, z := range zs {
			for _, k := range []int64{1, -1} {
				l := Lin{0, []Term{{z, k}}}
				if done[l.linKey()] {
					continue
				}
				b1, ok1 := ta.lower(l)
				b2, ok2 := tb.lower(l)
				if ok1 && ok2 && b1 != posInf && b2 != posInf {
					if b2 < b1 {
						b1 = b2
					}
					if b1 > -(1 << 61) {
						out.addGE(Lin{-b1, l.T})
					}
				}
			}
		}
	}
	if !widen {
		// a joined quantity and one bounded differently on the two sides may
		// be related although neither side states the relation
		var others []Atom
		for x := range ma {
			if mb[x] {
				others = append(others, x)
			}
		}
		sort.Slice(others, func(i, j int) bool { return others[i] < others[j] })
		isZ := map[Atom]bool{}
		all := zs[:len(zs):len(zs)]
		for _, z := range zs {
			isZ[z] = true
		}
		for _, eqs := range [][]Eq{ta.eqs, tb.eqs} {
			for _, e := range eqs {
				if e.L.isConst() && !isZ[e.A] {
					isZ[e.A] = true
					all = append(all, e.A)
				}
			}
		}
		for i, z := range all {
			if !ta.norm(atomLin(z)).isConst() && !tb.norm(atomLin(z)).isConst() {
				continue
			}
			cand := others
			for _, y := range all[:i] {
				if !ma[y] || !mb[y] {
					cand = append(cand[:len(cand):len(cand)], y)
				}
			}
			for _, x := range cand {
				if x == z {
					continue
				}
				for _, kz := range []int64{1, -1} {
					for _, kx := range []int64{1, -1} {
						pairRow(out, ta, tb, z, kz, x, kx)
					}
				}
			}
		}
	}
	neOf := func(src, dst *Sys) {
		for _, n := range src.ne {
			if dst.entailNE(n) {
				out.addNE(n)
			}
		}
	}
	neOf(ta, tb)
	neOf(tb, ta)
}

// pairRow adds kz*z+kx*x >= c to out where that holds on both sides and the
// bounds of z and x alone do not give it.
func pairRow(out, ta, tb *Sys, z Atom, kz int64, x Atom, kx int64) {
	l := lin2(z, kz, x, kx)
	a, ok1 := ta.quickMin(ta.norm(l))
	b, ok2 := tb.quickMin(tb.norm(l))
	if !ok1 || !ok2 {
		return
	}
	box := func(y Atom, k int64) (int64, bool) {
		m := Lin{0, []Term{{y, k}}}
		a, ok1 := ta.quickMin(ta.norm(m))
		b, ok2 := tb.quickMin(tb.norm(m))
		return min(a, b), ok1 && ok2
	}
	c := min(a, b)
	if abs64(c) > 1<<12 {
		return
	}
	if bz, ok := box(z, kz); ok {
		if bx, ok := box(x, kx); ok && bz+bx >= c {
			return
		}
	}
	out.addGE(Lin{-c, l.T})
}

func lin2(a Atom, ka int64, b Atom, kb int64) Lin {
	if a > b {
		a, ka, b, kb = b, kb, a, ka
	}
	return Lin{0, []Term{{a, ka}, {b, kb}}}
}

// noise is a relation between several quantities that says no more than the
// size of the address space does.
func noise(l Lin) bool {
	if len(l.T) < 2 || abs64(l.C) < 1<<44 {
		return false
	}
	for _, t := range l.T {
		if abs64(t.K) >= 1<<16 {
			return false
		}
	}
	return true
}

// stateOf reports whether s itself states a bound of the same form as l.
func (s *Sys) stateOf(l Lin) bool {
	t, sg, _ := canon(l)
	if k := s.findRow(t, hashTerms(t)); k >= 0 {
		r := &s.rows[k]
		if sg > 0 {
			return r.lo != negInf
		}
		return r.hi != posInf
	}
	return false
}

// joinTmpl computes a template covering t1 under s1 and t2 under s2 (either
// may be nil: no elements).
func (an *Analysis) joinTmpl(s1 *Sys, t1 *Tmpl, s2 *Sys, t2 *Tmpl, live func(Atom) bool, widen bool, wins []window) *Tmpl {
	if t1 == nil && t2 == nil {
		return nil
	}
	if t1 == t2 || t1 == nil || t2 == nil {
		// one template: its constraints only need to survive the projection,
		// and its own atoms are renamed by nobody
		ok := true
		check := t1
		if check == nil {
			check = t2
		}
		own := map[Atom]bool{}
		for _, a := range check.atoms {
			own[a] = true
		}
		for _, r := range check.cons {
			for _, t := range r.T {
				if !own[t.A] && !live(t.A) {
					ok = false
				}
			}
		}
		if ok && t1 == t2 {
			return t1
		}
		if t1 == nil || t2 == nil {
			s, none := s1, s2
			if t1 == nil {
				s, none = s2, s1
			}
			p := s.clone()
			addRows(p, check.cons)
			if !an.cfg.Zero {
				p.project(func(a Atom) bool { return own[a] || live(a) })
				return tmplFrom(p, check.val, own)
			}
			// what the side without elements knows nothing of describes the
			// element alone
			known := none.mentioned()
			ren := map[Atom]Lin{}
			walk(check.val, func(l Lin) {
				for _, t := range p.norm(l).T {
					if _, done := ren[t.A]; done || own[t.A] || known[t.A] {
						continue
					}
					inf := an.atoms[t.A]
					z := an.newAtom(inf.name, inf.lo, inf.hi)
					an.atoms[z].counter = inf.counter
					ren[t.A] = atomLin(z)
				}
			}, func(ObjID) {})
			val := mapLins(check.val, func(l Lin) Lin {
				r, ok := p.norm(l).substMap(ren)
				if !ok {
					return l
				}
				return r
			})
			var olds []Atom
			for a := range ren {
				olds = append(olds, a)
			}
			sort.Slice(olds, func(i, k int) bool { return olds[i] < olds[k] })
			for _, a := range olds {
				z := ren[a]
				own[z.T[0].A] = true
				if d, ok := z.sub(atomLin(a)); ok {
					p.addEQpref(d, func(x Atom) bool { return x == a })
				}
			}
			p.project(func(a Atom) bool { return own[a] || live(a) && known[a] })
			return tmplFrom(p, val, own)
		}
	}
	p1, p2 := s1.clone(), s2.clone()
	p1.bot, p2.bot = false, false
	addRows(p1, t1.cons)
	addRows(p2, t2.cons)
	// a state without an array element satisfying the constraints
	if p1.bot {
		return an.projT(p2, t2, live)
	}
	if p2.bot {
		return an.projT(p1, t1, live)
	}
	st1 := &State{an: an, sys: p1, sysOwn: true}
	st2 := &State{an: an, sys: p2, sysOwn: true}
	j := &joiner{an: an, a: st1, b: st2, idx: map[string]int{}, wins: wins}
	// own atoms shared by both templates must not be taken for equal values
	own1 := map[Atom]bool{}
	for _, a := range t1.atoms {
		own1[a] = true
	}
	v2 := t2.val
	shared := false
	for _, a := range t2.atoms {
		if own1[a] {
			shared = true
		}
	}
	if shared {
		// rename t2's own atoms
		ren := map[Atom]Lin{}
		for _, a := range t2.atoms {
			inf := an.atoms[a]
			n := an.newAtom(inf.name, inf.lo, inf.hi)
			an.atoms[n].counter = inf.counter
			ren[a] = atomLin(n)
		}
		p2 = s2.clone()
		p2.bot = false
		addRows(p2, renameRows(t2.cons, ren))
		v2 = mapLins(t2.val, func(l Lin) Lin { r, _ := l.substMap(ren); return r })
		st2.sys = p2
	}
	v := j.val(mapLins(t1.val, p1.norm), mapLins(v2, p2.norm))
	own := map[Atom]bool{}
	for _, p := range j.pairs {
		own[p.z] = true
	}
	// own atoms of either side that survive (equal on both): only when a
	// form is shared, which renaming excludes, so all own atoms are pairs
	for _, p := range j.pairs {
		if x, ok := atomLin(p.z).sub(p.l1); ok {
			p1.addEQpref(x, func(a Atom) bool { return !live(a) && !own[a] })
		}
		if x, ok := atomLin(p.z).sub(p.l2); ok {
			p2.addEQpref(x, func(a Atom) bool { return !live(a) && !own[a] })
		}
	}
	keep := func(a Atom) bool { return own[a] || live(a) }
	p1.project(keep)
	p2.project(keep)
	out := newSys(an)
	var zs []Atom
	for _, p := range j.pairs {
		zs = append(zs, p.z)
	}
	// only rows about own atoms are wanted
	strip := func(s *Sys) *Sys {
		n := newSys(an)
		n.bot = s.bot
		for _, r := range s.rows {
			for _, t := range r.T {
				if own[t.A] {
					n.rows = append(n.rows, r)
					break
				}
			}
		}
		for _, e := range s.eqs {
			has := own[e.A]
			for _, t := range e.L.T {
				has = has || own[t.A]
			}
			if has {
				n.eqs = append(n.eqs, e)
			}
		}
		return n
	}
	w1, w2 := strip(p1), strip(p2)
	if w1.bot || w2.bot {
		if w1.bot {
			return tmplFrom(p2, v, own)
		}
		return tmplFrom(p1, v, own)
	}
	mergeInto(an, out, w1, p1, w2, p2, widen, zs)
	for _, l := range j.inv {
		usable := true
		for _, t := range l.T {
			usable = usable && (own[t.A] || live(t.A))
		}
		if usable && p1.entailGE(l) && p2.entailGE(l) {
			out.addGE(l)
		}
	}
	return tmplFrom(out, v, own)
}

func (an *Analysis) projT(p *Sys, t *Tmpl, live func(Atom) bool) *Tmpl {
	own := map[Atom]bool{}
	for _, a := range t.atoms {
		own[a] = true
	}
	p.project(func(a Atom) bool { return own[a] || live(a) })
	return tmplFrom(p, t.val, own)
}

// mergeInto is mergeSys with the candidate rows limited to w1 and w2.
func mergeInto(an *Analysis, out, w1, p1, w2, p2 *Sys, widen bool, zs []Atom) {
	cand := func(w, src, dst *Sys) {
		fresh := widen && src == p2
		ths := an.thresholds
		if an.strict >= 1 {
			ths = an.coarser()
		}
		var ls []Lin
		for i := range w.rows {
			ls = append(ls, rowGE(&w.rows[i])...)
		}
		for _, e := range w.eqs {
			if x, ok := lincomb(1, atomLin(e.A), -1, e.L); ok {
				ls = append(ls, x)
				if y, ok := x.neg(); ok {
					ls = append(ls, y)
				}
			}
		}
		for _, l := range ls {
			if len(l.T) > 4 {
				continue
			}
			if noise(l) {
				continue
			}
			if fresh && len(l.T) > 1 && (an.strict >= 2 || p1.stateOf(l)) {
				continue
			}
			if (!fresh || len(l.T) > 1) && dst.entailGE(l) {
				out.addGE(l)
			} else if !widen {
				if b, ok := dst.lower(Lin{0, l.T}); ok && b != posInf && b > -(1<<61) {
					if m := (Lin{-b, l.T}); !noise(m) {
						out.addGE(m)
					}
				}
			} else if len(l.T) == 1 && abs64(l.T[0].K) == 1 {
				for i, th := range ths {
					c := th
					if l.T[0].K > 0 {
						// the largest one below
						c = -ths[len(ths)-1-i]
					}
					if c < l.C {
						continue
					}
					if m := (Lin{c, l.T}); dst.entailGE(m) && (!fresh || src.entailGE(m)) {
						out.addGE(m)
						break
					}
				}
			}
		}
	}
	cand(w1, p1, p2)
	cand(w2, p2, p1)
	if !widen {
		for _, z := range zs {
			for _, k := range []int64{1, -1} {
				l := Lin{0, []Term{{z, k}}}
				b1, ok1 := p1.lower(l)
				b2, ok2 := p2.lower(l)
				if ok1 && ok2 && b1 != posInf && b2 != posInf {
					if b2 < b1 {
						b1 = b2
					}
					if b1 > -(1 << 61) {
						out.addGE(Lin{-b1, l.T})
					}
				}
			}
		}
	}
}

func renameRows(rows []Row, ren map[Atom]Lin) []Row {
	out := make([]Row, 0, len(rows))
	for _, r := range rows {
		l, ok := (Lin{0, r.T}).substMap(ren)
		if !ok || len(l.T) == 0 {
			continue
		}
		t, sg, g := canon(l)
		n := Row{T: t, h: hashTerms(t), lo: r.lo, hi: r.hi}
		if g != 1 {
			continue
		}
		if sg < 0 {
			n.lo, n.hi = negInf, posInf
			if r.hi != posInf {
				n.lo = -r.hi
			}
			if r.lo != negInf {
				n.hi = -r.lo
			}
		}
		out = append(out, n)
	}
	return out
}

// flush folds the stored values that still wait into the templates.
func (st *State) flush() {
	for id, o := range st.heap {
		if o == nil || o.arr == nil || len(o.arr.pend) == 0 {
			continue
		}
		st.setObj(st.folded(o))
		_ = id
	}
}

func (st *State) folded(o *Obj) *Obj {
	c := *o
	ar := *o.arr
	pend := ar.pend
	ar.pend = nil
	for _, v := range pend {
		ar.tmpl = st.foldVal(ar.tmpl, v)
	}
	c.arr = &ar
	return &c
}

// foldVal adds v to the values t describes.
func (st *State) foldVal(t *Tmpl, v Val) *Tmpl {
	nt := st.valTmpl(v)
	if t == nil {
		return nt
	}
	if st.tmplCovers(st.sys, v, t) {
		return t
	}
	return st.an.joinTmpl(st.sys, t, st.sys, nt, func(Atom) bool { return true }, false, windows(st))
}

// valTmpl describes the single value v.
func (st *State) valTmpl(v Val) *Tmpl {
	t := &Tmpl{}
	n := st.sys.clone()
	own := map[Atom]bool{}
	t.val = mapLins(v, func(l Lin) Lin {
		l = st.sys.norm(l)
		if l.isConst() {
			return l
		}
		// keep packed parts apart
		var parts []Lin
		var ks []int64
		h, o := splitPow(l, 32)
		if len(h.T) > 0 {
			parts, ks = append(parts, h), append(ks, 1<<32)
			h2, o2 := splitPow(o, 16)
			if len(h2.T) > 0 {
				parts, ks = append(parts, h2, o2), append(ks, 1<<16, 1)
			} else {
				parts, ks = append(parts, o), append(ks, 1)
			}
		} else {
			h2, o2 := splitPow(l, 16)
			if len(h2.T) > 0 {
				parts, ks = append(parts, h2, o2), append(ks, 1<<16, 1)
			} else {
				parts, ks = append(parts, l), append(ks, 1)
			}
		}
		r := Lin{}
		for i, p := range parts {
			if p.isConst() {
				if x, ok := lincomb(1, r, ks[i], p); ok {
					r = x
					continue
				}
			}
			a := st.an.newAtom("el", negInf, posInf)
			own[a] = true
			if x, ok := atomLin(a).sub(p); ok {
				n.addEQpref(x, func(b Atom) bool { return !own[b] })
			}
			if x, ok := lincomb(1, r, ks[i], atomLin(a)); ok {
				r = x
			}
		}
		return r
	})
	if len(own) == 0 {
		return &Tmpl{val: v}
	}
	// the equalities own = form stay as constraints; eliminating in favour of
	// other atoms must keep them visible
	nt := tmplFrom(n, t.val, own)
	return nt
}

// tmplCovers: v, under s, is one of the values t describes.
func (st *State) tmplCovers(s *Sys, v Val, t *Tmpl) bool {
	m := &matcher{an: st.an, s: s, own: map[Atom]bool{}, sub: map[Atom]Lin{}, ids: map[int]int{}}
	for _, a := range t.atoms {
		m.own[a] = true
	}
	m.onlyOwn = true
	if !m.val(v, t.val) || !m.finish() {
		return false
	}
	return m.rowsHold(t.cons)
}

// ---- inclusion ----

// matcher finds an assignment of b's atoms by forms of a such that the values
// of a are instances of the values of b.
// verOK: a slice of the right-hand state may be taken for the latest version
// of its array only if the left-hand one is.
func (m *matcher) verOK(x, y SliceV) bool {
	if y.ver == -1 {
		return true
	}
	if m.a == nil {
		return x.ver == y.ver
	}
	if m.b.current(y) {
		return m.a.current(x)
	}
	return true
}

type matcher struct {
	a, b    *State
	an      *Analysis
	s       *Sys // facts of a
	sub     map[Atom]Lin
	own     map[Atom]bool
	onlyOwn bool // atoms outside own stand for themselves
	ids     map[int]int
	later   [][2]Lin // a-form, b-form
	why     string
}

func (m *matcher) free(a Atom) bool {
	if m.onlyOwn && !m.own[a] {
		return false
	}
	_, ok := m.sub[a]
	return !ok
}

func (m *matcher) image(l Lin) (Lin, bool) { return l.substMap(m.sub) }

func (m *matcher) lin(x, y Lin) bool {
	x = m.s.norm(x)
	if m.solve(x, y) {
		return true
	}
	m.later = append(m.later, [2]Lin{x, y})
	return true
}

// solve handles y with at most one unassigned atom of coefficient +-1.
func (m *matcher) solve(x, y Lin) bool {
	var f Atom = -1
	var k int64
	n := 0
	for _, t := range y.T {
		if m.free(t.A) {
			n++
			f, k = t.A, t.K
		}
	}
	if n == 0 {
		return false
	}
	if n > 1 || (k != 1 && k != -1) {
		return false
	}
	rest, _ := y.subst(f, konst(0))
	im, ok := m.image(rest)
	if !ok {
		return false
	}
	d, ok := lincomb(k, x, -k, im)
	if !ok {
		return false
	}
	m.sub[f] = m.s.norm(d)
	return true
}

func (m *matcher) finish() bool {
	for changed := true; changed; {
		changed = false
		var rest [][2]Lin
		for _, p := range m.later {
			if m.solve(p[0], p[1]) {
				changed = true
				continue
			}
			rest = append(rest, p)
		}
		m.later = rest
		if changed {
			continue
		}
		// packed values with several unassigned parts are matched part by
		// part, as the join took them apart
		for i, p := range m.later {
			if hx, ox, hy, oy, ok := m.takeApart(p[0], p[1]); ok {
				m.later = append(append([][2]Lin(nil), m.later[:i]...), m.later[i+1:]...)
				m.later = append(m.later, [2]Lin{hx, hy}, [2]Lin{ox, oy})
				changed = true
				break
			}
		}
	}
	for _, p := range m.later {
		for _, t := range p[1].T {
			if m.free(t.A) {
				// stands for itself
				if m.onlyOwn && m.own[t.A] {
					// packed forms with several unassigned parts: split the bits
					return m.fail("unmatched packed form")
				}
				m.sub[t.A] = atomLin(t.A)
			}
		}
		im, ok := m.image(p[1])
		if !ok {
			return m.fail("overflow")
		}
		d, ok := p[0].sub(im)
		if !ok || !m.s.entailEQ(d) {
			return m.fail("values differ: " + m.an.linStr(p[0]) + " vs " + m.an.linStr(p[1]))
		}
	}
	m.later = nil
	return true
}

func (m *matcher) takeApart(x, y Lin) (hx, ox, hy, oy Lin, ok bool) {
	n := 0
	for _, t := range y.T {
		if m.free(t.A) {
			n++
		}
	}
	if n < 2 {
		return
	}
	for _, k := range []int64{32, 16} {
		hy, oy = splitPow(y, k)
		if len(hy.T) > 0 && len(oy.T) > 0 {
			hx, ox = splitPow(x, k)
			return hx, ox, hy, oy, true
		}
	}
	return
}

func (m *matcher) fail(s string) bool {
	if m.why == "" {
		m.why = s
	}
	return false
}

func (m *matcher) rowsHold(rows []Row) bool {
	for i := range rows {
		for _, l := range rowGE(&rows[i]) {
			im, ok := m.image(l)
			if !ok || !m.s.entailGE(im) {
				return m.fail("not implied: " + m.an.linStr(l) + " >= 0")
			}
		}
	}
	return true
}

func (m *matcher) id(a, b int) bool {
	if b == 0 {
		return true
	}
	if x, ok := m.ids[b]; ok {
		return x == a
	}
	m.ids[b] = a
	return true
}

func nullIn(a, b tri) bool { return a == b || b == maybeNil }

// cond: the condition of b must be fresh or equal.
func (m *matcher) cond(x, y *Cond) bool {
	if b, ok := boolLin(y); ok && !b.isConst() {
		if a, ok := boolLin(x); ok {
			return m.lin(a, b)
		}
		if len(b.T) == 1 && m.free(b.T[0].A) {
			f := m.an.newAtom("bool", 0, 1)
			return m.lin(atomLin(f), b)
		}
	}
	if y.op == cTrue || y.op == cFalse {
		if a, ok := boolLin(x); ok {
			b, _ := boolLin(y)
			return m.lin(a, b)
		}
	}
	if x.op != y.op {
		return m.fail("truth values differ")
	}
	switch x.op {
	case cTrue, cFalse:
		return true
	case cGE, cEQ, cNE:
		return m.lin(x.l, y.l)
	case cAnd, cOr:
		return m.cond(x.a, y.a) && m.cond(x.b, y.b)
	}
	return m.fail("truth values differ")
}

// val: x (of a) is an instance of y (of b).
func (m *matcher) val(x, y Val) bool {
	if y == nil {
		return true
	}
	if _, ok := y.(TopV); ok {
		return true
	}
	if x == nil {
		return m.fail("dead register")
	}
	switch a := x.(type) {
	case IntV:
		b, ok := y.(IntV)
		return (ok && m.lin(a.L, b.L)) || m.fail("kind")
	case BoolV:
		b, ok := y.(BoolV)
		return ok && m.cond(a.C, b.C)
	case PtrV:
		b, ok := y.(PtrV)
		if !ok || !nullIn(a.null, b.null) || !m.id(a.id, b.id) {
			return m.fail("pointer nil-ness or identity")
		}
		for _, l := range a.alts {
			hit := false
			for _, k := range b.alts {
				if l.obj == k.obj && l.elem == k.elem && l.path == k.path {
					hit = !l.elem || m.lin(l.idx, k.idx)
					break
				}
			}
			if !hit {
				return m.fail("pointer target")
			}
		}
		return true
	case SliceV:
		b, ok := y.(SliceV)
		if !ok || !nullIn(a.null, b.null) || !m.id(a.id, b.id) || !m.verOK(a, b) {
			return m.fail("slice nil-ness, identity or version")
		}
		for _, l := range a.alts {
			hit := false
			for _, k := range b.alts {
				hit = hit || l == k
			}
			if !hit {
				return m.fail("slice target")
			}
		}
		return m.lin(a.off, b.off) && m.lin(a.len, b.len) && m.lin(a.cap, b.cap)
	case StrV:
		b, ok := y.(StrV)
		if !ok || (b.ascii && !a.ascii) {
			return m.fail("string")
		}
		if b.c != nil && (a.c == nil || *a.c != *b.c) {
			return m.fail("string content")
		}
		if b.set != nil && (a.set == nil || len(unionU32(b.set, a.set)) != len(b.set)) {
			return m.fail("string set")
		}
		return m.lin(a.n, b.n)
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok || !nullIn(a.null, b.null) || !m.id(a.id, b.id) {
			return m.fail("interface nil-ness or identity")
		}
		for _, l := range a.alts {
			hit := false
			for _, k := range b.alts {
				if types.Identical(l.t, k.t) {
					hit = m.val(l.v, k.v)
					break
				}
			}
			if !hit {
				return m.fail("dynamic type " + l.t.String())
			}
		}
		return true
	case FuncV:
		b, ok := y.(FuncV)
		if !ok || !nullIn(a.null, b.null) {
			return m.fail("function")
		}
		for _, l := range a.alts {
			hit := false
			for _, k := range b.alts {
				if l.fn == k.fn && len(l.bind) == len(k.bind) {
					hit = true
					for i := range l.bind {
						hit = hit && m.val(l.bind[i], k.bind[i])
					}
					break
				}
			}
			if !hit {
				return m.fail("function")
			}
		}
		return true
	case StructV:
		b, ok := y.(StructV)
		return ok && len(a.f) == len(b.f) && m.vals(a.f, b.f)
	case ArrayV:
		b, ok := y.(ArrayV)
		return ok && len(a.f) == len(b.f) && m.vals(a.f, b.f)
	case TupV:
		b, ok := y.(TupV)
		return ok && len(a) == len(b) && m.vals(a, b)
	}
	return m.fail("kind")
}

func (m *matcher) vals(a, b []Val) bool {
	for i := range a {
		if !m.val(a[i], b[i]) {
			return false
		}
	}
	return true
}

// included reports whether every concrete state of a is one of b.
func (an *Analysis) included(a, b *State) (bool, string) {
	an.stats.incl++
	an.failRow = -1
	a.flush()
	if b.bad != a.bad && a.bad {
		return false, "bad"
	}
	an.matchEnts(b, a)
	m := &matcher{an: an, s: a.sys, sub: map[Atom]Lin{}, ids: map[int]int{}, a: a, b: b}
	for i := range b.frames {
		fa, fb := a.frames[i], b.frames[i]
		for k := range fb.regs {
			if fb.regs[k] == nil {
				continue
			}
			if !m.val(fa.regs[k], fb.regs[k]) {
				return false, fa.fi.vals[k].Name() + ": " + m.why
			}
		}
	}
	for i := range b.visit {
		for k := range b.visit[i].vals {
			m.lin(a.visit[i].vals[k], b.visit[i].vals[k])
		}
	}
	type tj struct {
		o    ObjID
		a, b *Arr
	}
	var ts []tj
	ra, _ := a.mark()
	for id := range a.heap {
		oa := a.heap[id]
		if oa == nil || !ra[id] {
			continue
		}
		ob := b.obj(ObjID(id))
		if ob == nil {
			return false, "object " + an.objs[id].name
		}
		if oa == ob && oa.arr == nil {
			// same value; its atoms must stand for themselves
		}
		if oa.weak && !ob.weak {
			return false, "object summarised " + an.objs[id].name
		}
		if ob.val != nil && !m.val(oa.val, ob.val) {
			return false, an.objs[id].name + ": " + m.why
		}
		if ob.arr != nil {
			x, y := oa.arr, ob.arr
			if x == nil {
				return false, "array"
			}
			m.lin(x.n, y.n)
			if x.dirty && !y.dirty {
				return false, "written " + an.objs[id].name
			}
			if y.doc {
				m.lin(x.lo, y.lo)
				m.lin(x.hi, y.hi)
				m.lin(x.front, y.front)
			}
			if y.fixed != nil {
				if len(x.fixed) != len(y.fixed) || !m.vals(x.fixed, y.fixed) {
					return false, an.objs[id].name + " elements: " + m.why
				}
			}
			for _, e := range y.ents {
				hit := false
				for _, f := range x.ents {
					// compare under the assignment so far, identity otherwise
					im, ok := m.image(e.idx)
					if ok && m.s.norm(im).eq(m.s.norm(f.idx)) {
						hit = m.val(f.v, e.v)
						break
					}
				}
				if !hit {
					return false, an.objs[id].name + " known element"
				}
			}
			ts = append(ts, tj{ObjID(id), x, y})
		}
	}
	if !m.finish() {
		return false, m.why
	}
	// atoms of b's constraints that no value mentions stand for themselves
	for i := range b.sys.rows {
		if !m.rowsHold(b.sys.rows[i : i+1]) {
			an.failRow = i
			return false, m.why
		}
	}
	for _, e := range b.sys.eqs {
		x, ok := lincomb(1, atomLin(e.A), -1, e.L)
		if !ok {
			continue
		}
		im, ok := m.image(x)
		if !ok || !a.sys.entailEQ(im) {
			return false, "equality " + an.linStr(x)
		}
	}
	for _, n := range b.sys.ne {
		im, ok := m.image(n)
		if !ok || !a.sys.entailNE(im) {
			return false, "disequality " + an.linStr(n)
		}
	}
	// intrinsic bounds of the assigned atoms
	for at, l := range m.sub {
		inf := an.atoms[at]
		if inf.lo != negInf {
			if x, ok := l.addC(-inf.lo); !ok || !a.sys.entailGE(x) {
				return false, "bound of " + an.linStr(atomLin(at))
			}
		}
		if inf.hi != posInf {
			x, ok := l.neg()
			if ok {
				x, ok = x.addC(inf.hi)
			}
			if !ok || !a.sys.entailGE(x) {
				return false, "bound of " + an.linStr(atomLin(at))
			}
		}
		if inf.counter && !a.isCounter(l) {
			return false, "counter " + an.linStr(atomLin(at))
		}
	}
	for _, d := range b.defs {
		hit := false
		im, ok := m.image(atomLin(d.a))
		for _, e := range a.defs {
			if ok && e.op == d.op && e.k == d.k && im.eq(atomLin(e.a)) {
				x, ok1 := m.image(d.x)
				y, ok2 := m.image(d.y)
				if ok1 && ok2 && a.sys.norm(x).eq(a.sys.norm(e.x)) && a.sys.norm(y).eq(a.sys.norm(e.y)) {
					hit = true
				}
			}
		}
		if !hit {
			return false, "definition"
		}
	}
	for _, t := range ts {
		if t.b.fixed != nil {
			continue
		}
		if t.a.zero && !t.b.zero {
			return false, an.objs[t.o].name + " elements: zero"
		}
		if t.a.fixed != nil {
			for _, v := range t.a.fixed {
				if t.b.tmpl == nil || !a.coversUnder(m, v, nil, t.b.tmpl) {
					return false, an.objs[t.o].name + " element"
				}
			}
			continue
		}
		if t.a.tmpl == nil {
			continue
		}
		if t.b.tmpl == nil {
			return false, an.objs[t.o].name + " elements"
		}
		if !a.coversUnder(m, t.a.tmpl.val, t.a.tmpl, t.b.tmpl) {
			if an.cfg.Debug != "" {
				return false, an.objs[t.o].name + " elements: not covered: " + an.tmplStr(t.a.tmpl) + " by " + an.tmplStr(t.b.tmpl)
			}
			return false, an.objs[t.o].name + " elements: not covered"
		}
	}
	return true, ""
}

// coversUnder: v (an element of a, under ta's constraints) is described by tb
// with b's other atoms assigned by m.
func (st *State) coversUnder(m *matcher, v Val, ta, tb *Tmpl) bool {
	s := st.sys
	own := map[Atom]bool{}
	for _, a := range tb.atoms {
		own[a] = true
	}
	if ta != nil {
		// keep the own atoms of both apart
		ren := map[Atom]Lin{}
		for _, a := range ta.atoms {
			if own[a] {
				inf := st.an.atoms[a]
				n := st.an.newAtom(inf.name, inf.lo, inf.hi)
				st.an.atoms[n].counter = inf.counter
				ren[a] = atomLin(n)
			}
		}
		s = s.clone()
		addRows(s, renameRows(ta.cons, ren))
		if s.bot {
			return true
		}
		if len(ren) > 0 {
			v = mapLins(v, func(l Lin) Lin { r, _ := l.substMap(ren); return r })
		}
	}
	n := &matcher{an: st.an, s: s, sub: map[Atom]Lin{}, own: own, onlyOwn: true, ids: map[int]int{}, a: m.a, b: m.b}
	for k, l := range m.sub {
		if !own[k] {
			n.sub[k] = l
		}
	}
	if !n.packed(v, tb.val) || !n.finish() {
		return false
	}
	return n.rowsHold(tb.cons)
}

// packed is val, with packed integers matched part by part.
func (m *matcher) packed(x, y Val) bool {
	a, ok1 := x.(IntV)
	b, ok2 := y.(IntV)
	if ok1 && ok2 {
		return m.packedLin(m.s.norm(a.L), b.L)
	}
	return m.val(x, y)
}

func (m *matcher) packedLin(x, y Lin) bool {
	n := 0
	for _, t := range y.T {
		if m.free(t.A) {
			n++
		}
	}
	if n <= 1 {
		return m.lin(x, y)
	}
	for _, k := range []int64{32, 16} {
		hy, oy := splitPow(y, k)
		if len(hy.T) > 0 && len(oy.T) > 0 {
			hx, ox := splitPow(x, k)
			return m.packedLin(hx, hy) && m.packedLin(ox, oy)
		}
	}
	return m.lin(x, y)
}

// ---- partitioning ----

// rankMark remembers the loop state a ranking argument starts from.
type rankMark struct {
	head *ssa.BasicBlock
	vals []Lin
	tags []string
	at   [][2]int // for each value, the object and the field it is of, or -1
}

func sortedTypes(alts []IAlt) []string {
	var s []string
	for _, a := range alts {
		s = append(s, a.t.String())
	}
	sort.Strings(s)
	return s
}

func (an *Analysis) tmplStr(t *Tmpl) string {
	if t == nil {
		return "none"
	}
	q := newSys(an)
	q.rows = t.cons
	return "{" + an.str(t.val) + " | " + strings.ReplaceAll(q.String(), "\n", ";") + "}"
}
