package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{}

type tri int8

const (
	nonNil tri = iota
	maybeNil
	isNil
)

type ObjID int32

// IntV is an integer; L is its mathematical value.
type IntV struct{ L Lin }

type condOp int8

const (
	cTrue condOp = iota
	cFalse
	cGE
	cEQ
	cNE
	cAnd
	cOr
	cNil
	cNonNil
)

// Cond is a truth value as a formula.
type Cond struct {
	op   condOp
	l    Lin
	a, b *Cond
	v    Val // cNil / cNonNil
}

var condTrue, condFalse = &Cond{op: cTrue}, &Cond{op: cFalse}

type BoolV struct{ C *Cond }

// Loc is the address of a cell: a field path of an object, or of one element
// of an array object.
type Loc struct {
	obj  ObjID
	elem bool
	idx  Lin
	path string // field indices, one byte each
}

type PtrV struct {
	alts []Loc
	null tri
	id   int
}

type SliceV struct {
	alts          []ObjID
	off, len, cap Lin
	null          tri
	ver           int
	id            int
}

type StrV struct {
	n     Lin
	c     *string
	ascii bool
	set   []uint32 // superset of the byte values when known
}

type IAlt struct {
	t types.Type
	v Val
}

type IfaceV struct {
	alts []IAlt
	null tri
	id   int
}

type FAlt struct {
	fn   *ssa.Function
	bind []Val
}

type FuncV struct {
	alts []FAlt
	null tri
	id   int
}

type StructV struct{ f []Val }
type TupV []Val
type TopV struct{}

// ArrayV is an array value held directly (not by reference).
type ArrayV struct{ f []Val }

func isConstInt(v Val) (int64, bool) {
	if i, ok := v.(IntV); ok && i.L.isConst() {
		return i.L.C, true
	}
	return 0, false
}

// ---- heap ----

// Tmpl describes every element of a summarised array: val over its own
// (universally quantified) atoms, under cons.
type Tmpl struct {
	val   Val
	atoms []Atom
	cons  []Row
}

type Ent struct {
	idx Lin
	v   Val
}

type Arr struct {
	elem  types.Type
	n     Lin
	fixed []Val // exact elements of a small array
	tmpl  *Tmpl // nil: no element has been written
	zero  bool  // elements may also be zero, as they were made
	pend  []Val // stored values not yet folded into tmpl
	ents  []Ent // elements known exactly, valid for slices of version ver
	ver   int
	doc   bool // the caller's document: immutable, reads confined to [lo,hi)
	lo    Lin
	hi    Lin
	front Lin // all of [lo,front) has been read
	track bool
	dirty bool // an element has been written since the last snapshot
}

type Obj struct {
	id   ObjID
	typ  types.Type
	weak bool // stands for several concrete objects
	val  Val
	arr  *Arr
}

type objInfo struct {
	name string
	typ  types.Type
}

// ---- state ----

type Frame struct {
	fi   *fnInfo
	regs []Val
	ctx  string
	call ssa.CallInstruction
}

// Def is a pending definition a = op(x, y), resolved to a linear fact when
// the operand ranges allow it.
type Def struct {
	a    Atom
	op   string
	x, y Lin
	k    int64
	t    *types.Basic
}

type State struct {
	an     *Analysis
	sys    *Sys
	sysOwn bool
	heap   []*Obj
	hOwn   bool
	frames []*Frame
	fOwn   bool // top frame owned
	defs   []Def
	sticky string
	bad    bool // poisoned ghost
	visit  []rankMark
}

func (st *State) clone() *State {
	n := *st
	st.sysOwn, st.hOwn, st.fOwn = false, false, false
	n.sysOwn, n.hOwn, n.fOwn = false, false, false
	n.frames = append([]*Frame(nil), st.frames...)
	n.defs = st.defs[:len(st.defs):len(st.defs)]
	return &n
}

// S gives the system for mutation.
func (st *State) S() *Sys {
	if !st.sysOwn {
		st.sys = st.sys.clone()
		st.sysOwn = true
	}
	return st.sys
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) wframe() *Frame {
	i := len(st.frames) - 1
	if !st.fOwn {
		f := *st.frames[i]
		f.regs = append([]Val(nil), f.regs...)
		st.frames[i] = &f
		st.fOwn = true
	}
	return st.frames[i]
}

func (st *State) obj(id ObjID) *Obj {
	if int(id) < len(st.heap) {
		return st.heap[id]
	}
	return nil
}

func (st *State) setObj(o *Obj) {
	if !st.hOwn {
		n := make([]*Obj, len(st.an.objs))
		copy(n, st.heap)
		st.heap = n
		st.hOwn = true
	}
	for int(o.id) >= len(st.heap) {
		st.heap = append(st.heap, nil)
	}
	st.heap[o.id] = o
}

// ---- traversal ----

// mapLins rebuilds v with f applied to every linear form.
func mapLins(v Val, f func(Lin) Lin) Val {
	switch x := v.(type) {
	case IntV:
		return IntV{f(x.L)}
	case BoolV:
		return BoolV{mapCond(x.C, f)}
	case PtrV:
		hit := false
		for _, a := range x.alts {
			if a.elem {
				hit = true
			}
		}
		if !hit {
			return v
		}
		n := append([]Loc(nil), x.alts...)
		for i := range n {
			if n[i].elem {
				n[i].idx = f(n[i].idx)
			}
		}
		x.alts = n
		return x
	case SliceV:
		x.off, x.len, x.cap = f(x.off), f(x.len), f(x.cap)
		return x
	case StrV:
		x.n = f(x.n)
		return x
	case IfaceV:
		n := append([]IAlt(nil), x.alts...)
		for i := range n {
			n[i].v = mapLins(n[i].v, f)
		}
		x.alts = n
		return x
	case FuncV:
		hit := false
		for _, a := range x.alts {
			if len(a.bind) > 0 {
				hit = true
			}
		}
		if !hit {
			return v
		}
		n := append([]FAlt(nil), x.alts...)
		for i := range n {
			n[i].bind = mapVals(n[i].bind, f)
		}
		x.alts = n
		return x
	case StructV:
		return StructV{mapVals(x.f, f)}
	case ArrayV:
		return ArrayV{mapVals(x.f, f)}
	case TupV:
		return TupV(mapVals(x, f))
	}
	return v
}

func mapVals(vs []Val, f func(Lin) Lin) []Val {
	n := make([]Val, len(vs))
	for i := range vs {
		if vs[i] != nil {
			n[i] = mapLins(vs[i], f)
		}
	}
	return n
}

func mapCond(c *Cond, f func(Lin) Lin) *Cond {
	switch c.op {
	case cGE, cEQ, cNE:
		return &Cond{op: c.op, l: f(c.l)}
	case cAnd, cOr:
		return &Cond{op: c.op, a: mapCond(c.a, f), b: mapCond(c.b, f)}
	case cNil, cNonNil:
		return &Cond{op: c.op, v: mapLins(c.v, f)}
	}
	return c
}

// walk visits linear forms and object references of v.
func walk(v Val, lin func(Lin), ref func(ObjID)) {
	switch x := v.(type) {
	case IntV:
		lin(x.L)
	case BoolV:
		walkCond(x.C, lin, ref)
	case PtrV:
		for _, a := range x.alts {
			ref(a.obj)
			if a.elem {
				lin(a.idx)
			}
		}
	case SliceV:
		for _, a := range x.alts {
			ref(a)
		}
		lin(x.off)
		lin(x.len)
		lin(x.cap)
	case StrV:
		lin(x.n)
	case IfaceV:
		for _, a := range x.alts {
			walk(a.v, lin, ref)
		}
	case FuncV:
		for _, a := range x.alts {
			for _, b := range a.bind {
				if b != nil {
					walk(b, lin, ref)
				}
			}
		}
	case StructV:
		for _, f := range x.f {
			if f != nil {
				walk(f, lin, ref)
			}
		}
	case ArrayV:
		for _, f := range x.f {
			if f != nil {
				walk(f, lin, ref)
			}
		}
	case TupV:
		for _, f := range x {
			if f != nil {
				walk(f, lin, ref)
			}
		}
	}
}

func walkCond(c *Cond, lin func(Lin), ref func(ObjID)) {
	switch c.op {
	case cGE, cEQ, cNE:
		lin(c.l)
	case cAnd, cOr:
		walkCond(c.a, lin, ref)
		walkCond(c.b, lin, ref)
	case cNil, cNonNil:
		walk(c.v, lin, ref)
	}
}

// mark computes reachable objects and live atoms.
func (st *State) mark() (objs []bool, atoms map[Atom]bool) {
	objs = make([]bool, len(st.an.objs))
	atoms = map[Atom]bool{}
	var queue []ObjID
	lin := func(l Lin) {
		for _, t := range l.T {
			atoms[t.A] = true
		}
	}
	ref := func(o ObjID) {
		if !objs[o] {
			objs[o] = true
			queue = append(queue, o)
		}
	}
	for _, f := range st.frames {
		for _, r := range f.regs {
			if r != nil {
				walk(r, lin, ref)
			}
		}
	}
	for _, g := range st.an.globalObjs {
		ref(g)
	}
	for _, m := range st.visit {
		for _, l := range m.vals {
			lin(l)
		}
	}
	for len(queue) > 0 {
		id := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		o := st.obj(id)
		if o == nil {
			continue
		}
		if o.val != nil {
			walk(o.val, lin, ref)
		}
		if a := o.arr; a != nil {
			lin(a.n)
			if a.doc {
				lin(a.lo)
				lin(a.hi)
				lin(a.front)
			}
			for _, v := range a.fixed {
				walk(v, lin, ref)
			}
			for _, v := range a.pend {
				walk(v, lin, ref)
			}
			for _, e := range a.ents {
				lin(e.idx)
				walk(e.v, lin, ref)
			}
			if a.tmpl != nil {
				walk(a.tmpl.val, func(Lin) {}, ref)
				own := map[Atom]bool{}
				for _, x := range a.tmpl.atoms {
					own[x] = true
				}
				tl := func(l Lin) {
					for _, t := range l.T {
						if !own[t.A] {
							atoms[t.A] = true
						}
					}
				}
				walk(a.tmpl.val, tl, func(ObjID) {})
				// regular atoms mentioned by cons are not roots by
				// themselves: gc projects them away
			}
		}
	}
	return
}

func (a *Arr) mapLins(f func(Lin) Lin) *Arr {
	n := *a
	n.n = f(a.n)
	if a.doc {
		n.lo, n.hi, n.front = f(a.lo), f(a.hi), f(a.front)
	}
	if a.fixed != nil {
		n.fixed = mapVals(a.fixed, f)
	}
	n.pend = mapVals(a.pend, f)
	n.ents = make([]Ent, len(a.ents))
	for i, e := range a.ents {
		n.ents[i] = Ent{f(e.idx), mapLins(e.v, f)}
	}
	return &n
}

// gc drops unreachable objects, rewrites values with the equalities and
// projects dead atoms out of the system.
func (st *State) gc() {
	objs, _ := st.mark()
	nh := make([]*Obj, len(st.an.objs))
	st.resolveDefs()
	norm := st.sys.norm
	for id := range st.heap {
		o := st.heap[id]
		if o == nil || !objs[id] {
			continue
		}
		if len(st.sys.eqs) > 0 {
			c := *o
			if c.val != nil {
				c.val = mapLins(c.val, norm)
			}
			if c.arr != nil {
				c.arr = c.arr.mapLins(norm)
			}
			o = &c
		}
		nh[id] = o
	}
	st.heap = nh
	st.hOwn = true
	if len(st.sys.eqs) > 0 {
		st.frames = append([]*Frame(nil), st.frames...)
		for i, f := range st.frames {
			c := *f
			c.regs = mapVals(f.regs, norm)
			st.frames[i] = &c
		}
		st.fOwn = true
		st.visit = append([]rankMark(nil), st.visit...)
		for i := range st.visit {
			m := st.visit[i]
			nv := make([]Lin, len(m.vals))
			for k := range m.vals {
				nv[k] = norm(m.vals[k])
			}
			m.vals = nv
			st.visit[i] = m
		}
	}
	_, atoms := st.mark()
	var defs []Def
	for _, d := range st.defs {
		x, y := norm(d.x), norm(d.y)
		keep := atoms[d.a]
		if !keep {
			continue
		}
		d.x, d.y = x, y
		for _, t := range x.T {
			atoms[t.A] = true
		}
		for _, t := range y.T {
			atoms[t.A] = true
		}
		defs = append(defs, d)
	}
	st.defs = defs
	// templates: project their constraints to live atoms
	for id, o := range st.heap {
		if o == nil || o.arr == nil || o.arr.tmpl == nil || len(o.arr.tmpl.cons) == 0 {
			continue
		}
		t := o.arr.tmpl
		need := false
		own := map[Atom]bool{}
		for _, a := range t.atoms {
			own[a] = true
		}
		for _, r := range t.cons {
			for _, x := range r.T {
				if !own[x.A] && (!atoms[x.A] || st.sys.eqOf(x.A) != nil) {
					need = true
				}
			}
		}
		if !need {
			continue
		}
		nt := st.projectTmpl(st.sys, t, func(a Atom) bool { return atoms[a] })
		c := *o
		ar := *o.arr
		ar.tmpl = nt
		c.arr = &ar
		st.heap[id] = &c
	}
	s := st.S()
	s.project(func(a Atom) bool { return atoms[a] })
}

// projectTmpl restricts t's constraints to its own atoms and live ones.
func (st *State) projectTmpl(sys *Sys, t *Tmpl, live func(Atom) bool) *Tmpl {
	p := sys.clone()
	addRows(p, t.cons)
	own := map[Atom]bool{}
	for _, a := range t.atoms {
		own[a] = true
	}
	p.project(func(a Atom) bool { return own[a] || live(a) })
	return tmplFrom(p, t.val, own)
}

// tmplFrom extracts the rows about own atoms.
func tmplFrom(p *Sys, val Val, own map[Atom]bool) *Tmpl {
	n := &Tmpl{}
	n.val = mapLins(val, p.norm)
	used := map[Atom]bool{}
	walk(n.val, func(l Lin) {
		for _, t := range l.T {
			if own[t.A] {
				used[t.A] = true
			}
		}
	}, func(ObjID) {})
	for _, r := range p.rows {
		if len(r.T) > 4 {
			continue
		}
		has, bad := false, false
		for _, t := range r.T {
			if own[t.A] {
				has = true
				if !used[t.A] {
					bad = true
				}
			}
		}
		if has && !bad {
			n.cons = append(n.cons, r)
		}
	}
	for _, e := range p.eqs {
		// equalities whose both sides survive
		x, ok := lincomb(1, atomLin(e.A), -1, e.L)
		if !ok {
			continue
		}
		has, bad := false, false
		for _, t := range x.T {
			if own[t.A] {
				has = true
				if !used[t.A] {
					bad = true
				}
			}
		}
		if has && !bad {
			tt, sg, g := canon(x)
			if x.C%g == 0 {
				n.cons = append(n.cons, Row{tt, hashTerms(tt), -x.C / g * sg, -x.C / g * sg})
			}
		}
	}
	for a := range used {
		n.atoms = append(n.atoms, a)
	}
	sort.Slice(n.atoms, func(i, j int) bool { return n.atoms[i] < n.atoms[j] })
	return n
}

func addRows(s *Sys, rows []Row) {
	for _, r := range rows {
		if r.lo != negInf {
			s.addGE(Lin{-r.lo, r.T})
		}
		if r.hi != posInf {
			n, ok := (Lin{0, r.T}).neg()
			if ok {
				n.C = r.hi
				s.addGE(n)
			}
		}
	}
}

// ---- zero values and types ----

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return negInf, posInf, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf, true
	}
	return 0, 0, false
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr)
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStrType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (an *Analysis) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{konst(0)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{condFalse}
		case u.Info()&types.IsString != 0:
			e := ""
			return StrV{n: konst(0), c: &e, ascii: true}
		case u.Kind() == types.UnsafePointer:
			return TopV{}
		}
		return TopV{}
	case *types.Pointer:
		return PtrV{null: isNil}
	case *types.Slice:
		return SliceV{off: konst(0), len: konst(0), cap: konst(0), null: isNil, ver: -1}
	case *types.Interface:
		return IfaceV{null: isNil}
	case *types.Signature:
		return FuncV{null: isNil}
	case *types.Struct:
		s := StructV{f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = an.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() <= 64 {
			s := ArrayV{f: make([]Val, u.Len())}
			for i := range s.f {
				s.f[i] = an.zero(u.Elem())
			}
			return s
		}
		return TopV{}
	case *types.Tuple:
		s := make(TupV, u.Len())
		for i := range s {
			s[i] = an.zero(u.At(i).Type())
		}
		return s
	}
	return TopV{}
}

func (an *Analysis) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return an.zero(c.Type())
	}
	t := c.Type()
	switch {
	case isBoolType(t):
		if constant.BoolVal(c.Value) {
			return BoolV{condTrue}
		}
		return BoolV{condFalse}
	case isStrType(t):
		return strConst(constant.StringVal(c.Value))
	case isIntType(t):
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return IntV{konst(i)}
		}
		if u, ok := constant.Uint64Val(v); ok {
			// 2^63 and above: value 2*half + odd bit
			return IntV{an.bigConst(u)}
		}
	}
	return TopV{}
}

// bigConst represents a uint64 constant above MaxInt64 as 2^60*a + b where a
// is a pinned atom.
func (an *Analysis) bigConst(u uint64) Lin {
	hi := int64(u >> 60)
	lo := int64(u & (1<<60 - 1))
	a, ok := an.pinned[hi]
	if !ok {
		a = an.newAtom(fmt.Sprintf("const%d", hi), hi, hi)
		an.pinned[hi] = a
	}
	return Lin{lo, []Term{{a, 1 << 60}}}
}

func strConst(s string) StrV {
	ascii := true
	set := []uint32{}
	seen := map[byte]bool{}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
		}
		if !seen[s[i]] {
			seen[s[i]] = true
			set = append(set, uint32(s[i]))
		}
	}
	return StrV{n: konst(int64(len(s))), c: &s, ascii: ascii, set: set}
}

// ---- printing ----

func (an *Analysis) str(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case IntV:
		return an.linStr(x.L)
	case BoolV:
		return an.condStr(x.C)
	case PtrV:
		var p []string
		if x.null != nonNil {
			p = append(p, "nil")
		}
		for _, a := range x.alts {
			s := fmt.Sprintf("&o%d", a.obj)
			if a.elem {
				s += "[" + an.linStr(a.idx) + "]"
			}
			for i := 0; i < len(a.path); i++ {
				s += fmt.Sprintf(".%d", a.path[i])
			}
			p = append(p, s)
		}
		return strings.Join(p, "|")
	case SliceV:
		n := ""
		if x.null != nonNil {
			n = "nil?"
			if x.null == isNil {
				n = "nil"
			}
		}
		return fmt.Sprintf("%s%v[%s;len %s;cap %s;v%d]", n, x.alts, an.linStr(x.off), an.linStr(x.len), an.linStr(x.cap), x.ver)
	case StrV:
		if x.c != nil {
			return fmt.Sprintf("%q", *x.c)
		}
		return "str(" + an.linStr(x.n) + ")"
	case IfaceV:
		var p []string
		if x.null != nonNil {
			p = append(p, "nil")
		}
		for _, a := range x.alts {
			p = append(p, types.TypeString(a.t, func(p *types.Package) string { return p.Name() })+":"+an.str(a.v))
		}
		return "i(" + strings.Join(p, "|") + ")"
	case FuncV:
		var p []string
		if x.null != nonNil {
			p = append(p, "nil")
		}
		for _, a := range x.alts {
			p = append(p, a.fn.Name())
		}
		return "f(" + strings.Join(p, "|") + ")"
	case StructV:
		var p []string
		for _, f := range x.f {
			p = append(p, an.str(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case ArrayV:
		return fmt.Sprintf("[%d]arr", len(x.f))
	case TupV:
		var p []string
		for _, f := range x {
			p = append(p, an.str(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case TopV:
		return "T"
	}
	return fmt.Sprintf("%T", v)
}

func (an *Analysis) condStr(c *Cond) string {
	switch c.op {
	case cTrue:
		return "true"
	case cFalse:
		return "false"
	case cGE:
		return an.linStr(c.l) + ">=0"
	case cEQ:
		return an.linStr(c.l) + "==0"
	case cNE:
		return an.linStr(c.l) + "!=0"
	case cAnd:
		return "(" + an.condStr(c.a) + "&&" + an.condStr(c.b) + ")"
	case cOr:
		return "(" + an.condStr(c.a) + "||" + an.condStr(c.b) + ")"
	case cNil:
		return "nil(" + an.str(c.v) + ")"
	case cNonNil:
		return "nonnil(" + an.str(c.v) + ")"
	}
	return "?"
}

func (s *Sys) String() string {
	var b strings.Builder
	if s.bot {
		b.WriteString("BOT ")
	}
	for _, e := range s.eqs {
		fmt.Fprintf(&b, "  %s = %s\n", s.an.linStr(atomLin(e.A)), s.an.linStr(e.L))
	}
	for _, r := range s.rows {
		lo, hi := "", ""
		if r.lo != negInf {
			lo = fmt.Sprintf("%d <= ", r.lo)
		}
		if r.hi != posInf {
			hi = fmt.Sprintf(" <= %d", r.hi)
		}
		fmt.Fprintf(&b, "  %s%s%s\n", lo, s.an.linStr(Lin{0, r.T}), hi)
	}
	for _, n := range s.ne {
		fmt.Fprintf(&b, "  %s != 0\n", s.an.linStr(n))
	}
	return b.String()
}

func (st *State) String() string {
	var b strings.Builder
	an := st.an
	fmt.Fprintf(&b, "sticky %q\n", st.sticky)
	for i, f := range st.frames {
		fmt.Fprintf(&b, "frame %d %s\n", i, f.fi.fn)
		for k, r := range f.regs {
			if r != nil {
				fmt.Fprintf(&b, "   %s = %s\n", f.fi.vals[k].Name(), an.str(r))
			}
		}
	}
	objs, _ := st.mark()
	for id, o := range st.heap {
		if o == nil || !objs[id] {
			continue
		}
		w := ""
		if o.weak {
			w = " weak"
		}
		fmt.Fprintf(&b, " o%d %s%s: ", id, an.objs[id].name, w)
		if o.val != nil {
			if sv, ok := o.val.(StructV); ok {
				u, _ := o.typ.Underlying().(*types.Struct)
				for i, f := range sv.f {
					nm := fmt.Sprint(i)
					if u != nil && i < u.NumFields() {
						nm = u.Field(i).Name()
					}
					fmt.Fprintf(&b, "%s=%s, ", nm, an.str(f))
				}
			} else {
				b.WriteString(an.str(o.val))
			}
		}
		if a := o.arr; a != nil {
			fmt.Fprintf(&b, "arr n=%s ver=%d fixed=%d", an.linStr(a.n), a.ver, len(a.fixed))
			if a.doc {
				fmt.Fprintf(&b, " doc[%s,%s) front %s", an.linStr(a.lo), an.linStr(a.hi), an.linStr(a.front))
			}
			if a.tmpl != nil {
				fmt.Fprintf(&b, " tmpl %s", an.str(a.tmpl.val))
				s := &Sys{an: an, rows: a.tmpl.cons}
				b.WriteString(" with\n" + s.String())
			}
			for _, p := range a.pend {
				fmt.Fprintf(&b, " pend %s", an.str(p))
			}
			for _, e := range a.ents {
				fmt.Fprintf(&b, " [%s]=%s", an.linStr(e.idx), an.str(e.v))
			}
		}
		b.WriteString("\n")
	}
	for _, d := range st.defs {
		fmt.Fprintf(&b, " def %s = %s(%s, %s, %d)\n", an.linStr(atomLin(d.a)), d.op, an.linStr(d.x), an.linStr(d.y), d.k)
	}
	b.WriteString(st.sys.String())
	return b.String()
}
