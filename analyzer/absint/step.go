package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (st *State) reg(v ssa.Value) Val {
	an := st.an
	switch x := v.(type) {
	case *ssa.Const:
		return an.constVal(x)
	case *ssa.Global:
		id, ok := an.globals[x]
		if !ok {
			return TopV{}
		}
		return PtrV{alts: []Loc{{obj: id}}}
	case *ssa.Function:
		return FuncV{alts: []FAlt{{fn: x}}}
	}
	f := st.top()
	if i, ok := f.fi.idx[v]; ok {
		if f.regs[i] == nil {
			return TopV{}
		}
		return f.regs[i]
	}
	return TopV{}
}

func (st *State) set(v ssa.Value, x Val) {
	f := st.wframe()
	f.regs[f.fi.idx[v]] = x
}

func (st *State) intOf(v ssa.Value) Lin {
	if i, ok := st.reg(v).(IntV); ok {
		return i.L
	}
	return st.an.atomOf(v.Name(), v.Type())
}

func (st *State) condOf(v ssa.Value) *Cond {
	if b, ok := st.reg(v).(BoolV); ok {
		return b.C
	}
	return st.an.freshBool(v.Name())
}

// deref checks a pointer and yields one state per target.
func (st *State) deref(v ssa.Value, in ssa.Instruction) []struct {
	st *State
	l  Loc
} {
	type res = struct {
		st *State
		l  Loc
	}
	an := st.an
	p, ok := st.reg(v).(PtrV)
	if !ok {
		an.undecided(in, "pointer %s is not tracked", v.Name())
		return nil
	}
	an.oblig("nil", in, p.null == nonNil, "a nil pointer can be dereferenced")
	if p.null == isNil {
		return nil
	}
	if p.null == maybeNil {
		if !st.refineNil(p, false) {
			return nil
		}
		p.null = nonNil
	}
	if len(p.alts) == 1 {
		return []res{{st, p.alts[0]}}
	}
	var out []res
	for _, l := range p.alts {
		s := st.clone()
		q := p
		q.alts = []Loc{l}
		s.replaceID(p.id, q)
		out = append(out, res{s, l})
	}
	return out
}

func (st *State) instPtr(p PtrV) PtrV { return p }

// inBounds records 0 <= idx < n and continues under it.
func (st *State) inBounds(idx, n Lin, in ssa.Instruction, what string) bool {
	lo := st.sys.entailGE(idx)
	up, ok := n.sub(idx)
	if ok {
		up, ok = up.addC(-1)
	}
	hi := ok && st.sys.entailGE(up)
	if st.an.cfg.Debug == "state" && !(lo && hi) {
		fmt.Fprintf(os.Stderr, "STATE %s: lower %v upper %v: index %s, length %s: %s\n", st.an.prog.InstrPos(in), lo, hi, st.an.linStr(st.sys.norm(idx)), st.an.linStr(st.sys.norm(n)), st)
	}
	st.an.oblig("bounds", in, lo && hi, "the %s may be out of range: index %s, length %s", what, st.an.linStr(st.sys.norm(idx)), st.an.linStr(st.sys.norm(n)))
	if !lo {
		if len(st.withGE(idx)) == 0 {
			return false
		}
	}
	if !hi && ok {
		if len(st.withGE(up)) == 0 {
			return false
		}
	}
	return true
}

// step executes one instruction and returns the resulting states.
func (an *Analysis) step(st *State, in ssa.Instruction) []*State {
	one := []*State{st}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		return one
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		val, arr := an.cellOf(t)
		id := st.alloc(x, "", t, val, arr)
		st.set(x, PtrV{alts: []Loc{{obj: id}}, id: an.newID()})
	case *ssa.BinOp:
		return an.binop(st, x)
	case *ssa.UnOp:
		return an.unop(st, x)
	case *ssa.ChangeType:
		st.set(x, st.reg(x.X))
	case *ssa.ChangeInterface:
		st.set(x, st.reg(x.X))
	case *ssa.MakeInterface:
		st.set(x, IfaceV{alts: []IAlt{{x.X.Type(), st.reg(x.X)}}, id: an.newID()})
	case *ssa.Convert:
		st.set(x, an.convertVal(st, x))
	case *ssa.MultiConvert:
		st.set(x, st.havoc(x.Type(), x.Name()))
	case *ssa.Extract:
		v := st.reg(x.Tuple)
		if t, ok := v.(TupV); ok && x.Index < len(t) {
			st.set(x, t[x.Index])
		} else {
			st.set(x, st.havoc(x.Type(), x.Name()))
		}
	case *ssa.Field:
		v, ok := pathGet(st.reg(x.X), string([]byte{byte(x.Field)}))
		if !ok || v == nil {
			v = st.havoc(x.Type(), x.Name())
		}
		st.set(x, v)
	case *ssa.FieldAddr:
		var out []*State
		for _, r := range st.deref(x.X, in) {
			l := r.l
			l.path += string([]byte{byte(x.Field)})
			r.st.set(x, PtrV{alts: []Loc{l}, id: an.newID()})
			out = append(out, r.st)
		}
		return out
	case *ssa.IndexAddr:
		return an.indexAddr(st, x)
	case *ssa.Index:
		return an.index(st, x)
	case *ssa.Lookup:
		st.set(x, st.havoc(x.Type(), x.Name()))
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			an.undecided(in, "lookup in %s", x.X.Type())
		}
	case *ssa.Slice:
		return an.slice(st, x)
	case *ssa.MakeSlice:
		return an.makeSlice(st, x)
	case *ssa.MakeMap, *ssa.MakeChan:
		st.set(in.(ssa.Value), TopV{})
	case *ssa.MapUpdate:
		an.undecided(in, "maps are not modelled")
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, st.reg(y))
		}
		st.set(x, FuncV{alts: []FAlt{{x.Fn.(*ssa.Function), b}}, id: an.newID()})
	case *ssa.Range:
		st.set(x, TupV{st.reg(x.X), IntV{konst(0)}})
	case *ssa.Next:
		return an.next(st, x)
	case *ssa.Store:
		v := st.reg(x.Val)
		var out []*State
		for _, r := range st.deref(x.Addr, in) {
			r.st.store(r.l, v, in, false)
			if !r.st.sys.bot {
				out = append(out, r.st)
			}
		}
		return out
	case *ssa.TypeAssert:
		return an.typeAssert(st, x)
	case *ssa.Call:
		return an.stepCall(st, x)
	case *ssa.Panic:
		an.oblig("panic", in, false, "a panic can be reached")
		return nil
	default:
		an.undecided(in, "instruction %T is not modelled", in)
		if v, ok := in.(ssa.Value); ok {
			st.set(v, TopV{})
		}
	}
	return one
}

// cellOf gives the initial contents of a variable of type t.
func (an *Analysis) cellOf(t types.Type) (Val, *Arr) {
	if u, ok := t.Underlying().(*types.Array); ok {
		if u.Len() <= 64 {
			f := make([]Val, u.Len())
			for i := range f {
				f[i] = an.zero(u.Elem())
			}
			return nil, &Arr{elem: u.Elem(), n: konst(u.Len()), fixed: f}
		}
		if an.cfg.Zero && isIntType(u.Elem()) {
			return nil, &Arr{elem: u.Elem(), n: konst(u.Len()), zero: true, ver: an.newID()}
		}
		return nil, &Arr{elem: u.Elem(), n: konst(u.Len()), tmpl: &Tmpl{val: an.zero(u.Elem())}, ver: an.newID()}
	}
	return an.zero(t), nil
}

func (an *Analysis) binop(st *State, x *ssa.BinOp) []*State {
	one := []*State{st}
	t := x.X.Type()
	switch {
	case isIntType(t):
		l := st.intOf(x.X)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			st.set(x, BoolV{st.cmp(x.Op, l, st.intOf(x.Y))})
			return one
		}
		r := st.intOf(x.Y)
		switch x.Op {
		case token.SHL, token.SHR:
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				ok := st.sys.entailGE(r)
				an.oblig("shift", x, ok, "the shift count may be negative")
				if !ok && len(st.withGE(r)) == 0 {
					return nil
				}
			}
		case token.QUO, token.REM:
			ok := st.sys.entailNE(r)
			an.oblig("div", x, ok, "the divisor may be zero")
			if !ok {
				st.S().addNE(r)
				if st.sys.bot {
					return nil
				}
			}
		}
		an.checkWord(st, x, l, r)
		st.set(x, IntV{st.intBin(x.Op, l, r, x.Type())})
		return one
	case isStrType(t):
		a, ok1 := st.reg(x.X).(StrV)
		b, ok2 := st.reg(x.Y).(StrV)
		if !ok1 {
			a = st.freshStr("s")
		}
		if !ok2 {
			b = st.freshStr("s")
		}
		if x.Op == token.ADD {
			r := StrV{ascii: a.ascii && b.ascii}
			if a.c != nil && b.c != nil {
				r = strConst(*a.c + *b.c)
			} else if n, ok := a.n.add(b.n); ok {
				r.n = n
			} else {
				r = st.freshStr("cat")
			}
			if a.set != nil && b.set != nil {
				r.set = unionU32(a.set, b.set)
			}
			st.bounds(r.n, 0, maxLen)
			st.set(x, r)
			return one
		}
		if a.c != nil && b.c != nil {
			var res bool
			switch x.Op {
			case token.EQL:
				res = *a.c == *b.c
			case token.NEQ:
				res = *a.c != *b.c
			case token.LSS:
				res = *a.c < *b.c
			case token.LEQ:
				res = *a.c <= *b.c
			case token.GTR:
				res = *a.c > *b.c
			case token.GEQ:
				res = *a.c >= *b.c
			}
			c := condFalse
			if res {
				c = condTrue
			}
			st.set(x, BoolV{c})
			return one
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			// comparing with the empty string is a length test
			for _, p := range [][2]StrV{{a, b}, {b, a}} {
				if p[0].c != nil && *p[0].c == "" {
					op := cEQ
					if x.Op == token.NEQ {
						op = cNE
					}
					st.set(x, BoolV{&Cond{op: op, l: p[1].n}})
					return one
				}
			}
		}
		st.set(x, BoolV{an.freshBool(x.Name())})
		return one
	case isBoolType(t):
		a, b := st.condOf(x.X), st.condOf(x.Y)
		eq := x.Op == token.EQL
		for i := 0; i < 2; i++ {
			switch st.decide(a) {
			case 1:
				if eq {
					st.set(x, BoolV{b})
				} else {
					st.set(x, BoolV{negate(b)})
				}
				return one
			case 0:
				if eq {
					st.set(x, BoolV{negate(b)})
				} else {
					st.set(x, BoolV{b})
				}
				return one
			}
			a, b = b, a
		}
		st.set(x, BoolV{an.freshBool(x.Name())})
		return one
	}
	// references
	a, b := st.reg(x.X), st.reg(x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		for i := 0; i < 2; i++ {
			if n, _, ok := nullOf(b); ok && n == isNil {
				if _, _, ok := nullOf(a); ok {
					op := cNil
					if x.Op == token.NEQ {
						op = cNonNil
					}
					c := &Cond{op: op, v: a}
					switch st.decide(c) {
					case 1:
						c = condTrue
					case 0:
						c = condFalse
					}
					st.set(x, BoolV{c})
					return one
				}
			}
			a, b = b, a
		}
		// an interface comparison panics on uncomparable dynamic types
		if ia, ok := a.(IfaceV); ok {
			for _, al := range ia.alts {
				if !types.Comparable(al.t) {
					an.oblig("panic", x, false, "comparison of uncomparable values")
				}
			}
		}
	}
	st.set(x, st.havoc(x.Type(), x.Name()))
	return one
}

func negate(c *Cond) *Cond {
	switch c.op {
	case cTrue:
		return condFalse
	case cFalse:
		return condTrue
	case cGE:
		if n, ok := c.l.neg(); ok {
			if n, ok = n.addC(-1); ok {
				return &Cond{op: cGE, l: n}
			}
		}
	case cEQ:
		return &Cond{op: cNE, l: c.l}
	case cNE:
		return &Cond{op: cEQ, l: c.l}
	case cAnd:
		return &Cond{op: cOr, a: negate(c.a), b: negate(c.b)}
	case cOr:
		return &Cond{op: cAnd, a: negate(c.a), b: negate(c.b)}
	case cNil:
		return &Cond{op: cNonNil, v: c.v}
	case cNonNil:
		return &Cond{op: cNil, v: c.v}
	}
	return c
}

func (st *State) cmp(op token.Token, a, b Lin) *Cond {
	a, b = st.sys.norm(a), st.sys.norm(b)
	mk := func(x, y Lin, off int64) *Cond { // x - y + off >= 0
		d, ok := x.sub(y)
		if ok {
			d, ok = d.addC(off)
		}
		if !ok {
			return st.an.freshBool("cmp")
		}
		if d.isConst() {
			if d.C >= 0 {
				return condTrue
			}
			return condFalse
		}
		return &Cond{op: cGE, l: d}
	}
	switch op {
	case token.LSS:
		return mk(b, a, -1)
	case token.LEQ:
		return mk(b, a, 0)
	case token.GTR:
		return mk(a, b, -1)
	case token.GEQ:
		return mk(a, b, 0)
	}
	d, ok := a.sub(b)
	if !ok {
		return st.an.freshBool("cmp")
	}
	if d.isConst() {
		if (d.C == 0) == (op == token.EQL) {
			return condTrue
		}
		return condFalse
	}
	if op == token.EQL {
		return &Cond{op: cEQ, l: d}
	}
	return &Cond{op: cNE, l: d}
}

func (an *Analysis) unop(st *State, x *ssa.UnOp) []*State {
	one := []*State{st}
	switch x.Op {
	case token.MUL:
		var out []*State
		for _, r := range st.deref(x.X, x) {
			v := an.read(r.st, r.l, x.Type(), x)
			if v == nil || r.st.sys.bot {
				continue
			}
			r.st.set(x, v)
			out = append(out, r.st)
		}
		return out
	case token.NOT:
		st.set(x, BoolV{negate(st.condOf(x.X))})
	case token.SUB:
		if isIntType(x.Type()) {
			st.set(x, IntV{st.subL(konst(0), st.intOf(x.X), x.Type())})
		} else {
			st.set(x, TopV{})
		}
	case token.XOR:
		if isIntType(x.Type()) {
			lo, _, _ := intRange(x.Type())
			if lo < 0 {
				st.set(x, IntV{st.subL(konst(-1), st.intOf(x.X), x.Type())})
				return one
			}
		}
		st.set(x, st.havoc(x.Type(), x.Name()))
	default:
		an.undecided(x, "operator %s is not modelled", x.Op)
		st.set(x, st.havoc(x.Type(), x.Name()))
	}
	return one
}

// read loads a cell and checks the window of a document.
func (an *Analysis) read(st *State, l Loc, t types.Type, in ssa.Instruction) Val {
	return st.load(l, t, in)
}

// touchDoc is called for every element of a document that is read or whose
// address is taken for reading.
func (an *Analysis) touchDoc(st *State, o *Obj, idx Lin, in ssa.Instruction) []*State {
	a := o.arr
	if an.cfg.Window {
		lo, ok1 := idx.sub(a.lo)
		hi, ok2 := a.hi.sub(idx)
		if ok2 {
			hi, ok2 = hi.addC(-1)
		}
		ok := ok1 && ok2 && st.sys.entailGE(lo) && st.sys.entailGE(hi)
		an.oblig("window", in, ok, "a byte outside the window of the document can be read: index %s, window [%s,%s)",
			an.linStr(st.sys.norm(idx)), an.linStr(st.sys.norm(a.lo)), an.linStr(st.sys.norm(a.hi)))
		if an.cfg.Debug == "state" && !ok {
			trace("STATE window %s: index %s\n%s", an.prog.InstrPos(in), an.linStr(st.sys.norm(idx)), st)
		}
		if !ok && ok1 && ok2 {
			if len(st.withGE(lo)) == 0 || len(st.withGE(hi)) == 0 {
				return nil
			}
		}
	}
	if !an.cfg.Front {
		return []*State{st}
	}
	// the frontier moves when the read is right at it
	d, ok := a.front.sub(idx)
	if !ok {
		return []*State{st}
	}
	n, _ := d.neg()
	if up, ok := d.addC(-1); ok && st.sys.entailGE(up) {
		return []*State{st}
	}
	if up, ok := n.addC(-1); ok && st.sys.entailGE(up) {
		return []*State{st}
	}
	var out []*State
	at := st.clone()
	for _, s := range at.assume(&Cond{op: cEQ, l: d}, true) {
		q := *s.obj(o.id)
		ar := *q.arr
		ar.front, _ = s.sys.norm(idx).addC(1)
		q.arr = &ar
		s.setObj(&q)
		out = append(out, s)
	}
	for _, s := range st.assume(&Cond{op: cNE, l: d}, true) {
		out = append(out, s)
	}
	return out
}

// touchRange is called where n elements of a slice are read at once.
func (an *Analysis) touchRange(st *State, s SliceV, n Lin, in ssa.Instruction) {
	if !an.cfg.Window || st.sys.entailGE(n.negated()) {
		return
	}
	for _, id := range s.alts {
		o := st.obj(id)
		if o == nil || o.arr == nil || !o.arr.doc || !o.arr.track {
			continue
		}
		lo, ok1 := s.off.sub(o.arr.lo)
		end, ok2 := s.off.add(n)
		if ok2 {
			end, ok2 = o.arr.hi.sub(end)
		}
		an.oblig("window", in, ok1 && ok2 && st.sys.entailGE(lo) && st.sys.entailGE(end),
			"bytes outside the window of the document can be read: %s from %s, window [%s,%s)",
			an.linStr(st.sys.norm(n)), an.linStr(st.sys.norm(s.off)), an.linStr(st.sys.norm(o.arr.lo)), an.linStr(st.sys.norm(o.arr.hi)))
	}
}

func (an *Analysis) convertVal(st *State, x *ssa.Convert) Val {
	ft, tt := x.X.Type(), x.Type()
	switch {
	case isIntType(ft) && isIntType(tt):
		return IntV{st.convert(st.intOf(x.X), ft, tt)}
	case isStrType(tt) && isIntType(ft):
		a := an.newAtom("rune.len", 1, 4)
		l := st.intOf(x.X)
		if st.within(l, 0, 127) {
			return StrV{n: konst(1), ascii: true}
		}
		return StrV{n: atomLin(a)}
	case isStrType(tt):
		if s, ok := st.reg(x.X).(SliceV); ok {
			if isByte(x.X.Type().Underlying().(*types.Slice).Elem()) {
				an.touchRange(st, s, s.len, x)
				return StrV{n: s.len}
			}
		}
		return st.freshStr("conv")
	case isStrType(ft):
		if s, ok := st.reg(x.X).(StrV); ok {
			sl, isSl := tt.Underlying().(*types.Slice)
			if isSl {
				n := s.n
				if !isByte(sl.Elem()) && !s.ascii {
					// a character takes at most four bytes
					k := an.newAtom("runes", 0, maxLen)
					if d, ok := s.n.sub(atomLin(k)); ok {
						st.S().addGE(d)
					}
					if d, ok := lincomb(4, atomLin(k), -1, s.n); ok {
						st.S().addGE(d)
					}
					n = atomLin(k)
				}
				arr := &Arr{elem: sl.Elem(), n: n, ver: an.newID()}
				arr.tmpl = &Tmpl{}
				e := an.atomOf("ch", sl.Elem())
				arr.tmpl.val = IntV{e}
				arr.tmpl.atoms = []Atom{e.T[0].A}
				id := st.alloc(x, "", tt, nil, arr)
				return SliceV{alts: []ObjID{id}, off: konst(0), len: n, cap: n, ver: arr.ver, id: an.newID()}
			}
		}
	}
	return st.havoc(tt, x.Name())
}

// arrOf resolves the indexed operand of an IndexAddr.
func (an *Analysis) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	idx := st.intOf(x.Index)
	if isUint64(x.Index.Type()) {
		idx = st.convertIdx(idx, x)
	}
	var out []*State
	switch x.X.Type().Underlying().(type) {
	case *types.Slice:
		s, ok := st.reg(x.X).(SliceV)
		if !ok {
			an.undecided(x, "slice %s is not tracked", x.X.Name())
			return nil
		}
		if !st.inBounds(idx, s.len, x, "index") {
			return nil
		}
		return an.elemPtr(st, x, s, idx)
	case *types.Pointer:
		for _, r := range st.deref(x.X, x) {
			o := r.st.obj(r.l.obj)
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !r.st.inBounds(idx, konst(n), x, "index") {
				continue
			}
			if o != nil && o.arr != nil && r.l.path == "" && !r.l.elem {
				r.st.set(x, PtrV{alts: []Loc{{obj: r.l.obj, elem: true, idx: idx}}, id: an.newID()})
				out = append(out, r.st)
				continue
			}
			i := r.st.sys.norm(idx)
			if i.isConst() && n <= 64 {
				l := r.l
				l.path += string([]byte{byte(i.C)})
				r.st.set(x, PtrV{alts: []Loc{l}, id: an.newID()})
				out = append(out, r.st)
				continue
			}
			if n <= 64 { // an array inside a struct: one state per index
				for k := int64(0); k < n; k++ {
					d, _ := i.addC(-k)
					c := r.st.clone()
					for _, s := range c.assume(&Cond{op: cEQ, l: d}, true) {
						l := r.l
						l.path += string([]byte{byte(k)})
						s.set(x, PtrV{alts: []Loc{l}, id: an.newID()})
						out = append(out, s)
					}
				}
				continue
			}
			an.undecided(x, "array inside a structure")
		}
	default:
		an.undecided(x, "index into %s", x.X.Type())
	}
	return out
}

func (st *State) convertIdx(l Lin, in ssa.Instruction) Lin { return l }

func (an *Analysis) elemPtr(st *State, x *ssa.IndexAddr, s SliceV, idx Lin) []*State {
	pos, ok := s.off.add(idx)
	if !ok {
		pos = atomLin(an.newAtom("pos", negInf, posInf))
	}
	if len(s.alts) == 0 {
		return nil
	}
	var out []*State
	for i, id := range s.alts {
		q := st
		if i < len(s.alts)-1 {
			q = st.clone()
		}
		if len(s.alts) > 1 {
			r := s
			r.alts = []ObjID{id}
			q.replaceID(s.id, r)
		}
		o := q.obj(id)
		if o != nil && o.arr != nil && s.ver != o.arr.ver && !o.arr.doc && o.arr.fixed == nil {
			// an older version of the backing array: use the summary only
			c := *o
			ar := *o.arr
			ar.ents = nil
			c.arr = &ar
			q.setObj(&c)
			q.set(x, PtrV{alts: []Loc{{obj: id, elem: true, idx: atomLin(an.newAtom("old", 0, posInf))}}, id: an.newID()})
			out = append(out, q)
			continue
		}
		qs := []*State{q}
		if o != nil && o.arr != nil && o.arr.doc && (an.cfg.Window || an.cfg.Front) && o.arr.track {
			qs = an.touchDoc(q, o, pos, x)
		} else if an.cfg.Zero && onlyRead(x) {
			qs = q.splitZero(id, pos)
		}
		for _, r := range qs {
			r.set(x, PtrV{alts: []Loc{{obj: id, elem: true, idx: pos}}, id: an.newID()})
			out = append(out, r)
		}
	}
	return out
}

func onlyRead(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		switch r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (an *Analysis) index(st *State, x *ssa.Index) []*State {
	idx := st.intOf(x.Index)
	switch v := st.reg(x.X).(type) {
	case StrV:
		if !st.inBounds(idx, v.n, x, "string index") {
			return nil
		}
		hi := int64(255)
		if v.ascii {
			hi = 127
		}
		i := st.sys.norm(idx)
		if v.c != nil && i.isConst() && i.C >= 0 && i.C < int64(len(*v.c)) {
			st.set(x, IntV{konst(int64((*v.c)[i.C]))})
			return []*State{st}
		}
		lo := int64(0)
		if v.set != nil && len(v.set) > 0 {
			lo, hi = 255, 0
			for _, b := range v.set {
				if int64(b) < lo {
					lo = int64(b)
				}
				if int64(b) > hi {
					hi = int64(b)
				}
			}
		}
		st.set(x, IntV{atomLin(an.newAtom("ch", lo, hi))})
		return []*State{st}
	case ArrayV:
		if !st.inBounds(idx, konst(int64(len(v.f))), x, "index") {
			return nil
		}
		i := st.sys.norm(idx)
		if i.isConst() {
			st.set(x, v.f[i.C])
			return []*State{st}
		}
		var r Val
		for _, e := range v.f {
			r = st.mix(r, e)
		}
		st.set(x, r)
		return []*State{st}
	}
	an.undecided(x, "index into an untracked value")
	st.set(x, st.havoc(x.Type(), x.Name()))
	return []*State{st}
}

func (an *Analysis) slice(st *State, x *ssa.Slice) []*State {
	var off, length, capa Lin
	lo := konst(0)
	if x.Low != nil {
		lo = st.intOf(x.Low)
	}
	if isStrType(x.X.Type()) {
		s, ok := st.reg(x.X).(StrV)
		if !ok {
			s = st.freshStr("s")
		}
		hi := s.n
		if x.High != nil {
			hi = st.intOf(x.High)
		}
		if !st.sliceOK(x, lo, hi, s.n) {
			return nil
		}
		n, ok := hi.sub(lo)
		if !ok {
			n = atomLin(an.newAtom("len", 0, maxLen))
		}
		r := StrV{n: st.sys.norm(n), ascii: s.ascii, set: s.set}
		l, h := st.sys.norm(lo), st.sys.norm(hi)
		if s.c != nil && l.isConst() && h.isConst() && l.C >= 0 && l.C <= h.C && h.C <= int64(len(*s.c)) {
			r = strConst((*s.c)[l.C:h.C])
		}
		st.set(x, r)
		return []*State{st}
	}
	var out []*State
	emit := func(q *State, base SliceV) {
		hi := base.len
		if x.High != nil {
			hi = q.intOf(x.High)
		}
		lim := base.cap
		mx := base.cap
		if x.Max != nil {
			mx = q.intOf(x.Max)
			if !q.leq(x, mx, lim, "slice bound") {
				return
			}
			lim = mx
		}
		if !q.sliceOK(x, lo, hi, lim) {
			return
		}
		var ok1, ok2, ok3 bool
		off, ok1 = base.off.add(lo)
		length, ok2 = hi.sub(lo)
		capa, ok3 = mx.sub(lo)
		if !ok1 || !ok2 || !ok3 {
			an.undecided(x, "slice bounds overflow")
			return
		}
		// elements past the old length come into view
		if d, ok := base.len.sub(hi); x.High != nil && (!ok || !q.sys.entailGE(d)) {
			for _, id := range base.alts {
				if o := q.obj(id); o != nil && o.arr != nil && o.arr.fixed == nil && !o.arr.doc {
					c := *o
					ar := *o.arr
					ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], an.zero(ar.elem))
					c.arr = &ar
					q.setObj(&c)
				}
			}
		}
		r := base
		r.off, r.len, r.cap = off, length, capa
		r.id = an.newID()
		q.set(x, r)
		out = append(out, q)
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		for _, r := range st.deref(x.X, x) {
			o := r.st.obj(r.l.obj)
			if o == nil || o.arr == nil || r.l.path != "" {
				an.undecided(x, "slice of an array inside a structure")
				continue
			}
			emit(r.st, SliceV{alts: []ObjID{r.l.obj}, off: konst(0), len: o.arr.n, cap: o.arr.n, ver: o.arr.ver})
		}
		return out
	}
	s, ok := st.reg(x.X).(SliceV)
	if !ok {
		an.undecided(x, "slice %s is not tracked", x.X.Name())
		return nil
	}
	emit(st, s)
	return out
}

func (st *State) leq(in ssa.Instruction, a, b Lin, what string) bool {
	d, ok := b.sub(a)
	good := ok && st.sys.entailGE(d)
	st.an.oblig("slice", in, good, "the %s may be out of range: %s > %s", what, st.an.linStr(st.sys.norm(a)), st.an.linStr(st.sys.norm(b)))
	if !good && ok {
		return len(st.withGE(d)) > 0
	}
	return true
}

func (st *State) sliceOK(in ssa.Instruction, lo, hi, lim Lin) bool {
	return st.leq(in, konst(0), lo, "low slice bound") && st.leq(in, lo, hi, "slice bounds") && st.leq(in, hi, lim, "high slice bound")
}

func (an *Analysis) makeSlice(st *State, x *ssa.MakeSlice) []*State {
	n, c := st.intOf(x.Len), st.intOf(x.Cap)
	okL := st.leqQuiet(konst(0), n)
	okC := st.leqQuiet(n, c)
	lim := st.leqQuiet(c, konst(maxLen))
	an.oblig("make", x, okL && okC && lim, "make with an unbounded or negative size: len %s, cap %s", an.linStr(st.sys.norm(n)), an.linStr(st.sys.norm(c)))
	st.bounds(n, 0, maxLen)
	if d, ok := c.sub(n); ok {
		st.S().addGE(d)
	}
	st.bounds(c, 0, maxLen)
	if st.sys.bot {
		return nil
	}
	et := x.Type().Underlying().(*types.Slice).Elem()
	arr := &Arr{elem: et, n: c, ver: an.newID()}
	if z := st.sys.norm(n); !(z.isConst() && z.C == 0) {
		if an.cfg.Zero && isIntType(et) {
			arr.zero = true
		} else {
			arr.tmpl = &Tmpl{val: an.zero(et)}
		}
	}
	id := st.alloc(x, "", x.Type(), nil, arr)
	st.set(x, SliceV{alts: []ObjID{id}, off: konst(0), len: n, cap: c, ver: st.obj(id).arr.ver, id: an.newID()})
	return []*State{st}
}

func (st *State) leqQuiet(a, b Lin) bool {
	d, ok := b.sub(a)
	return ok && st.sys.entailGE(d)
}

// next models iteration over a string: the iterator register holds (string,
// position).
func (an *Analysis) next(st *State, x *ssa.Next) []*State {
	it, ok := st.reg(x.Iter).(TupV)
	if !ok || !x.IsString {
		an.undecided(x, "iteration is not modelled")
		return nil
	}
	s, ok := it[0].(StrV)
	if !ok {
		s = st.freshStr("s")
	}
	pos := it[1].(IntV).L
	tt := x.Type().(*types.Tuple)
	rest, ok := s.n.sub(pos)
	if !ok {
		an.undecided(x, "string position")
		return nil
	}
	var out []*State
	done := st.clone()
	for _, q := range done.assume(&Cond{op: cEQ, l: rest}, true) {
		q.set(x, TupV{BoolV{condFalse}, IntV{konst(0)}, IntV{konst(0)}})
		out = append(out, q)
	}
	more, _ := rest.addC(-1)
	for _, q := range st.withGE(more) {
		p := q.sys.norm(pos)
		var ch, np Lin
		if s.c != nil && p.isConst() && p.C >= 0 && p.C < int64(len(*s.c)) {
			for i, r := range (*s.c)[p.C:] {
				if i == 0 {
					ch = konst(int64(r))
					np = konst(p.C + int64(len(string(r))))
				}
				break
			}
		} else if s.ascii || (s.set != nil) {
			lo, hi := int64(0), int64(127)
			if len(s.set) > 0 && s.ascii {
				lo, hi = 127, 0
				for _, b := range s.set {
					if int64(b) < lo {
						lo = int64(b)
					}
					if int64(b) > hi {
						hi = int64(b)
					}
				}
			}
			if !s.ascii {
				hi = 0x10ffff
			}
			ch = atomLin(an.newAtom("ch", lo, hi))
			np, _ = p.addC(1)
			if !s.ascii {
				w := an.newAtom("w", 1, 4)
				np, _ = p.add(atomLin(w))
			}
		} else {
			ch = atomLin(an.newAtom("ch", 0, 0x10ffff))
			w := an.newAtom("w", 1, 4)
			np, _ = p.add(atomLin(w))
		}
		if d, ok := s.n.sub(np); ok {
			q.S().addGE(d)
		}
		if q.sys.bot {
			continue
		}
		f := q.wframe()
		f.regs[f.fi.idx[x.Iter]] = TupV{s, IntV{np}}
		k := Val(IntV{p})
		if !isIntType(tt.At(1).Type()) {
			k = IntV{konst(0)}
		}
		q.set(x, TupV{BoolV{condTrue}, k, IntV{ch}})
		out = append(out, q)
	}
	return out
}

func (an *Analysis) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v, ok := st.reg(x.X).(IfaceV)
	if !ok {
		an.undecided(x, "interface %s is not tracked", x.X.Name())
		return nil
	}
	match := func(t types.Type) bool {
		if i, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			return types.Implements(t, i)
		}
		return types.Identical(t, x.AssertedType)
	}
	var out []*State
	emitOK := func(q *State, a IAlt) {
		var r Val = a.v
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			r = IfaceV{alts: []IAlt{a}, id: an.newID()}
		}
		if x.CommaOk {
			q.set(x, TupV{r, BoolV{condTrue}})
		} else {
			q.set(x, r)
		}
		out = append(out, q)
	}
	emitNo := func(q *State) {
		if x.CommaOk {
			q.set(x, TupV{an.zero(x.AssertedType), BoolV{condFalse}})
			out = append(out, q)
			return
		}
		an.oblig("assertion", x, false, "the type assertion can fail")
	}
	for _, a := range v.alts {
		q := st.clone()
		if len(v.alts) > 1 || v.null == maybeNil {
			n := v
			n.alts = []IAlt{a}
			n.null = nonNil
			q.replaceID(v.id, n)
		}
		if match(a.t) {
			emitOK(q, a)
		} else {
			emitNo(q)
		}
	}
	if v.null != nonNil {
		q := st.clone()
		if q.refineNil(v, true) {
			emitNo(q)
		}
	}
	if !x.CommaOk {
		an.oblig("assertion", x, true, "")
	}
	return out
}

func trace(format string, args ...any) { fmt.Printf(format+"\n", args...) }
