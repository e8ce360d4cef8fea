package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic gives the meaning of the harness functions whose name starts
// with v: the sources of arbitrary values and the statements to decide.
func (an *Analysis) intrinsic(st *State, fn *ssa.Function, args []Val, x *ssa.Call) ([]*State, bool) {
	switch fn.Name() {
	case "vBool", "vInt", "vInt32", "vInt64", "vUint32", "vUint64", "vByte", "vString":
		return setRes(st, x, st.havoc(fn.Signature.Results().At(0).Type(), fn.Name())), true
	case "vBytes", "vDoc":
		id := an.objFor(x, st.top().ctx, "doc", types.NewSlice(types.Typ[types.Byte]))
		if old := st.obj(id); old != nil {
			live, _ := st.mark()
			if live[id] {
				an.undecided(x, "a second document at the same place")
				return nil, true
			}
		}
		n := atomLin(an.newAtom("n", 0, maxLen))
		// the array behind the slice may go on
		full := an.newAtom("cap", 0, maxLen)
		if d, ok := atomLin(full).sub(n); ok {
			st.S().addGE(d)
		}
		a := &Arr{elem: types.Typ[types.Byte], n: atomLin(full), doc: true, lo: konst(0), hi: n, front: konst(0), ver: an.newID()}
		a.track = fn.Name() == "vDoc"
		st.setObj(&Obj{id: id, typ: types.NewSlice(types.Typ[types.Byte]), arr: a})
		s := SliceV{alts: []ObjID{id}, off: konst(0), len: n, cap: atomLin(full), ver: a.ver, id: an.newID(), null: maybeNil}
		return setRes(st, x, s), true
	case "vWindow":
		// vWindow(doc, lo, hi): from here on reads of doc are confined
		s, ok := args[0].(SliceV)
		lo, ok1 := args[1].(IntV)
		hi, ok2 := args[2].(IntV)
		if !ok || !ok1 || !ok2 || len(s.alts) != 1 {
			an.undecided(x, "the document is not tracked")
			return nil, true
		}
		o := *st.obj(s.alts[0])
		a := *o.arr
		a.lo, a.hi, a.front, a.track = st.sys.norm(lo.L), st.sys.norm(hi.L), st.sys.norm(lo.L), true
		o.arr = &a
		st.setObj(&o)
		return setRes(st, x, TupV{}), true
	case "vFront":
		s, ok := args[0].(SliceV)
		if !ok || len(s.alts) != 1 {
			an.undecided(x, "the document is not tracked")
			return nil, true
		}
		return setRes(st, x, IntV{st.obj(s.alts[0]).arr.front}), true
	case "vAssume":
		c := st.boolOf(args[0])
		out := st.assume(c, true)
		for _, s := range out {
			s.set(x, TupV{})
		}
		return out, true
	case "vAssert":
		c := st.boolOf(args[0])
		msg := "assertion"
		if s, ok := args[1].(StrV); ok && s.c != nil {
			msg = *s.c
		}
		ok := st.decide(c) == 1
		an.oblig("assert", x, ok, "%s", msg)
		return setRes(st, x, TupV{}), true
	case "vSnap":
		// the fields of *p, and a watch on the arrays its slices point to
		v, id, ok := st.pointee(args[0])
		if !ok {
			an.undecided(x, "the object is not tracked")
			return nil, true
		}
		_ = id
		for _, f := range v.f {
			if s, ok := f.(SliceV); ok {
				for _, a := range s.alts {
					o := *st.obj(a)
					if o.arr == nil {
						continue
					}
					ar := *o.arr
					ar.dirty = false
					o.arr = &ar
					st.setObj(&o)
				}
			}
		}
		return setRes(st, x, StructV{f: append([]Val(nil), v.f...)}), true
	case "vSame":
		old, ok1 := args[0].(StructV)
		v, id, ok2 := st.pointee(args[1])
		if !ok1 || !ok2 || len(old.f) != len(v.f) {
			an.undecided(x, "the object is not tracked")
			return nil, true
		}
		fields := an.objs[id].typ.Underlying().(*types.Struct)
		for i := range v.f {
			name := fields.Field(i).Name()
			switch a := v.f[i].(type) {
			case IntV:
				b, ok := old.f[i].(IntV)
				same := false
				if ok {
					if d, ok := a.L.sub(b.L); ok {
						same = st.sys.entailEQ(d)
					}
				}
				an.oblig("same:"+name, x, same, "the field %s of the cursor may have changed", name)
			case BoolV:
				b, ok := old.f[i].(BoolV)
				same := ok && (sameCond(a.C, b.C) || st.decide(a.C) >= 0 && st.decide(a.C) == st.decide(b.C))
				an.oblig("same:"+name, x, same, "the field %s of the cursor may have changed", name)
			case SliceV:
				b, ok := old.f[i].(SliceV)
				same := ok && len(a.alts) == len(b.alts)
				for k := range a.alts {
					same = same && a.alts[k] == b.alts[k]
				}
				for _, l := range [][2]Lin{{a.off, b.off}, {a.len, b.len}} {
					d, ok := l[0].sub(l[1])
					same = same && ok && st.sys.entailEQ(d)
				}
				an.oblig("same:"+name, x, same, "the slice %s of the cursor may have changed", name)
				for _, k := range a.alts {
					if o := st.obj(k); o != nil && o.arr != nil {
						an.oblig("same:"+name+"[]", x, !o.arr.dirty, "an element of %s of the cursor may have been written", name)
					}
				}
			}
		}
		return setRes(st, x, TupV{}), true
	case "vToken":
		an.checkToken(st, x, args[0], st.sys.norm(args[1].(IntV).L))
		return setRes(st, x, TupV{}), true
	case "vTag":
		if s, ok := args[0].(StrV); ok && s.c != nil {
			st.sticky += *s.c + ";"
		}
		return setRes(st, x, TupV{}), true
	}
	if strings.HasPrefix(fn.Name(), "vCast") {
		return setRes(st, x, args[0]), true
	}
	if strings.HasPrefix(fn.Name(), "vObj") {
		// an object about whose contents nothing is known
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := an.objFor(x, st.top().ctx, "any", t)
		if st.obj(id) != nil {
			an.undecided(x, "a second object at the same place")
			return nil, true
		}
		v := st.havoc(t, fn.Name())
		if s, ok := v.(StructV); ok {
			for i, f := range s.f {
				u, ok := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
				if _, top := f.(TopV); !ok || !top {
					continue
				}
				aid := an.objFor(x, st.top().ctx, fmt.Sprintf("any%d", i), u)
				n := atomLin(an.newAtom("n", 0, maxLen))
				a := &Arr{elem: u.Elem(), n: n, doc: true, lo: konst(0), hi: n, front: konst(0), ver: an.newID()}
				st.setObj(&Obj{id: aid, typ: u, arr: a})
				s.f[i] = SliceV{alts: []ObjID{aid}, off: konst(0), len: n, cap: n, ver: a.ver, id: an.newID(), null: maybeNil}
			}
		}
		st.setObj(&Obj{id: id, typ: t, val: v})
		return setRes(st, x, PtrV{alts: []Loc{{obj: id}}, id: an.newID(), null: nonNil}), true
	}
	return nil, false
}

func (st *State) boolOf(v Val) *Cond {
	if b, ok := v.(BoolV); ok {
		return b.C
	}
	return st.an.freshBool("b")
}

// checkWord records the obligations about packing fields into a word and
// about arithmetic that may wrap.
func (an *Analysis) checkWord(st *State, x *ssa.BinOp, l, r Lin) {
	if an.cfg.Pack && an.records()[x] {
		switch x.Op {
		case token.OR, token.ADD:
			if shifted(x.X, 0) || shifted(x.Y, 0) {
				_, ok := st.orDisjoint(l, r)
				if !ok {
					ln, rn := st.sys.norm(l), st.sys.norm(r)
					ok = ln.isConst() && rn.isConst() && ln.C&rn.C == 0 || ln.isConst() && ln.C == 0 || rn.isConst() && rn.C == 0
				}
				if x.Op == token.ADD && !ok && !(shifted(x.X, 0) && shifted(x.Y, 0)) {
					// an addition to a shifted value packs only if meant to
					return
				}
				if !ok && an.cfg.Debug == "state" {
					trace("STATE pack %s: %s and %s\n%s", an.prog.InstrPos(x), an.linStr(st.sys.norm(l)), an.linStr(st.sys.norm(r)), st)
				}
				an.oblig("pack", x, ok, "the fields combined here may overlap: %s and %s",
					an.linStr(st.sys.norm(l)), an.linStr(st.sys.norm(r)))
			}
		case token.SHL:
			if !packsInto(x, 0) {
				return
			}
			k := st.sys.norm(r)
			bits := an.widthOf(x.Type())
			ok := false
			if k.isConst() && k.C >= 0 && k.C < bits {
				hi := int64(posInf)
				if bits-k.C < 63 {
					hi = pow2(bits-k.C) - 1
				}
				ok = st.within(l, 0, hi)
			}
			an.oblig("pack", x, ok, "the field shifted here may not fit its place: %s << %s",
				an.linStr(st.sys.norm(l)), an.linStr(k))
		}
	}
	if an.cfg.Wrap {
		switch x.Op {
		case token.MUL, token.SHL, token.ADD:
			if !isCharType(x.Type()) && !an.accumulates(x) {
				return
			}
			var e Lin
			ok := false
			switch x.Op {
			case token.ADD:
				e, ok = l.add(r)
			case token.MUL:
				ln, rn := st.sys.norm(l), st.sys.norm(r)
				if rn.isConst() {
					e, ok = ln.mul(rn.C)
				} else if ln.isConst() {
					e, ok = rn.mul(ln.C)
				}
			case token.SHL:
				if k := st.sys.norm(r); k.isConst() && k.C >= 0 && k.C < 40 {
					e, ok = st.sys.norm(l).mul(pow2(k.C))
				}
			}
			if ok {
				lo, hi, _ := intRange(x.Type())
				ok = st.within(e, lo, hi)
			}
			an.oblig("wrap", x, ok, "the arithmetic on characters can wrap around: %s %s %s", an.linStr(st.sys.norm(l)), x.Op, an.linStr(st.sys.norm(r)))
		}
	}
}

func isCharType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func (an *Analysis) widthOf(t types.Type) int64 {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// shifted reports whether v is a shifted-left value, possibly combined or
// converted.
func shifted(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.SHL {
			// 1<<n is a size, not a field
			if c, ok := x.X.(*ssa.Const); ok && c.Value != nil {
				if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && i == 1 {
					return false
				}
			}
			return true
		}
		if x.Op == token.OR {
			return shifted(x.X, d+1) || shifted(x.Y, d+1)
		}
	case *ssa.Convert:
		return shifted(x.X, d+1)
	case *ssa.ChangeType:
		return shifted(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if shifted(e, d+2) {
				return true
			}
		}
	}
	return false
}

// packsInto reports whether the value of v flows into an OR or an addition
// of shifted values.
func packsInto(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.BinOp:
			if y.Op == token.OR {
				return true
			}
			if y.Op == token.ADD && shifted(y.X, 0) && shifted(y.Y, 0) {
				return true
			}
		case *ssa.Convert:
			if packsInto(y, d+1) {
				return true
			}
		case *ssa.Phi:
			if packsInto(y, d+2) {
				return true
			}
		case *ssa.Return:
			return true
		}
	}
	return false
}

// pointee is the struct a harness pointer refers to.
func (st *State) pointee(v Val) (StructV, ObjID, bool) {
	if i, ok := v.(IfaceV); ok && len(i.alts) == 1 {
		v = i.alts[0].v
	}
	p, ok := v.(PtrV)
	if !ok || len(p.alts) != 1 || p.alts[0].elem || p.alts[0].path != "" {
		return StructV{}, 0, false
	}
	o := st.obj(p.alts[0].obj)
	if o == nil || o.weak {
		return StructV{}, 0, false
	}
	s, ok := o.val.(StructV)
	return s, o.id, ok
}

// checkToken states that the record v appended to the buffer b describes a
// range inside the window of the document.
func (an *Analysis) checkToken(st *State, x ssa.Instruction, b Val, v Lin) {
	p, ok := b.(PtrV)
	if !an.cfg.Pack || !ok || len(p.alts) != 1 || len(st.frames) < 2 {
		return
	}
	wins := windows(st)
	if len(wins) != 1 || !st.inField(tokenField, p.alts[0].obj) {
		return
	}
	// the construct to name is the call that led to the append, out of the
	// helpers that only pack
	in := x
	for i := len(st.frames) - 1; i > 0 && i >= len(st.frames)-2; i-- {
		if c, ok := st.frames[i].call.(ssa.Instruction); ok {
			in = c
		}
	}
	hi, off, ok := st.field(v, 32)
	if !ok {
		an.oblig("token", in, false, "the offset in the record cannot be told from the rest of it: %s", an.linStr(v))
		return
	}
	rest, n, ok := st.field(hi, 20)
	if !ok {
		an.oblig("token", in, false, "the length in the record cannot be told from the rest of it: %s", an.linStr(hi))
		return
	}
	if kind, _, ok := st.field(rest, 8); ok {
		if kind = st.sys.norm(kind); st.within(kind, 13-16, 13-16) || st.within(kind, 13, 13) {
			return // the document itself
		}
		if st.within(kind, 0, 0) || st.within(kind, 2, 3) {
			if _, qn, ok := st.field(n, 11); ok {
				n = qn
			}
		}
	}
	w := wins[0]
	ok = false
	if lo, is := off.sub(w.lo); is && st.sys.entailGE(lo) {
		if e, is := w.hi.sub(off); is {
			if e, is = e.sub(n); is {
				ok = st.sys.entailGE(e)
			}
		}
	}
	if !ok && an.cfg.Debug == "state" {
		trace("STATE token %s: offset %s length %s\n%s", an.prog.InstrPos(in), an.linStr(off), an.linStr(n), st)
	}
	an.oblig("token", in, ok, "the token may reach outside the window: offset %s, length %s", an.linStr(off), an.linStr(n))
}

// inField tells whether a struct has a field of that name that points to obj.
func (st *State) inField(name string, obj ObjID) bool {
	for id, o := range st.heap {
		if o == nil || o.val == nil {
			continue
		}
		v, ok := o.val.(StructV)
		if !ok {
			continue
		}
		t, ok := st.an.objs[id].typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < t.NumFields() && i < len(v.f); i++ {
			if t.Field(i).Name() != name {
				continue
			}
			f := v.f[i]
			if iv, ok := f.(IfaceV); ok && len(iv.alts) == 1 {
				f = iv.alts[0].v
			}
			if p, ok := f.(PtrV); ok {
				for _, a := range p.alts {
					if a.obj == obj {
						return true
					}
				}
			}
		}
	}
	return false
}

// field splits off the low k bits of l, if it can be told what they are.
func (st *State) field(l Lin, k int64) (hi, lo Lin, ok bool) {
	l = st.sys.norm(l)
	h, o := splitPow(l, k)
	for _, c := range []int64{0, 1, -1} {
		h1, ok1 := h.addC(c)
		o1, ok2 := o.addC(-c * pow2(k))
		if ok1 && ok2 && st.within(o1, 0, pow2(k)-1) {
			return h1, o1, true
		}
	}
	return
}
