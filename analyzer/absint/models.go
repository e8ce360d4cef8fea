package absint

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

func (an *Analysis) stepCall(st *State, x *ssa.Call) []*State {
	com := x.Common()
	var args []Val
	for _, a := range com.Args {
		args = append(args, st.reg(a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return an.builtin(st, x, b, args)
	}
	if live, ok := st.top().fi.after[x]; ok {
		_ = live
	}
	if com.IsInvoke() {
		v, ok := st.reg(com.Value).(IfaceV)
		if !ok {
			an.undecided(x, "interface %s is not tracked", com.Value.Name())
			return nil
		}
		an.oblig("nil", x, v.null == nonNil, "a method of a nil interface can be called")
		if v.null == isNil {
			return nil
		}
		if v.null == maybeNil {
			if !st.refineNil(v, false) {
				return nil
			}
			v.null = nonNil
		}
		var out []*State
		for i, a := range v.alts {
			q := st
			if i < len(v.alts)-1 {
				q = st.clone()
			}
			if len(v.alts) > 1 {
				n := v
				n.alts = []IAlt{a}
				q.replaceID(v.id, n)
			}
			fn := an.prog.SSA.LookupMethod(a.t, com.Method.Pkg(), com.Method.Name())
			if fn == nil {
				an.undecided(x, "no method %s on %s", com.Method.Name(), a.t)
				continue
			}
			out = append(out, an.enter(q, fn, append([]Val{a.v}, args...), nil, x)...)
		}
		return an.after(st, x, out)
	}
	if fn := com.StaticCallee(); fn != nil {
		var binds []Val
		if f, ok := st.reg(com.Value).(FuncV); ok && len(f.alts) == 1 && f.alts[0].fn == fn {
			binds = f.alts[0].bind
		}
		return an.after(st, x, an.enter(st, fn, args, binds, x))
	}
	f, ok := st.reg(com.Value).(FuncV)
	if !ok {
		an.undecided(x, "function value %s is not tracked", com.Value.Name())
		return nil
	}
	an.oblig("nil", x, f.null == nonNil, "a nil function can be called")
	if f.null == isNil {
		return nil
	}
	if f.null == maybeNil && !st.refineNil(f, false) {
		return nil
	}
	var out []*State
	for i, a := range f.alts {
		q := st
		if i < len(f.alts)-1 {
			q = st.clone()
		}
		if len(f.alts) > 1 {
			n := f
			n.null = nonNil
			n.alts = []FAlt{a}
			q.replaceID(f.id, n)
		}
		out = append(out, an.enter(q, a.fn, args, a.bind, x)...)
	}
	return an.after(st, x, out)
}

// after kills what the call made dead and merges.
func (an *Analysis) after(_ *State, x *ssa.Call, out []*State) []*State {
	if len(out) == 0 {
		return nil
	}
	fi := out[0].top().fi
	live := append([]bool(nil), fi.after[x]...)
	if refs := x.Referrers(); refs != nil && len(*refs) > 0 {
		live[fi.idx[x]] = true
	}
	for _, s := range out {
		killDead(s, live)
	}
	if len(out) > 1 {
		out = an.mergeStates(out, false)
	}
	return out
}

func (an *Analysis) enter(st *State, fn *ssa.Function, args, binds []Val, x *ssa.Call) []*State {
	if core.FuncPkg(fn) == an.harness && strings.HasPrefix(fn.Name(), "v") && fn.Parent() == nil {
		if out, ok := an.intrinsic(st, fn, args, x); ok {
			return out
		}
	}
	if strings.HasPrefix(fn.Name(), "call_") && core.FuncPkg(fn) == an.harness {
		if fn = an.unexported(fn); fn == nil {
			return nil
		}
	}
	if an.cfg.Subst && len(st.frames) > 0 && core.FuncPkg(st.top().fi.fn) != an.harness {
		if sub := an.substitute(fn); sub != nil {
			fn = sub
		}
	}
	if ownFn(an, fn) || (fn.Blocks != nil && fn.Synthetic != "") {
		// registers that die with the call need not travel along
		fi := st.top().fi
		if live, ok := fi.after[x]; ok {
			killDead(st, live)
		}
		return an.call(st, fn, args, binds, x)
	}
	return an.external(st, fn, args, x)
}

// unexported is the library function a harness function is named after, if
// there still is one.
func (an *Analysis) unexported(stub *ssa.Function) *ssa.Function {
	for _, fn := range an.prog.Funcs {
		pkg := core.FuncPkg(fn)
		if fn.Parent() != nil || fn.Synthetic != "" || pkg == an.harness || "call_"+funcName(fn) != stub.Name() || len(fn.Params) != len(stub.Params) {
			continue
		}
		for i, p := range fn.Params {
			if !types.Identical(p.Type(), stub.Params[i].Type()) {
				return nil
			}
		}
		if types.Identical(fn.Signature.Results(), stub.Signature.Results()) {
			return fn
		}
	}
	return nil
}

// funcName is <package>_<type>_<method>, or <package>_<function>.
func funcName(fn *ssa.Function) string {
	name := core.FuncPkg(fn).Name() + "_"
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok {
			return ""
		}
		name += n.Obj().Name() + "_"
	}
	return name + fn.Name()
}

// substitute is the harness function standing in for fn, if there is one.
func (an *Analysis) substitute(fn *ssa.Function) *ssa.Function {
	pkg := core.FuncPkg(fn)
	if pkg == nil || pkg == an.harness || fn.Parent() != nil {
		return nil
	}
	hp := an.prog.SSA.Package(an.harness)
	if hp == nil {
		return nil
	}
	name := funcName(fn)
	if name == "" {
		return nil
	}
	return hp.Func("sub_" + name)
}

func setRes(st *State, x *ssa.Call, v Val) []*State {
	st.set(x, v)
	return []*State{st}
}

func (an *Analysis) builtin(st *State, x *ssa.Call, b *ssa.Builtin, args []Val) []*State {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if b.Name() == "len" {
				return setRes(st, x, IntV{v.len})
			}
			return setRes(st, x, IntV{v.cap})
		case StrV:
			return setRes(st, x, IntV{v.n})
		case ArrayV:
			return setRes(st, x, IntV{konst(int64(len(v.f)))})
		case PtrV:
			if pt, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return setRes(st, x, IntV{konst(at.Len())})
				}
			}
		}
		return setRes(st, x, IntV{atomLin(an.newAtom("len", 0, maxLen))})
	case "append":
		return an.appendTo(st, x, args)
	case "copy":
		d, ok1 := args[0].(SliceV)
		if !ok1 {
			an.undecided(x, "copy into an untracked slice")
			return nil
		}
		var sl Lin
		switch s := args[1].(type) {
		case SliceV:
			sl = s.len
			for _, did := range d.alts {
				for _, sid := range s.alts {
					st.copyElems(did, sid)
				}
				if len(s.alts) > 0 {
					st.dropEnts(did)
				}
			}
		case StrV:
			sl = s.n
			for _, did := range d.alts {
				if o := st.obj(did); o != nil && o.arr != nil {
					st.addPend(did, IntV{atomLin(an.newAtom("ch", 0, 255))})
					st.dropEnts(did)
				}
			}
		default:
			an.undecided(x, "copy from an untracked slice")
			return nil
		}
		n := an.newAtom("copied", 0, maxLen)
		if e, ok := sl.sub(atomLin(n)); ok {
			st.S().addGE(e)
		}
		if e, ok := d.len.sub(atomLin(n)); ok {
			st.S().addGE(e)
		}
		if src, ok := args[1].(SliceV); ok {
			an.touchRange(st, src, atomLin(n), x)
		}
		return setRes(st, x, IntV{atomLin(n)})
	case "min", "max":
		if isIntType(x.Type()) {
			return an.minmax(st, x, b.Name() == "min", args)
		}
		return setRes(st, x, st.havoc(x.Type(), b.Name()))
	case "print", "println", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			p, ok := args[0].(PtrV)
			if ok {
				an.oblig("nil", x, p.null == nonNil, "a nil pointer can be dereferenced")
				if p.null == isNil {
					return nil
				}
			}
			return setRes(st, x, args[0])
		}
		return []*State{st}
	case "clear", "delete":
		an.undecided(x, "%s is not modelled", b.Name())
		return []*State{st}
	}
	an.undecided(x, "%s is not modelled", b.Name())
	st.set(x, TopV{})
	return []*State{st}
}

func (an *Analysis) minmax(st *State, x *ssa.Call, isMin bool, args []Val) []*State {
	cur := []*State{st}
	for i := range args {
		l := konst(0)
		if iv, ok := args[i].(IntV); ok {
			l = iv.L
		}
		if i == 0 {
			st.set(x, IntV{l})
			continue
		}
		var next []*State
		for _, s := range cur {
			m := s.reg(x).(IntV).L
			d, ok := l.sub(m) // l - m
			if !isMin {
				d, ok = m.sub(l)
			}
			if !ok {
				s.set(x, IntV{an.atomOf("min", x.Type())})
				next = append(next, s)
				continue
			}
			c := &Cond{op: cGE, l: d} // keep m
			o := s.clone()
			next = append(next, s.assume(c, true)...)
			for _, q := range o.assume(c, false) {
				q.set(x, IntV{l})
				next = append(next, q)
			}
		}
		cur = next
	}
	return cur
}

func (st *State) dropEnts(id ObjID) {
	o := st.obj(id)
	if o == nil || o.arr == nil || len(o.arr.ents) == 0 {
		return
	}
	c := *o
	ar := *o.arr
	ar.ents = nil
	c.arr = &ar
	st.setObj(&c)
}

func (st *State) addPend(id ObjID, v Val) {
	o := st.obj(id)
	if o == nil || o.arr == nil {
		return
	}
	c := *o
	ar := *o.arr
	c.arr = &ar
	if ar.fixed != nil {
		f := make([]Val, len(ar.fixed))
		for i := range f {
			f[i] = st.mix(ar.fixed[i], v)
		}
		ar.fixed = f
		st.setObj(&c)
		return
	}
	ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], v)
	st.setObj(&c)
}

// copyElems makes every element of src a possible element of dst.
func (st *State) copyElems(dst, src ObjID) {
	if dst == src {
		return
	}
	s := st.obj(src)
	if s == nil || s.arr == nil {
		return
	}
	if s.arr.fixed != nil {
		for _, v := range s.arr.fixed {
			st.addPend(dst, v)
		}
		return
	}
	if s.arr.doc && s.arr.tmpl == nil {
		st.addPend(dst, IntV{atomLin(st.an.newAtom("byte", 0, 255))})
		return
	}
	if len(s.arr.pend) > 0 {
		s = st.folded(s)
		st.setObj(s)
	}
	if s.arr.tmpl != nil {
		st.addPend(dst, st.instantiate(s.arr.tmpl))
	}
	if s.arr.zero {
		st.addPend(dst, IntV{konst(0)})
	}
}

// appendTo models append(s, t...). The result lives in the array object of s
// (or, for a nil s, in a new object of the call site) under a new version.
func (an *Analysis) appendTo(st *State, x *ssa.Call, args []Val) []*State {
	s, ok := args[0].(SliceV)
	if !ok {
		an.undecided(x, "append to an untracked slice")
		return nil
	}
	et := x.Type().Underlying().(*types.Slice).Elem()
	var tl Lin
	var vals []Val
	var from []ObjID
	switch t := args[1].(type) {
	case SliceV:
		tl = st.sys.norm(t.len)
		an.touchRange(st, t, tl, x)
		from = t.alts
		// the usual case: a small literal
		if len(t.alts) == 1 && tl.isConst() && tl.C <= 8 {
			o := st.obj(t.alts[0])
			off := st.sys.norm(t.off)
			if o != nil && !o.weak && o.arr != nil && o.arr.fixed != nil && off.isConst() && off.C+tl.C <= int64(len(o.arr.fixed)) {
				vals = o.arr.fixed[off.C : off.C+tl.C]
				from = nil
			}
		}
	case StrV:
		tl = t.n
		vals = nil
	default:
		an.undecided(x, "append of an untracked slice")
		return nil
	}
	nl, ok := s.len.add(tl)
	if !ok {
		an.undecided(x, "length overflow")
		return nil
	}
	// nothing appended to a nil slice leaves it nil
	ids := s.alts
	if len(ids) == 0 || s.null != nonNil {
		arr := &Arr{elem: et, n: nl, ver: an.newID()}
		id := st.alloc(x, "", x.Type(), nil, arr)
		ids = unionObjs(ids, []ObjID{id})
	}
	ver := an.newID()
	if len(ids) > 1 {
		ver = -1
	}
	for _, id := range ids {
		o := st.obj(id)
		if o == nil || o.arr == nil {
			an.undecided(x, "append to an unknown array")
			return nil
		}
		if o.arr.fixed != nil { // becomes a summarised array
			c := *o
			ar := *o.arr
			ar.ents = nil
			for i, v := range ar.fixed {
				ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], v)
				if !o.weak && len(ar.fixed) <= 8 {
					ar.ents = append(ar.ents, Ent{konst(int64(i)), v})
				}
			}
			ar.fixed = nil
			ar.ver = s.ver
			c.arr = &ar
			st.setObj(&c)
			o = st.obj(id)
		}
		if o.arr.doc {
			an.undecided(x, "append to a caller's slice")
			return nil
		}
		same := len(ids) == 1 && o.arr.ver == s.ver && !o.weak
		c := *o
		ar := *o.arr
		c.arr = &ar
		if same {
			// elements below the old length stay where they are
			end, _ := s.off.add(s.len)
			var keep []Ent
			for _, e := range ar.ents {
				if d, ok := end.sub(e.idx); ok {
					if d, ok = d.addC(-1); ok && st.sys.entailGE(d) {
						keep = append(keep, e)
					}
				}
			}
			ar.ents = keep
			ar.ver = ver
		} else {
			ar.ents = nil
			ar.ver = an.newID()
			ver = -1
		}
		for i, v := range vals {
			ar.pend = append(ar.pend[:len(ar.pend):len(ar.pend)], v)
			if same {
				if p, ok := s.off.add(s.len); ok {
					if p, ok = p.addC(int64(i)); ok && len(vals) <= 4 {
						ar.ents = append(ar.ents[:len(ar.ents):len(ar.ents)], Ent{p, v})
					}
				}
			}
		}
		ar.n = st.mixLin(ar.n, nl)
		st.setObj(&c)
		for _, f := range from {
			st.copyElems(id, f)
		}
		if _, isStr := args[1].(StrV); isStr {
			st.addPend(id, IntV{atomLin(an.newAtom("ch", 0, 255))})
		}
		if o := st.obj(id); len(o.arr.pend) > 4 {
			st.setObj(st.folded(o))
		}
	}
	null := nonNil
	if z := st.sys.norm(tl); !(z.isConst() && z.C > 0) {
		null = s.null
		if null == isNil {
			null = maybeNil
		}
	}
	capa := an.newAtom("cap", 0, maxLen)
	if d, ok := atomLin(capa).sub(nl); ok {
		st.S().addGE(d)
	}
	st.bounds(nl, negInf, maxLen)
	if st.sys.bot {
		return nil
	}
	st.set(x, SliceV{alts: ids, off: s.off, len: nl, cap: atomLin(capa), null: null, ver: ver, id: an.newID()})
	return []*State{st}
}

// purePkgs are packages whose functions neither write to their arguments nor
// panic on any of them, unless listed in partial.
var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "errors": true, "unicode": true,
	"unicode/utf8": true, "math/bits": true, "math": true, "bytes": true, "slices": true}

var partial = map[string]bool{"bytes.Repeat": true, "(*bytes.Buffer).Truncate": true, "bytes.NewBuffer": false, "math/bits.Div64": true, "math/bits.Div": true, "math/bits.Div32": true}

func (an *Analysis) external(st *State, fn *ssa.Function, args []Val, x *ssa.Call) []*State {
	name := fn.String()
	switch name {
	case "errors.As":
		return an.errorsAs(st, args, x)
	case "errors.Is":
		return setRes(st, x, BoolV{an.freshBool("is")})
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return setRes(st, x, st.freshStr("sprintf"))
	case "strings.ToUpper", "strings.ToLower":
		if s, ok := args[0].(StrV); ok {
			if s.c != nil {
				f := strings.ToUpper
				if name == "strings.ToLower" {
					f = strings.ToLower
				}
				return setRes(st, x, strConst(f(*s.c)))
			}
			if s.ascii {
				return setRes(st, x, StrV{n: s.n, ascii: true})
			}
			r := st.freshStr("upper")
			return setRes(st, x, r)
		}
	case "errors.New", "fmt.Errorf":
		t := an.extErr()
		id := st.alloc(x, "", t, StructV{}, nil)
		return setRes(st, x, IfaceV{alts: []IAlt{{types.NewPointer(t), PtrV{alts: []Loc{{obj: id}}, id: an.newID()}}}, id: an.newID()})
	}
	for _, a := range args {
		if sl, ok := a.(SliceV); ok {
			an.touchRange(st, sl, sl.len, x)
		}
	}
	pk := core.FuncPkg(fn)
	if pk == nil {
		an.undecided(x, "%s is not modelled", name)
		return nil
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return []*State{st}
	}
	if !purePkgs[pk.Path()] || partial[name] {
		an.undecided(x, "the effect of %s is not known", name)
		return nil
	}
	if recv := fn.Signature.Recv(); recv != nil && len(args) > 0 {
		if p, ok := args[0].(PtrV); ok {
			an.oblig("nil", x, p.null == nonNil, "a method of a nil pointer can be called")
		}
	}
	if pk.Path() == "slices" {
		an.undecided(x, "the effect of %s is not known", name)
	}
	switch name {
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "strings.Repeat":
		n, ok := args[1].(IntV)
		good := ok && st.sys.entailGE(n.L)
		if m, ok2 := konst(maxLen).sub(n.L); good && ok2 {
			good = st.sys.entailGE(m)
		}
		if f := name == "strings.Repeat"; f && good {
			sv, ok := args[0].(StrV)
			lim, _ := konst(1 << 31).sub(n.L)
			good = ok && sv.n.isConst() && sv.n.C <= 1<<16 && st.sys.entailGE(lim)
		}
		an.oblig("arg", x, good, "%s may be called with a negative or too large count", name)
		if ok {
			st.S().addGE(n.L)
			if st.sys.bot {
				return nil
			}
		}
	}
	v := st.havoc(fn.Signature.Results(), fn.Name())
	if t, ok := v.(TupV); ok && len(t) == 1 {
		v = t[0]
	}
	// sizes and positions are never beyond the address space
	st.factsOf(v)
	v = an.extRefs(st, x, v, fn.Signature.Results())
	if iv, ok := v.(IntV); ok && (pk.Path() == "bytes" || pk.Path() == "strings") && strings.Contains(fn.Name(), "Index") && fn.Signature.Recv() == nil {
		// a position in the first argument, or -1
		if n, ok := lenOf(args[0]); ok {
			if d, ok := iv.L.addC(1); ok {
				st.S().addGE(d)
			}
			if strings.Contains(fn.Name(), "Any") || strings.Contains(fn.Name(), "Func") || strings.Contains(fn.Name(), "Byte") || strings.Contains(fn.Name(), "Rune") {
				n, _ = n.addC(-1)
			}
			if d, ok := n.sub(iv.L); ok {
				st.S().addGE(d)
			}
		}
	}
	return setRes(st, x, v)
}

// extRefs replaces unknown references in results of external functions by
// nothing that can be followed; error results may or may not be nil.
func (an *Analysis) extRefs(st *State, x *ssa.Call, v Val, t types.Type) Val {
	tup, ok := v.(TupV)
	tt, ok2 := t.(*types.Tuple)
	if ok && ok2 {
		for i := range tup {
			tup[i] = an.extRefs(st, x, tup[i], tt.At(i).Type())
		}
		return tup
	}
	if ok2 && tt.Len() == 1 {
		t = tt.At(0).Type()
	}
	if _, top := v.(TopV); top {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 {
				// a new slice of any contents
				n := atomLin(an.newAtom("n", 0, maxLen))
				arr := &Arr{elem: sl.Elem(), n: n, ver: an.newID()}
				id := st.alloc(x, "ext", t, nil, arr)
				st.addPend(id, st.havoc(sl.Elem(), "el"))
				st.setObj(st.folded(st.obj(id)))
				return SliceV{alts: []ObjID{id}, off: konst(0), len: n, cap: n, null: maybeNil, ver: st.obj(id).arr.ver, id: an.newID()}
			}
		}
	}
	if _, top := v.(TopV); top && types.Identical(t, types.Universe.Lookup("error").Type()) {
		et := an.extErr()
		id := an.objFor(nil, "", "external error", et)
		if st.obj(id) == nil {
			st.setObj(&Obj{id: id, typ: et, weak: true, val: StructV{}})
		}
		return IfaceV{alts: []IAlt{{types.NewPointer(et), PtrV{alts: []Loc{{obj: id}}}}}, null: maybeNil, id: an.newID()}
	}
	return v
}

func (an *Analysis) extErr() types.Type {
	if an.errObj == nil {
		pk := types.NewPackage("external", "external")
		tn := types.NewTypeName(0, pk, "Error", nil)
		an.errObj = types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	}
	return an.errObj
}

// errorsAs follows the Unwrap chain of err.
func (an *Analysis) errorsAs(st *State, args []Val, x *ssa.Call) []*State {
	e, ok := args[0].(IfaceV)
	if !ok {
		an.undecided(x, "errors.As of an untracked error")
		return nil
	}
	tgt, ok := args[1].(IfaceV)
	if !ok || len(tgt.alts) != 1 {
		an.undecided(x, "errors.As with an untracked target")
		return nil
	}
	pt, ok := tgt.alts[0].t.Underlying().(*types.Pointer)
	p, ok2 := tgt.alts[0].v.(PtrV)
	if !ok || !ok2 || len(p.alts) != 1 || p.null != nonNil {
		an.undecided(x, "errors.As with an untracked target")
		return nil
	}
	want := pt.Elem()
	var out []*State
	if e.null != nonNil {
		q := st.clone()
		if q.refineNil(e, true) {
			q.set(x, BoolV{condFalse})
			out = append(out, q)
		}
	}
	if e.null == isNil {
		return out
	}
	for _, a := range e.alts {
		q := st.clone()
		if len(e.alts) > 1 || e.null == maybeNil {
			n := e
			n.alts = []IAlt{a}
			n.null = nonNil
			q.replaceID(e.id, n)
		}
		out = append(out, an.asChain(q, a, want, p.alts[0], x, 0)...)
	}
	return out
}

func (an *Analysis) asChain(st *State, a IAlt, want types.Type, dst Loc, x *ssa.Call, depth int) []*State {
	hit := types.Identical(a.t, want)
	if i, ok := want.Underlying().(*types.Interface); ok {
		hit = types.Implements(a.t, i)
	}
	if hit {
		var v Val = a.v
		if _, ok := want.Underlying().(*types.Interface); ok {
			v = IfaceV{alts: []IAlt{a}, id: an.newID()}
		}
		st.store(dst, v, x, false)
		st.set(x, BoolV{condTrue})
		return []*State{st}
	}
	m := an.prog.SSA.LookupMethod(a.t, nil, "Unwrap")
	if m == nil || !ownFn(an, m) {
		st.set(x, BoolV{condFalse})
		return []*State{st}
	}
	if depth > 6 {
		// give both answers, with an unknown instance
		an.undecided(x, "error chain too long")
		return nil
	}
	var out []*State
	for _, s := range an.call(st, m, []Val{a.v}, nil, x) {
		u, ok := s.reg(x).(IfaceV)
		if !ok {
			an.undecided(x, "untracked cause")
			continue
		}
		if u.null != nonNil {
			q := s.clone()
			if q.refineNil(u, true) {
				q.set(x, BoolV{condFalse})
				out = append(out, q)
			}
		}
		for _, b := range u.alts {
			q := s.clone()
			if types.Identical(b.t, a.t) && depth > 2 {
				// a cause of the same kind again: both outcomes are covered by
				// the alternatives already taken
				q.set(x, BoolV{condFalse})
				out = append(out, q)
				continue
			}
			out = append(out, an.asChain(q, b, want, dst, x, depth+1)...)
		}
	}
	return out
}

func lenOf(v Val) (Lin, bool) {
	switch t := v.(type) {
	case SliceV:
		return t.len, true
	case StrV:
		return t.n, true
	}
	return Lin{}, false
}
