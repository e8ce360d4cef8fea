// Package effects decides the effect properties of the library from an
// inclusion-based (Andersen) points-to analysis of its SSA form.
package effects

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// Package initialisation runs in its own context, so that a table which is
// built once by an initialiser stays apart from one built by a later call of
// the same function.
type ctx int

const (
	run ctx = iota
	boot
)

type objKind int

const (
	heap objKind = iota
	global
	callerBytes // a document handed in by the caller
	caller      // any other memory of the caller
	box         // the value inside an interface
	closure
)

// Obj is an abstract object.
type Obj struct {
	kind objKind
	name string
	typ  types.Type // dynamic type for boxes
	fn   *ssa.Function
	bind []nodeID
	c    ctx
	site any
}

type loc struct {
	o    *Obj
	path string
}

type nodeID int

type nodeKey struct {
	base any // valKey, *Obj, extKey, retKey
	path string
}

type valKey struct {
	c ctx
	v ssa.Value
}

type retKey struct {
	c  ctx
	fn *ssa.Function
}

type extKey string

type fnCtx struct {
	fn *ssa.Function
	c  ctx
}

// Write is one instruction that may write memory.
type Write struct {
	in   ssa.Instruction
	fn   *ssa.Function
	c    ctx
	what string
	ptr  nodeID
	sub  string // appended to the path of each location
}

// Pts is the result of the analysis.
type Pts struct {
	p      *core.Program
	nodes  map[nodeKey]nodeID
	keys   []nodeKey
	pts    []map[loc]bool
	copies []map[nodeID]bool
	objs   map[any]*Obj
	todo   []nodeID
	inTodo []bool

	dirty   bool
	fns     map[fnCtx]bool
	work    []fnCtx
	ext     map[fnCtx][]externalCall
	writes  map[writeKey]Write
	refs    map[*ssa.Function]map[string]ssa.Instruction // external functions and globals referenced
	leafs   map[types.Type][]leaf
	Unknown []string
}

type writeKey struct {
	in ssa.Instruction
	c  ctx
	w  string
}

type externalCall struct {
	in     ssa.CallInstruction
	callee *ssa.Function
	args   []nodeID
}

type leaf struct {
	path string
	typ  types.Type
}

func (a *Pts) node(base any, path string) nodeID {
	k := nodeKey{base, path}
	if n, ok := a.nodes[k]; ok {
		return n
	}
	n := nodeID(len(a.keys))
	a.nodes[k] = n
	a.keys = append(a.keys, k)
	a.pts = append(a.pts, nil)
	a.copies = append(a.copies, nil)
	a.inTodo = append(a.inTodo, false)
	return n
}

func (a *Pts) add(n nodeID, l loc) {
	if a.pts[n] == nil {
		a.pts[n] = map[loc]bool{}
	}
	if !a.pts[n][l] {
		if strings.Count(l.path, ".")+strings.Count(l.path, "[]") > 12 {
			return
		}
		a.pts[n][l] = true
		a.dirty = true
		if !a.inTodo[n] {
			a.inTodo[n] = true
			a.todo = append(a.todo, n)
		}
	}
}

func (a *Pts) copyTo(from, to nodeID) {
	if from == to {
		return
	}
	if a.copies[from] == nil {
		a.copies[from] = map[nodeID]bool{}
	}
	if a.copies[from][to] {
		return
	}
	a.copies[from][to] = true
	a.dirty = true
	for l := range a.pts[from] {
		a.add(to, l)
	}
}

func (a *Pts) propagate() {
	for len(a.todo) > 0 {
		n := a.todo[len(a.todo)-1]
		a.todo = a.todo[:len(a.todo)-1]
		a.inTodo[n] = false
		for m := range a.copies[n] {
			for l := range a.pts[n] {
				a.add(m, l)
			}
		}
	}
}

func (a *Pts) leaves(t types.Type) []leaf {
	if l, ok := a.leafs[t]; ok {
		return l
	}
	var out []leaf
	a.collect(t, "", &out, 0)
	a.leafs[t] = out
	return out
}

func (a *Pts) collect(t types.Type, path string, out *[]leaf, depth int) {
	if depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a.collect(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), out, depth+1)
		}
	case *types.Array:
		a.collect(u.Elem(), path+"[]", out, depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			a.collect(u.At(i).Type(), fmt.Sprintf("%s#%d", path, i), out, depth+1)
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			*out = append(*out, leaf{path, t})
		}
	default:
		*out = append(*out, leaf{path, t})
	}
}

func (a *Pts) obj(site any, kind objKind, name string, typ types.Type, c ctx) *Obj {
	type key struct {
		s any
		k objKind
		c ctx
	}
	k := key{site, kind, c}
	if o, ok := a.objs[k]; ok {
		return o
	}
	o := &Obj{kind: kind, name: name, typ: typ, c: c, site: site}
	a.objs[k] = o
	a.dirty = true
	return o
}

func (a *Pts) val(c ctx, v ssa.Value, path string) nodeID {
	switch x := v.(type) {
	case *ssa.Global:
		n := a.node(x, "addr")
		if len(a.pts[n]) == 0 {
			o := a.obj(x, global, "package variable "+x.String(), x.Type(), run)
			a.add(n, loc{o, ""})
			if x.Pkg != nil && !a.p.Owns(x.Pkg.Pkg) {
				// what a variable outside the repository holds is not known
				elem := x.Type().Underlying().(*types.Pointer).Elem()
				u := a.obj(x, heap, "value of "+x.String(), elem, boot)
				for _, l := range a.leaves(elem) {
					a.add(a.node(o, l.path), loc{u, ""})
				}
			}
		}
		return n
	case *ssa.Function:
		n := a.node(x, "func")
		if len(a.pts[n]) == 0 {
			o := a.obj(x, closure, "func "+x.String(), x.Type(), run)
			o.fn = x
			a.add(n, loc{o, ""})
		}
		return n
	case *ssa.Const:
		return a.node("const", "")
	}
	return a.node(valKey{c, v}, path)
}

// copyVal copies a whole value of type t.
func (a *Pts) copyVal(fromBase any, fromPath string, toBase any, toPath string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.copyTo(a.node(fromBase, fromPath+l.path), a.node(toBase, toPath+l.path))
	}
}

func (a *Pts) assign(c ctx, from, to ssa.Value) {
	a.assignPath(c, from, "", to, "", to.Type())
}

func (a *Pts) assignPath(c ctx, from ssa.Value, fp string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.leaves(t) {
		a.copyTo(a.val(c, from, fp+l.path), a.val(c, to, tp+l.path))
	}
}

func (a *Pts) locs(n nodeID) []loc {
	var out []loc
	for l := range a.pts[n] {
		out = append(out, l)
	}
	return out
}

// elem returns the path of an element below l.
func elemPath(l loc) string { return l.path + "[]" }

// NewPts runs the analysis on every function an exported one can reach.
func NewPts(p *core.Program) *Pts {
	a := &Pts{
		p: p, nodes: map[nodeKey]nodeID{}, objs: map[any]*Obj{}, fns: map[fnCtx]bool{},
		ext: map[fnCtx][]externalCall{}, writes: map[writeKey]Write{},
		refs: map[*ssa.Function]map[string]ssa.Instruction{}, leafs: map[types.Type][]leaf{},
	}
	for round := 0; ; round++ {
		a.dirty = false
		a.entries()
		for i := 0; i < len(a.work); i++ {
			a.function(a.work[i])
		}
		a.propagate()
		if !a.dirty {
			break
		}
		if round > 400 {
			panic("points-to analysis does not converge")
		}
	}
	return a
}

func (a *Pts) reach(fn *ssa.Function, c ctx) {
	k := fnCtx{fn, c}
	if a.fns[k] {
		return
	}
	a.fns[k] = true
	a.dirty = true
	a.work = append(a.work, k)
}

// entries models the code outside the library.
func (a *Pts) entries() {
	for _, fn := range a.p.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			a.reach(fn, boot)
			continue
		}
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		a.reach(fn, run)
		sig := fn.Signature
		for _, prm := range fn.Params {
			a.fromCaller(valKey{run, prm}, "", prm.Type(), fmt.Sprintf("%s of %s", prm.Name(), a.p.Short(fn)), prm, 0)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			a.toCaller(retKey{run, fn}, fmt.Sprintf("#%d", i), sig.Results().At(i).Type())
		}
	}
	// function values that have escaped may be called from outside
	for k, id := range a.nodes {
		ek, ok := k.base.(extKey)
		if !ok || !strings.HasPrefix(string(ek), "func") {
			continue
		}
		for l := range a.pts[id] {
			if l.o.kind != closure || l.o.fn == nil || l.o.fn.Blocks == nil {
				continue
			}
			fn := l.o.fn
			a.reach(fn, run)
			a.bindClosure(l.o, run)
			for _, prm := range fn.Params {
				a.fromCaller(valKey{run, prm}, "", prm.Type(), prm.Name()+" of "+a.p.Short(fn), prm, 0)
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				a.toCaller(retKey{run, fn}, fmt.Sprintf("#%d", i), fn.Signature.Results().At(i).Type())
			}
		}
	}
}

func extName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return "func " + u.String()
	case *types.Interface:
		return "iface"
	}
	return "val " + t.String()
}

// fromCaller fills a value with what code outside the library can pass.
func (a *Pts) fromCaller(base any, path string, t types.Type, name string, site any, depth int) {
	if depth > 4 {
		return
	}
	for _, l := range a.leaves(t) {
		n := a.node(base, path+l.path)
		switch u := l.typ.Underlying().(type) {
		case *types.Signature:
			a.copyTo(a.node(extKey(extName(l.typ)), ""), n)
		case *types.Interface:
			for l := range a.pts[a.node(extKey("iface"), "")] {
				if l.o.kind != box || types.Implements(l.o.typ, u) {
					a.add(n, l)
				}
			}
		case *types.Slice:
			b, isB := u.Elem().Underlying().(*types.Basic)
			if isB && b.Kind() == types.Byte {
				o := a.obj(fmt.Sprint("bytes", name, l.path, depth), callerBytes, "bytes passed as "+name, l.typ, run)
				a.add(n, loc{o, ""})
				a.copyTo(a.node(extKey(extName(l.typ)), ""), n)
				continue
			}
			o := a.obj(fmt.Sprint("slice", name, l.path, depth), caller, "slice passed as "+name, l.typ, run)
			a.add(n, loc{o, ""})
			a.fromCaller(o, "[]", u.Elem(), name, site, depth+1)
			a.copyTo(a.node(extKey(extName(l.typ)), ""), n)
		case *types.Pointer:
			a.copyTo(a.node(extKey(extName(l.typ)), ""), n)
			named := types.Unalias(u.Elem())
			if nt, ok := named.(*types.Named); ok && a.p.Owns(nt.Obj().Pkg()) {
				// an object built outside the library, without a constructor
				o := a.obj("zero "+nt.String(), caller, "object of the caller", u.Elem(), run)
				a.add(n, loc{o, ""})
				continue
			}
			o := a.obj(fmt.Sprint("ptr", name, l.path, depth), caller, "memory passed as "+name, u.Elem(), run)
			a.add(n, loc{o, ""})
			a.fromCaller(o, "", u.Elem(), name, site, depth+1)
		default:
			o := a.obj(fmt.Sprint("other", name, l.path, depth), caller, "memory passed as "+name, l.typ, run)
			a.add(n, loc{o, ""})
		}
	}
}

// toCaller lets a result flow to code outside the library.
func (a *Pts) toCaller(base any, path string, t types.Type) {
	for _, l := range a.leaves(t) {
		n := a.node(base, path+l.path)
		a.copyTo(n, a.node(extKey(extName(l.typ)), ""))
		if _, ok := l.typ.Underlying().(*types.Pointer); ok {
			// a pointer can be passed on as any interface it implements
			o := a.obj("box of "+l.typ.String(), box, "interface holding "+l.typ.String(), l.typ, run)
			a.add(a.node(extKey("iface"), ""), loc{o, ""})
			a.copyTo(a.node(extKey(extName(l.typ)), ""), a.node(o, ""))
		}
	}
}

func (a *Pts) bindClosure(o *Obj, c ctx) {
	if o.fn == nil {
		return
	}
	for i, fv := range o.fn.FreeVars {
		if i < len(o.bind) {
			// bindings are pointers or plain values: copy their leaves
			k := a.keys[o.bind[i]]
			a.copyVal(k.base, k.path, valKey{c, fv}, "", fv.Type())
		}
	}
}

func (a *Pts) write(k fnCtx, in ssa.Instruction, what string, ptr nodeID, sub string) {
	wk := writeKey{in, k.c, what}
	if _, ok := a.writes[wk]; !ok {
		a.writes[wk] = Write{in, k.fn, k.c, what, ptr, sub}
	}
}

func (a *Pts) ref(fn *ssa.Function, name string, in ssa.Instruction) {
	if a.refs[fn] == nil {
		a.refs[fn] = map[string]ssa.Instruction{}
	}
	if _, ok := a.refs[fn][name]; !ok {
		a.refs[fn][name] = in
	}
}

func (a *Pts) function(k fnCtx) {
	for _, b := range k.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(k, in)
		}
	}
}

func (a *Pts) storeTo(k fnCtx, ptr nodeID, sub string, from ssa.Value, t types.Type) {
	for _, l := range a.locs(ptr) {
		for _, lf := range a.leaves(t) {
			a.copyTo(a.val(k.c, from, lf.path), a.node(l.o, l.path+sub+lf.path))
		}
	}
}

func (a *Pts) loadFrom(k fnCtx, ptr nodeID, sub string, to ssa.Value, tp string, t types.Type) {
	for _, l := range a.locs(ptr) {
		for _, lf := range a.leaves(t) {
			a.copyTo(a.node(l.o, l.path+sub+lf.path), a.val(k.c, to, tp+lf.path))
		}
	}
}

func (a *Pts) instr(k fnCtx, in ssa.Instruction) {
	c := k.c
	for _, op := range in.Operands(nil) {
		switch x := (*op).(type) {
		case *ssa.Function:
			if !a.p.Owns(core.FuncPkg(x)) {
				a.ref(k.fn, x.String(), in)
			}
		case *ssa.Global:
			if x.Pkg != nil && !a.p.Owns(x.Pkg.Pkg) {
				a.ref(k.fn, x.String(), in)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		o := a.obj(x, heap, "object allocated at "+a.p.InstrPos(x), x.Type(), c)
		a.add(a.val(c, x, ""), loc{o, ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		o := a.obj(v, heap, "object made at "+a.p.InstrPos(in), v.Type(), c)
		a.add(a.val(c, v, ""), loc{o, ""})
	case *ssa.MakeClosure:
		o := a.obj(x, closure, "closure at "+a.p.InstrPos(x), x.Type(), c)
		o.fn = x.Fn.(*ssa.Function)
		if o.bind == nil {
			for _, b := range x.Bindings {
				o.bind = append(o.bind, a.val(c, b, ""))
			}
		}
		a.add(a.val(c, x, ""), loc{o, ""})
	case *ssa.MakeInterface:
		o := a.obj(x, box, "interface made at "+a.p.InstrPos(x), x.X.Type(), c)
		for _, l := range a.leaves(x.X.Type()) {
			a.copyTo(a.val(c, x.X, l.path), a.node(o, l.path))
		}
		a.add(a.val(c, x, ""), loc{o, ""})
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.assign(c, e, x)
		}
	case *ssa.ChangeType:
		a.assign(c, x.X, x)
	case *ssa.ChangeInterface:
		a.assign(c, x.X, x)
	case *ssa.Convert:
		if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
			a.ref(k.fn, "unsafe.Pointer", in)
			a.copyTo(a.val(c, x.X, ""), a.val(c, x, ""))
		} else if _, ok := x.Type().Underlying().(*types.Slice); ok {
			o := a.obj(x, heap, "copy made at "+a.p.InstrPos(x), x.Type(), c)
			a.add(a.val(c, x, ""), loc{o, ""})
		}
	case *ssa.MultiConvert:
		o := a.obj(x, heap, "copy made at "+a.p.InstrPos(x), x.Type(), c)
		a.add(a.val(c, x, ""), loc{o, ""})
		a.copyTo(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.SliceToArrayPointer:
		a.copyTo(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.Slice:
		a.copyTo(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.FieldAddr:
		for _, l := range a.locs(a.val(c, x.X, "")) {
			a.add(a.val(c, x, ""), loc{l.o, fmt.Sprintf("%s.%d", l.path, x.Field)})
		}
	case *ssa.IndexAddr:
		for _, l := range a.locs(a.val(c, x.X, "")) {
			a.add(a.val(c, x, ""), loc{l.o, elemPath(l)})
		}
	case *ssa.Field:
		a.assignPath(c, x.X, fmt.Sprintf(".%d", x.Field), x, "", x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.assignPath(c, x.X, "[]", x, "", x.Type())
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.loadFrom(k, a.val(c, x.X, ""), "", x, "", x.Type())
		case token.ARROW:
			t := x.X.Type().Underlying().(*types.Chan).Elem()
			p := ""
			if x.CommaOk {
				p = "#0"
			}
			a.loadFrom(k, a.val(c, x.X, ""), "{}", x, p, t)
		}
	case *ssa.Store:
		a.write(k, in, "store", a.val(c, x.Addr, ""), "")
		a.storeTo(k, a.val(c, x.Addr, ""), "", x.Val, x.Val.Type())
	case *ssa.MapUpdate:
		a.write(k, in, "map update", a.val(c, x.Map, ""), "{}")
		a.storeTo(k, a.val(c, x.Map, ""), "{}", x.Value, x.Value.Type())
		a.storeTo(k, a.val(c, x.Map, ""), "{k}", x.Key, x.Key.Type())
	case *ssa.Send:
		a.write(k, in, "send", a.val(c, x.Chan, ""), "{}")
		a.storeTo(k, a.val(c, x.Chan, ""), "{}", x.X, x.X.Type())
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			p := ""
			if x.CommaOk {
				p = "#0"
			}
			a.loadFrom(k, a.val(c, x.X, ""), "{}", x, p, m.Elem())
		}
	case *ssa.Range:
		a.copyTo(a.val(c, x.X, ""), a.val(c, x, ""))
	case *ssa.Next:
		if !x.IsString {
			if r, ok := x.Iter.(*ssa.Range); ok {
				m := r.X.Type().Underlying().(*types.Map)
				a.loadFrom(k, a.val(c, x.Iter, ""), "{k}", x, "#1", m.Key())
				a.loadFrom(k, a.val(c, x.Iter, ""), "{}", x, "#2", m.Elem())
			}
		}
	case *ssa.Extract:
		a.assignPath(c, x.Tuple, fmt.Sprintf("#%d", x.Index), x, "", x.Type())
	case *ssa.TypeAssert:
		p := ""
		if x.CommaOk {
			p = "#0"
		}
		src := a.val(c, x.X, "")
		if types.IsInterface(x.AssertedType) {
			it := x.AssertedType.Underlying().(*types.Interface)
			for _, l := range a.locs(src) {
				if l.o.kind == box && types.Implements(l.o.typ, it) {
					a.add(a.val(c, x, p), l)
				}
			}
		} else {
			for _, l := range a.locs(src) {
				if l.o.kind == box && types.Identical(l.o.typ, x.AssertedType) {
					for _, lf := range a.leaves(x.AssertedType) {
						a.copyTo(a.node(l.o, lf.path), a.val(c, x, p+lf.path))
					}
				}
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for _, lf := range a.leaves(r.Type()) {
				a.copyTo(a.val(c, r, lf.path), a.node(retKey{c, k.fn}, fmt.Sprintf("#%d%s", i, lf.path)))
			}
		}
	case *ssa.Go:
		a.ref(k.fn, "go statement", in)
		a.call(k, x)
	case ssa.CallInstruction:
		a.call(k, x)
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (a *Pts) call(k fnCtx, in ssa.CallInstruction) {
	c := k.c
	cc := in.Common()
	var args []nodeID
	for _, x := range cc.Args {
		args = append(args, a.val(c, x, ""))
	}
	if cc.IsInvoke() {
		for _, l := range a.locs(a.val(c, cc.Value, "")) {
			if l.o.kind != box {
				continue
			}
			if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && !types.Implements(l.o.typ, it) {
				continue
			}
			m := a.p.SSA.LookupMethod(l.o.typ, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				continue
			}
			if m.Blocks == nil || !a.p.Owns(core.FuncPkg(m)) && m.Synthetic == "" {
				a.ref(k.fn, m.String(), in)
				a.external(k, in, m, args)
				continue
			}
			a.reach(m, c)
			if len(m.Params) > 0 {
				a.copyVal(l.o, "", valKey{c, m.Params[0]}, "", m.Params[0].Type())
			}
			for i, x := range cc.Args {
				if i+1 < len(m.Params) {
					a.assignPath(c, x, "", m.Params[i+1], "", x.Type())
				}
			}
			a.result(k, in, m)
		}
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(k, in, b)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			o := a.obj(mc, closure, "closure", mc.Type(), c)
			a.bindClosure(o, c)
		}
		a.static(k, in, fn)
		return
	}
	for _, l := range a.locs(a.val(c, cc.Value, "")) {
		if l.o.kind == closure && l.o.fn != nil {
			a.bindClosure(l.o, c)
			a.static(k, in, l.o.fn)
		}
	}
}

func (a *Pts) static(k fnCtx, in ssa.CallInstruction, fn *ssa.Function) {
	cc := in.Common()
	if fn.Blocks == nil || !a.p.Owns(core.FuncPkg(fn)) && fn.Synthetic == "" {
		if !a.p.Owns(core.FuncPkg(fn)) {
			a.ref(k.fn, fn.String(), in)
		}
		var args []nodeID
		for _, x := range cc.Args {
			args = append(args, a.val(k.c, x, ""))
		}
		a.external(k, in, fn, args)
		return
	}
	a.reach(fn, k.c)
	for i, x := range cc.Args {
		if i < len(fn.Params) {
			a.assignPath(k.c, x, "", fn.Params[i], "", x.Type())
		}
	}
	a.result(k, in, fn)
}

func (a *Pts) result(k fnCtx, in ssa.CallInstruction, fn *ssa.Function) {
	v := in.Value()
	if v == nil {
		return
	}
	res := fn.Signature.Results()
	if res.Len() == 1 {
		for _, lf := range a.leaves(res.At(0).Type()) {
			a.copyTo(a.node(retKey{k.c, fn}, "#0"+lf.path), a.val(k.c, v, lf.path))
		}
		return
	}
	for i := 0; i < res.Len(); i++ {
		for _, lf := range a.leaves(res.At(i).Type()) {
			p := fmt.Sprintf("#%d%s", i, lf.path)
			a.copyTo(a.node(retKey{k.c, fn}, p), a.val(k.c, v, p))
		}
	}
}

func (a *Pts) builtin(k fnCtx, in ssa.CallInstruction, b *ssa.Builtin) {
	c := k.c
	cc := in.Common()
	switch b.Name() {
	case "append":
		v := in.Value()
		o := a.obj(v, heap, "array grown at "+a.p.InstrPos(in), v.Type(), c)
		a.add(a.val(c, v, ""), loc{o, ""})
		a.copyTo(a.val(c, cc.Args[0], ""), a.val(c, v, ""))
		et := v.Type().Underlying().(*types.Slice).Elem()
		if len(cc.Args) > 1 {
			a.write(k, in, "append", a.val(c, cc.Args[0], ""), "[]")
			if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
				for _, s := range a.locs(a.val(c, cc.Args[1], "")) {
					for _, d := range a.locs(a.val(c, v, "")) {
						a.copyVal(s.o, elemPath(s), d.o, elemPath(d), et)
					}
				}
			}
			for _, s := range a.locs(a.val(c, cc.Args[0], "")) {
				a.copyVal(s.o, elemPath(s), o, "[]", et)
			}
		}
	case "copy":
		a.write(k, in, "copy", a.val(c, cc.Args[0], ""), "[]")
		if st, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
			for _, s := range a.locs(a.val(c, cc.Args[1], "")) {
				for _, d := range a.locs(a.val(c, cc.Args[0], "")) {
					a.copyVal(s.o, elemPath(s), d.o, elemPath(d), st.Elem())
				}
			}
		}
	case "clear":
		a.write(k, in, "clear", a.val(c, cc.Args[0], ""), "[]")
	case "delete":
		a.write(k, in, "delete", a.val(c, cc.Args[0], ""), "{}")
	case "print", "println":
		a.ref(k.fn, "builtin "+b.Name(), in)
	case "recover":
	}
}

// external models a call of a function outside the repository.
func (a *Pts) external(k fnCtx, in ssa.CallInstruction, fn *ssa.Function, args []nodeID) {
	name := fn.String()
	cc := in.Common()
	if name == "errors.As" && len(cc.Args) == 2 {
		for _, l := range a.locs(a.val(k.c, cc.Args[1], "")) {
			if l.o.kind != box {
				continue
			}
			pt, ok := l.o.typ.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			target := a.node(l.o, "")
			a.write(k, in, "errors.As", target, "")
			for _, t := range a.locs(target) {
				// the target receives an error of its own type
				for _, e := range a.locs(a.val(k.c, cc.Args[0], "")) {
					if e.o.kind == box && types.AssignableTo(e.o.typ, pt.Elem()) {
						if types.IsInterface(pt.Elem()) {
							a.add(a.node(t.o, t.path), e)
						} else {
							a.copyVal(e.o, "", t.o, t.path, pt.Elem())
						}
					}
				}
			}
		}
		return
	}
	readOnly, known := externReadOnly(fn)
	if !known || !readOnly {
		var all []ssa.Value
		if cc.IsInvoke() {
			all = append(all, cc.Value)
		}
		all = append(all, cc.Args...)
		for i, x := range all {
			for _, lf := range a.leaves(x.Type()) {
				what := fmt.Sprintf("call of %s (argument %d)", name, i)
				n := a.val(k.c, x, lf.path)
				a.write(k, in, what, n, "[]")
				for _, l := range a.locs(n) {
					if l.o.kind == box {
						for _, bl := range a.leaves(l.o.typ) {
							a.write(k, in, what+bl.path+l.o.name, a.node(l.o, bl.path), "[]")
						}
					}
				}
			}
		}
	}
	v := in.Value()
	if v == nil {
		return
	}
	// results may alias the arguments, or be new
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		p := fmt.Sprintf("#%d", i)
		if res.Len() == 1 {
			p = ""
		}
		for _, lf := range a.leaves(res.At(i).Type()) {
			if _, ok := lf.typ.Underlying().(*types.Interface); ok && isErrorType(lf.typ) {
				continue
			}
			n := a.val(k.c, v, p+lf.path)
			o := a.obj(in, heap, "result of "+name, lf.typ, k.c)
			a.add(n, loc{o, ""})
			for j, x := range cc.Args {
				if types.Identical(x.Type().Underlying(), lf.typ.Underlying()) && lf.path == "" {
					a.copyTo(args[j], n)
				}
			}
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// externReadOnly tells whether a function outside the repository leaves the
// memory it is given as it is.
func externReadOnly(fn *ssa.Function) (readOnly, known bool) {
	pk := core.FuncPkg(fn)
	if pk == nil {
		return false, false
	}
	recv := fn.Signature.Recv()
	switch pk.Path() {
	case "fmt":
		n := fn.Name()
		if strings.HasPrefix(n, "Sprint") || n == "Errorf" || strings.HasPrefix(n, "Print") {
			return true, true
		}
		return false, true
	case "strings", "unicode", "unicode/utf8", "unicode/utf16", "strconv", "math", "math/bits", "cmp", "errors":
		if recv == nil && !strings.HasPrefix(fn.Name(), "Append") && !strings.HasPrefix(fn.Name(), "Encode") {
			return true, true
		}
		return false, true
	case "bytes":
		if recv == nil && fn.Name() != "NewBuffer" && fn.Name() != "NewBufferString" {
			return true, true
		}
		// methods write their receiver only
		return false, true
	case "slices":
		switch fn.Name() {
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "Equal", "EqualFunc", "Compare", "BinarySearch",
			"Clone", "Max", "Min", "IsSorted", "Concat":
			return true, true
		}
		if o := fn.Origin(); o != nil {
			return externReadOnly(o)
		}
		return false, true
	case "sort":
		switch {
		case strings.HasPrefix(fn.Name(), "Search"), strings.HasSuffix(fn.Name(), "AreSorted"), fn.Name() == "IsSorted":
			return true, true
		}
		return false, true
	}
	return false, false
}
