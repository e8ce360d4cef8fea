package effects

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

const RuleTaxonomy = "every dynamic type that can reach the error result of an exported function (points-to analysis) is one of the library's error types, of the categories its part of the library uses; every error constructor NewX allocates an X on every path, keeps the cause it is given where Unwrap finds it and lets its message depend on the text it is given"

// The categories each part of the library reports, confirmed by reading.
var categories = []struct {
	pkg, recv string // package, and a prefix of the function name or ""
	set       string
}{
	{"buffer", "", "InvalidArgumentError"},
	{"reader", "New", "InvalidArgumentError"},
	{"reader", "GetChar", "EOFError ParseError"},
	{"reader", "", "EOFError"},
	{"pilot", "", "InvalidArgumentError"},
	{"modifier", "", "InvalidArgumentError ModifyError"},
	{"navigation", "New", "InvalidArgumentError"},
	{"navigation", "ToElement", "InvalidArgumentError NavigationError InternalError"},
	{"navigation", "ToString", "InvalidArgumentError EncodingError DecodingError EntityError"},
	{"navigation", "ToRaw", "InvalidArgumentError EncodingError DecodingError EntityError"},
	{"navigation", "GetCurrentIndex", "InternalError"},
	{"navigation", "GetToken", "InvalidArgumentError"},
	{"parser", "New", "InvalidArgumentError"},
	{"parser", "Parse", "EOFError EncodingError EntityError InternalError InvalidArgumentError ParseError"},
}

// Taxonomy decides C23.
func Taxonomy(p *core.Program) *core.Report {
	r := core.NewReport()
	a := NewPts(p)
	a.coverage(r)
	ep := p.Pkg("erroring")
	if ep == nil {
		r.Fail("anchor", "-", "-", "the package of the error types was not found")
		return r
	}
	allowed := map[string]bool{}
	scope := ep.Types.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if types.Implements(pt, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			allowed[pt.String()] = true
		}
	}
	r.Coverage["error_types"] = len(allowed)
	if len(allowed) < 8 {
		r.Fail("coverage", "-", "-", "only %d error types were found", len(allowed))
	}
	ets := a.ErrorTypes()
	var fns []*ssa.Function
	for fn := range ets {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return p.Short(fns[i]) < p.Short(fns[j]) })
	for _, fn := range fns {
		pk := core.FuncPkg(fn).Path()
		if pk == ep.PkgPath {
			continue // makes and unwraps errors of any kind
		}
		r.Count("functions_with_an_error_result", 1)
		set := ets[fn]
		want := ""
		for _, c := range categories {
			if strings.HasSuffix(pk, "/"+c.pkg) && (fn.Name() == c.recv || c.recv == "New" && strings.HasPrefix(fn.Name(), "New") ||
				c.recv == "" || strings.HasPrefix(fn.Name(), c.recv) && c.recv != "GetChar") {
				want = c.set
				break
			}
		}
		var ts []string
		for t := range set {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, t := range ts {
			r.Obligations++
			if !allowed[t] {
				r.Fail("foreign-error", p.Pos(fn.Pos()), p.Short(fn), "can return an error of type %s, which is not one of the library's", t)
				continue
			}
			if want != "" {
				short := t[strings.LastIndex(t, ".")+1:]
				ok := false
				for _, w := range strings.Fields(want) {
					ok = ok || w == short
				}
				if !ok {
					r.Fail("error-category", p.Pos(fn.Pos()), p.Short(fn), "can return a %s; this part of the library reports only %s", short, want)
					continue
				}
			}
			r.Discharged++
		}
	}
	r.Floor("coverage", "functions_with_an_error_result", 40)
	// an interface must not hold a nil pointer of an error type
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !allowed[mi.X.Type().String()] {
					continue
				}
				r.Obligations++
				r.Count("error_values_made", 1)
				if mayBeNil(mi.X, map[ssa.Value]bool{}) && !onlyTarget(mi) {
					r.Fail("nil-error-pointer", p.InstrPos(in), p.Short(fn), "an error value may hold a nil %s", mi.X.Type())
					continue
				}
				r.Discharged++
			}
		}
	}
	// constructors
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || core.FuncPkg(fn) != ep.Types || fn.Signature.Recv() != nil || !strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		if fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		kind := strings.TrimPrefix(fn.Name(), "New")
		tn, ok := scope.Lookup(kind).(*types.TypeName)
		if !ok {
			continue
		}
		r.Count("error_constructors", 1)
		r.Obligations++
		bad := a.constructor(fn, tn)
		if bad != "" {
			r.Fail("error-constructor", p.Pos(fn.Pos()), p.Short(fn), "%s", bad)
			continue
		}
		r.Discharged++
	}
	r.Floor("coverage", "error_constructors", 8)
	// Error and Unwrap of every type
	var names []string
	for t := range allowed {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, n := range names {
		tn := scope.Lookup(n[strings.LastIndex(n, ".")+1:])
		pt := types.NewPointer(tn.Type())
		for _, m := range []string{"Error", "Unwrap"} {
			r.Obligations++
			fn := method(p, pt, m)
			if fn == nil {
				r.Fail("error-method", p.Pos(tn.Pos()), tn.Name(), "has no method %s", m)
				continue
			}
			if bad := readsReceiver(fn); bad != "" {
				r.Fail("error-method", p.Pos(fn.Pos()), p.Short(fn), "%s", bad)
				continue
			}
			r.Discharged++
		}
	}
	return r
}

func method(p *core.Program, t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := p.SSA.MethodValue(ms.At(i))
			// look through the wrapper of a promoted method
			for fn != nil && fn.Synthetic != "" {
				var inner *ssa.Function
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(*ssa.Call); ok {
							inner = c.Call.StaticCallee()
						}
					}
				}
				if inner == nil {
					break
				}
				fn = inner
			}
			return fn
		}
	}
	return nil
}

// readsReceiver: some return gives back what the receiver holds.
func readsReceiver(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			if depends(r.Results[0], fn.Params[0], map[ssa.Value]bool{}) {
				return ""
			}
		}
	}
	return "no return depends on what the error holds"
}

func mayBeNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if mayBeNil(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || fn.Blocks == nil {
			return true
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || mayBeNil(r.Results[0], seen) {
					return true
				}
			}
		}
		return false
	case *ssa.Parameter:
		// a method called on a possibly nil receiver, or a helper: decided by
		// what the callers pass
		return x.Parent().Signature.Recv() == nil
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// a variable that only errors.As fills
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) && mayBeNil(st.Val, seen) {
					return true
				}
			}
			return false
		}
	}
	return true
}

// onlyTarget: the interface is only the target of errors.As and the like.
func onlyTarget(mi *ssa.MakeInterface) bool {
	for _, ref := range *mi.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			return false
		}
		fn := c.Call.StaticCallee()
		if fn == nil || core.FuncPkg(fn) == nil || core.FuncPkg(fn).Path() != "errors" {
			return false
		}
	}
	return true
}

// constructor checks one error constructor.
func (a *Pts) constructor(fn *ssa.Function, tn *types.TypeName) string {
	want := types.NewPointer(tn.Type())
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return "does not return one value"
	}
	if !types.Identical(res.At(0).Type(), want) {
		return fmt.Sprintf("returns a %s, not a %s", res.At(0).Type(), want)
	}
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if mayBeNil(r.Results[0], map[ssa.Value]bool{}) {
			return "may return nil"
		}
		for _, prm := range fn.Params {
			if !depends(r.Results[0], prm, map[ssa.Value]bool{}) {
				return fmt.Sprintf("the error it returns does not depend on its parameter %s", prm.Name())
			}
		}
	}
	// the cause given must be what Unwrap of this type returns
	for _, prm := range fn.Params {
		if !isErrorType(prm.Type()) {
			continue
		}
		un := method(a.p, want, "Unwrap")
		if un == nil {
			return "its type has no Unwrap"
		}
		path, ok := unwrapField(a.p, want, un)
		if !ok {
			return "what Unwrap of its type returns was not found to be one field"
		}
		for _, b := range fn.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			og := &origins{seen: map[string]bool{}, out: map[ssa.Value]bool{}}
			og.contents(r.Results[0], path, nil)
			if og.other != "" {
				return fmt.Sprintf("what Unwrap finds is not the cause it is given (parameter %s) but %s", prm.Name(), og.other)
			}
			if !og.out[prm] {
				return fmt.Sprintf("the cause it is given (parameter %s) is not stored where Unwrap finds it", prm.Name())
			}
		}
	}
	return ""
}

// origins finds the values a field may have been given: parameters of the
// outermost function, or something else. Nil is left out where the cause
// itself is known to be nil.
type origins struct {
	seen  map[string]bool
	out   map[ssa.Value]bool
	other string
}

type frame struct {
	call *ssa.Call
	up   *frame
}

func (o *origins) fail(format string, args ...any) {
	if o.other == "" {
		o.other = fmt.Sprintf(format, args...)
	}
}

// contents: the field at path of the object v points to.
func (o *origins) contents(v ssa.Value, path []int, f *frame) {
	key := fmt.Sprintf("*%p%v%p", v, path, f)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		if o.stores(x, path, f) == 0 {
			o.fail("nil")
		}
	case *ssa.FieldAddr:
		o.contents(x.X, append([]int{x.Field}, path...), f)
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.contents(e, path, f)
		}
	case *ssa.Call:
		o.returns(x, f, func(r ssa.Value, g *frame) { o.contents(r, path, g) })
	case *ssa.Parameter:
		if f == nil {
			o.fail("taken from the parameter %s", x.Name())
			return
		}
		o.contents(arg(x, f), path, f.up)
	default:
		o.fail("the content of %s", v)
	}
}

// stores visits the stores into the field at path below addr.
func (o *origins) stores(addr ssa.Value, path []int, f *frame) int {
	n := 0
	for _, ref := range *addr.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == addr {
				n++
				o.value(x.Val, path, f)
			}
		case *ssa.FieldAddr:
			if len(path) > 0 && x.Field == path[0] {
				n += o.stores(x, path[1:], f)
			}
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil || fn.Blocks == nil {
				continue
			}
			for i, a := range x.Call.Args {
				if a == addr && i < len(fn.Params) {
					n += o.stores(fn.Params[i], path, &frame{x, f})
				}
			}
		}
	}
	return n
}

func (o *origins) returns(c *ssa.Call, f *frame, visit func(ssa.Value, *frame)) {
	fn := c.Call.StaticCallee()
	if fn == nil || fn.Blocks == nil {
		o.fail("the result of %s", c.Call.Value)
		return
	}
	depth := 0
	for g := f; g != nil; g = g.up {
		depth++
	}
	if depth > 8 {
		o.fail("the result of a recursive call")
		return
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			visit(r.Results[0], &frame{c, f})
		}
	}
}

func arg(p *ssa.Parameter, f *frame) ssa.Value {
	for i, q := range p.Parent().Params {
		if q == p {
			return f.call.Call.Args[i]
		}
	}
	return p
}

// value: the part at path of the value v.
func (o *origins) value(v ssa.Value, path []int, f *frame) {
	key := fmt.Sprintf("%p%v%p", v, path, f)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	if _, ok := v.Type().Underlying().(*types.Pointer); ok && len(path) > 0 {
		o.contents(v, path, f)
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		o.fail("nil")
	case *ssa.Phi:
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() && knownNil(x, i) {
				continue
			}
			o.value(e, path, f)
		}
	case *ssa.ChangeInterface:
		o.value(x.X, path, f)
	case *ssa.Parameter:
		if f != nil {
			o.value(arg(x, f), path, f.up)
			return
		}
		if len(path) == 0 && isErrorType(x.Type()) {
			o.out[x] = true
			return
		}
		o.fail("taken from the parameter %s", x.Name())
	case *ssa.Call:
		o.returns(x, f, func(r ssa.Value, g *frame) { o.value(r, path, g) })
	case *ssa.UnOp:
		o.contents(x.X, path, f)
	case *ssa.Field:
		o.value(x.X, append([]int{x.Field}, path...), f)
	default:
		o.fail("%s", v)
	}
}

// knownNil: on edge i of the phi some other value of the phi was found nil.
func knownNil(x *ssa.Phi, i int) bool {
	b := x.Block().Preds[i]
	for b != nil {
		if len(b.Preds) == 1 {
			p := b.Preds[0]
			if nilTest(p, b, x.Edges) {
				return true
			}
		}
		if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && t != nil {
			if nilTest(b, x.Block(), x.Edges) && b.Succs[0] != b.Succs[1] {
				return true
			}
		}
		b = b.Idom()
	}
	return false
}

func nilTest(p, succ *ssa.BasicBlock, vs []ssa.Value) bool {
	t, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
	if !isNil(c.Y) {
		return false
	}
	match := false
	for _, v := range vs {
		match = match || v == c.X
	}
	if !match {
		return false
	}
	if c.Op == token.EQL {
		return p.Succs[0] == succ && p.Succs[1] != succ
	}
	return c.Op == token.NEQ && p.Succs[1] == succ && p.Succs[0] != succ
}

// unwrapField is the path of the field that Unwrap returns: every return of it
// gives back that field, or nil where the receiver is nil.
func unwrapField(p *core.Program, want types.Type, un *ssa.Function) ([]int, bool) {
	var path []int
	for _, b := range un.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var vs []ssa.Value
		if phi, ok := r.Results[0].(*ssa.Phi); ok {
			vs = phi.Edges
		} else {
			vs = []ssa.Value{r.Results[0]}
		}
		for _, v := range vs {
			if c, ok := v.(*ssa.Const); ok && c.IsNil() {
				guarded := false
				for d := b; d != nil; d = d.Idom() {
					if len(d.Preds) == 1 && nilTest(d.Preds[0], d, []ssa.Value{un.Params[0]}) {
						guarded = true
					}
				}
				if !guarded && len(vs) == 1 {
					return nil, false
				}
				continue
			}
			u, ok := v.(*ssa.UnOp)
			if !ok {
				return nil, false
			}
			var q []int
			a := u.X
			for {
				f, ok := a.(*ssa.FieldAddr)
				if !ok {
					break
				}
				q = append([]int{f.Field}, q...)
				a = f.X
			}
			if a != ssa.Value(un.Params[0]) || len(q) == 0 || path != nil && fmt.Sprint(path) != fmt.Sprint(q) {
				return nil, false
			}
			path = q
		}
	}
	if path == nil {
		return nil, false
	}
	// the receiver of Unwrap is embedded in the error type
	recv := un.Params[0].Type().Underlying().(*types.Pointer).Elem()
	if types.Identical(recv, want.Underlying().(*types.Pointer).Elem()) {
		return path, true
	}
	st, ok := want.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			ft = pt.Elem()
		}
		if types.Identical(ft, recv) {
			return append([]int{i}, path...), true
		}
	}
	return nil, false
}

// depends: v may be computed from target (an over-approximation: memory of a
// local allocation depends on everything stored in it, a call on its arguments).
func depends(v, target ssa.Value, seen map[ssa.Value]bool) bool {
	if v == target {
		return true
	}
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if al, ok := v.(*ssa.Alloc); ok {
		return storedIn(al, al, target, seen)
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && depends(*op, target, seen) {
			return true
		}
	}
	return false
}

func storedIn(al *ssa.Alloc, addr ssa.Value, target ssa.Value, seen map[ssa.Value]bool) bool {
	if addr.Referrers() == nil {
		return false
	}
	for _, ref := range *addr.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == addr && depends(x.Val, target, seen) {
				return true
			}
		case *ssa.FieldAddr:
			if storedIn(al, x, target, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == addr && storedIn(al, x, target, seen) {
				return true
			}
		case *ssa.Call:
			for _, arg := range x.Call.Args {
				if arg != addr && depends(arg, target, seen) {
					return true
				}
			}
		}
	}
	return false
}
