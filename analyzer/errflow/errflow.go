// Package errflow decides the error-handling properties of the library by
// following, on the control flow graph, the paths on which a call has failed.
package errflow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

const (
	RuleSwallow   = "for every call that can fail, every path from it on which it has failed reaches only returns whose own error is non-nil, or a test of the error by its type"
	RuleExclusive = "at every return of an exported function: a non-nil error comes with zero values for the other results, and a nil error with non-nil pointers"
)

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errType) }

// flow holds the summaries the walks need.
type flow struct {
	p       *core.Program
	nonNil  map[*ssa.Function]int // result is a non-nil pointer or interface: 0 unknown, 1 yes, 2 no, 3 computing
	mayFail map[*ssa.Function]int
	keeps   map[keepKey]int
	zeroOK  map[*ssa.Function]int
	tells   map[string]int
	steps   int
}

type keepKey struct {
	fn    *ssa.Function
	param int
}

func newFlow(p *core.Program) *flow {
	return &flow{p: p, nonNil: map[*ssa.Function]int{}, mayFail: map[*ssa.Function]int{},
		keeps: map[keepKey]int{}, zeroOK: map[*ssa.Function]int{}, tells: map[string]int{}}
}

// cell identifies a memory cell an error may be kept in: a local variable, or
// a field of an object.
type cell struct {
	alloc ssa.Value
	typ   string
	field int
}

func cellOf(addr ssa.Value) (cell, bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return cell{alloc: x}, true
	case *ssa.FreeVar:
		return cell{alloc: x}, true
	case *ssa.FieldAddr:
		return cell{typ: x.X.Type().String(), field: x.Field}, true
	}
	return cell{}, false
}

// state is what is known on a path on which the watched call has failed.
type state struct {
	errs  map[ssa.Value]bool // values that are the error, so not nil
	cells map[cell]bool
	bools map[ssa.Value]bool
	nils  map[ssa.Value]bool // values that are nil because the call failed
}

func newState() *state {
	return &state{map[ssa.Value]bool{}, map[cell]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
}

func (s *state) clone() *state {
	n := newState()
	for k := range s.nils {
		n.nils[k] = true
	}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	return n
}

func (s *state) key() string {
	var l []string
	for k := range s.errs {
		l = append(l, "e"+k.Name())
	}
	for k := range s.cells {
		n := k.typ
		if k.alloc != nil {
			n = k.alloc.Name()
		}
		l = append(l, fmt.Sprintf("c%s%d", n, k.field))
	}
	for k, v := range s.bools {
		l = append(l, fmt.Sprintf("b%s%v", k.Name(), v))
	}
	for k := range s.nils {
		l = append(l, "n"+k.Name())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isBasic(c.Type())
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// eval decides a condition where it can: 1 true, -1 false, 0 unknown, and
// typed tells that the condition asks for the type of the error.
func (f *flow) eval(s *state, v ssa.Value) (val int, typed bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 1, false
			}
			return -1, false
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			a, t := f.eval(s, x.X)
			return -a, t
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			var e ssa.Value
			if isNil(x.Y) {
				e = x.X
			} else if isNil(x.X) {
				e = x.Y
			}
			if e != nil && s.isErr(f, e) {
				if x.Op == token.NEQ {
					return 1, false
				}
				return -1, false
			}
			if e != nil && s.nils[e] {
				if x.Op == token.EQL {
					return 1, false
				}
				return -1, false
			}
			// comparison with a particular error value
			if e == nil && (s.errs[x.X] || s.errs[x.Y]) {
				return 0, x.Op == token.EQL
			}
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			switch fn.String() {
			case "errors.As", "errors.Is":
				if s.errs[x.Call.Args[0]] {
					return 0, true
				}
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && s.errs[ta.X] {
			return 0, true
		}
	}
	if b, ok := s.bools[v]; ok {
		if b {
			return 1, false
		}
		return -1, false
	}
	return 0, false
}

func (s *state) isErr(f *flow, v ssa.Value) bool {
	if s.errs[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return s.isErr(f, x.X)
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		return f.callNonNil(s, x)
	case *ssa.TypeAssert:
		return s.errs[x.X]
	}
	return false
}

// callNonNil: the call returns a non-nil value on this path.
func (f *flow) callNonNil(s *state, c *ssa.Call) bool {
	fn := c.Call.StaticCallee()
	if fn == nil {
		return false
	}
	switch fn.String() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	if fn.Blocks == nil {
		return false
	}
	if f.returnsNonNil(fn) {
		return true
	}
	for i, a := range c.Call.Args {
		if s.errs[a] && i < len(fn.Params) && f.keepsError(fn, i) {
			return true
		}
	}
	return false
}

// returnsNonNil: the single result of fn is never nil.
func (f *flow) returnsNonNil(fn *ssa.Function) bool {
	switch f.nonNil[fn] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	if fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		f.nonNil[fn] = 2
		return false
	}
	f.nonNil[fn] = 3
	ok := true
	n := 0
	for _, b := range fn.Blocks {
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
			n++
			if !f.valNonNil(r.Results[0], map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	if ok && n > 0 {
		f.nonNil[fn] = 1
	} else {
		f.nonNil[fn] = 2
	}
	return f.nonNil[fn] == 1
}

func (f *flow) valNonNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr,
		*ssa.Global, *ssa.Function:
		return true
	case *ssa.ChangeInterface:
		return f.valNonNil(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !f.valNonNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			if n := fn.String(); n == "errors.New" || n == "fmt.Errorf" {
				return true
			}
			return f.returnsNonNil(fn)
		}
	}
	return false
}

// keepsError: when parameter i of fn is a non-nil error, so is its error result.
func (f *flow) keepsError(fn *ssa.Function, i int) bool {
	k := keepKey{fn, i}
	switch f.keeps[k] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	f.keeps[k] = 3
	res := fn.Signature.Results()
	ok := res.Len() > 0 && isErr(res.At(res.Len()-1).Type()) && isErr(fn.Params[i].Type())
	if ok {
		s := newState()
		s.errs[fn.Params[i]] = true
		ok = f.walk(fn.Blocks[0], 0, s, nil) == ""
	}
	if ok {
		f.keeps[k] = 1
	} else {
		f.keeps[k] = 2
	}
	return ok
}

// canFail: fn may return a non-nil error.
func (f *flow) canFail(fn *ssa.Function) bool {
	switch f.mayFail[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	if fn.Blocks == nil {
		return true
	}
	f.mayFail[fn] = 3
	fail := false
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && len(r.Results) > 0 {
			if f.valMayFail(r.Results[len(r.Results)-1], map[ssa.Value]bool{}) {
				fail = true
			}
		}
	}
	if fail {
		f.mayFail[fn] = 1
	} else {
		f.mayFail[fn] = 2
	}
	return fail
}

func (f *flow) valMayFail(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f.valMayFail(e, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && fn.Blocks != nil {
			return f.canFail(fn)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && fn.Blocks != nil {
				return f.canFail(fn)
			}
		}
	}
	return true
}

// walk follows the paths from instruction i of block b and returns a
// description of a return that forgets the error, or "".
func (f *flow) walk(b *ssa.BasicBlock, i int, s *state, seen map[string]bool) string {
	if seen == nil {
		seen = map[string]bool{}
	}
	fn := b.Parent()
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		f.steps++
		switch x := in.(type) {
		case *ssa.Store:
			if c, ok := cellOf(x.Addr); ok {
				if s.isErr(f, x.Val) {
					s.cells[c] = true
				} else {
					delete(s.cells, c)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				delete(s.errs, x)
				if c, ok := cellOf(x.X); ok && s.cells[c] {
					s.errs[x] = true
				}
			}
		case *ssa.ChangeInterface:
			if s.errs[x.X] {
				s.errs[x] = true
			} else {
				delete(s.errs, x)
			}
		case *ssa.Return:
			if len(x.Results) == 0 || !isErr(x.Results[len(x.Results)-1].Type()) {
				if f.told(s, x) {
					return ""
				}
				return fmt.Sprintf("the return at %s, which reports no error", f.p.InstrPos(x))
			}
			r := x.Results[len(x.Results)-1]
			if s.isErr(f, r) || f.extractNonNil(s, r) {
				return ""
			}
			return fmt.Sprintf("the return at %s, whose error may be nil", f.p.InstrPos(x))
		case *ssa.Panic:
			return ""
		case *ssa.If:
			val, typed := f.eval(s, x.Cond)
			for k, succ := range b.Succs {
				if val == 1 && k == 1 || val == -1 && k == 0 {
					continue
				}
				if typed && k == 0 {
					continue // the error is handled by its type
				}
				if bad := f.enter(b, succ, s, seen); bad != "" {
					return bad
				}
			}
			return ""
		case *ssa.Jump:
			return f.enter(b, b.Succs[0], s, seen)
		default:
			if v, ok := in.(ssa.Value); ok {
				delete(s.errs, v) // a new instance of the value
				delete(s.bools, v)
				delete(s.nils, v)
			}
		}
	}
	_ = fn
	return ""
}

// extractNonNil: v is the error of a call of a function that keeps the error.
func (f *flow) extractNonNil(s *state, v ssa.Value) bool {
	x, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	fn := c.Call.StaticCallee()
	if fn == nil || fn.Blocks == nil || x.Index != fn.Signature.Results().Len()-1 {
		return false
	}
	for i, a := range c.Call.Args {
		if s.errs[a] && i < len(fn.Params) && f.keepsError(fn, i) {
			return true
		}
	}
	return false
}

func (f *flow) enter(from, to *ssa.BasicBlock, s *state, seen map[string]bool) string {
	n := s.clone()
	edge := -1
	for k, p := range to.Preds {
		if p == from {
			edge = k
		}
	}
	var set, clear []ssa.Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if edge < 0 {
			continue
		}
		e := phi.Edges[edge]
		if isErr(phi.Type()) {
			if s.isErr(f, e) || f.extractNonNil(s, e) {
				set = append(set, phi)
			} else {
				clear = append(clear, phi)
			}
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			val, _ := f.eval(s, e)
			delete(n.bools, phi)
			if val != 0 {
				n.bools[phi] = val > 0
			}
		}
	}
	for _, v := range set {
		n.errs[v] = true
	}
	for _, v := range clear {
		delete(n.errs, v)
	}
	k := fmt.Sprintf("%d %s", to.Index, n.key())
	if seen[k] {
		return ""
	}
	seen[k] = true
	if len(seen) > 20000 {
		return "too many paths"
	}
	i := 0
	for i < len(to.Instrs) {
		if _, ok := to.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return f.walk(to, i, n, seen)
}

func calleeName(p *core.Program, c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Value.Type().String()[strings.LastIndex(cc.Value.Type().String(), "/")+1:] + "." + cc.Method.Name()
	}
	if fn := cc.StaticCallee(); fn != nil {
		return p.Short(fn)
	}
	return "a function value"
}

// after is the index following in within b, at least i.
func after(b *ssa.BasicBlock, in ssa.Instruction, i int) int {
	for k, y := range b.Instrs {
		if y == in && k+1 > i {
			return k + 1
		}
	}
	return i
}

// told: a helper without an error result tells its callers of the failure by
// returning nil or a known bool, and every caller, given that, returns an error.
func (f *flow) told(s *state, ret *ssa.Return) bool {
	fn := ret.Parent()
	if fn.Object() == nil || fn.Object().Exported() || fn.Parent() != nil {
		return false
	}
	nils, bools := map[int]bool{}, map[int]bool{}
	key := fn.String()
	for i, v := range ret.Results {
		if isNil(v) || s.nils[v] {
			nils[i] = true
			key += fmt.Sprintf(" n%d", i)
		} else if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if val, _ := f.eval(s, v); val != 0 {
				bools[i] = val > 0
				key += fmt.Sprintf(" b%d%v", i, val > 0)
			}
		}
	}
	if len(nils)+len(bools) == 0 {
		return false
	}
	switch f.tells[key] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	f.tells[key] = 3
	ok := f.callersFail(fn, nils, bools)
	f.tells[key] = 2
	if ok {
		f.tells[key] = 1
	}
	return ok
}

func (f *flow) callersFail(fn *ssa.Function, nils, bools map[int]bool) bool {
	n := 0
	for _, g := range f.p.Funcs {
		for _, b := range g.Blocks {
			for i, in := range b.Instrs {
				var call *ssa.Call
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() && c.Common().Method.Name() == fn.Name() {
						return false
					}
					if c.Common().StaticCallee() == fn {
						if call, ok = in.(*ssa.Call); !ok {
							return false
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) && (call == nil || *op != call.Call.Value) {
						return false // used as a value
					}
				}
				if call == nil {
					continue
				}
				n++
				s := newState()
				idx := i + 1
				if fn.Signature.Results().Len() == 1 {
					if nils[0] {
						s.nils[call] = true
					}
					if v, ok := bools[0]; ok {
						s.bools[call] = v
					}
				} else {
					for _, ref := range *call.Referrers() {
						if x, ok := ref.(*ssa.Extract); ok && x.Block() == b {
							if nils[x.Index] {
								s.nils[x] = true
								idx = after(b, x, idx)
							}
							if v, ok := bools[x.Index]; ok {
								s.bools[x] = v
								idx = after(b, x, idx)
							}
						}
					}
				}
				if f.walk(b, idx, s, nil) != "" {
					return false
				}
			}
		}
	}
	return n > 0
}

// Swallow decides C21.
func Swallow(p *core.Program) *core.Report {
	r := core.NewReport()
	f := newFlow(p)
	for _, fn := range p.Funcs {
		r.Count("functions", 1)
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sig := c.Common().Signature()
				res := sig.Results()
				if res.Len() == 0 || !isErr(res.At(res.Len()-1).Type()) {
					continue
				}
				if callee := c.Common().StaticCallee(); callee != nil && isWriterOfMemory(callee) {
					continue
				}
				if callee := c.Common().StaticCallee(); callee != nil {
					if n := callee.String(); n == "errors.New" || n == "fmt.Errorf" || n == "errors.Unwrap" || n == "errors.Join" {
						continue // makes an error, or looks inside one
					}
					if callee.Name() == "Unwrap" && callee.Signature.Recv() != nil {
						continue
					}
					if f.returnsNonNil(callee) {
						continue
					}
					if callee.Blocks != nil && !f.canFail(callee) {
						r.Count("calls_that_cannot_fail", 1)
						continue
					}
					// a function that only passes on an error it is given
				}
				r.Obligations++
				r.Count("failing_calls", 1)
				name := calleeName(p, c)
				v := c.Value()
				if v == nil {
					r.Fail("error-dropped", p.InstrPos(in), p.Short(fn), "the error of %s is lost in a go or defer statement", name)
					continue
				}
				var e ssa.Value = v
				if res.Len() > 1 {
					e = nil
					for _, ref := range *v.Referrers() {
						if x, ok := ref.(*ssa.Extract); ok && x.Index == res.Len()-1 {
							e = x
						}
					}
				}
				if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
					r.Fail("error-dropped", p.InstrPos(in), p.Short(fn), "the error of %s is ignored", name)
					continue
				}
				// every extract of the same tuple is the same error
				s := newState()
				start := b
				idx := i + 1
				for _, ref := range *v.Referrers() {
					if x, ok := ref.(*ssa.Extract); ok && x.Index == res.Len()-1 {
						s.errs[x] = true
						idx = after(b, x, idx)
					}
				}
				if res.Len() == 1 {
					s.errs[v] = true
				}
				if bad := f.walk(start, idx, s, nil); bad != "" {
					r.Fail("error-swallowed", p.InstrPos(in), p.Short(fn), "when %s fails, control can reach %s", name, bad)
					continue
				}
				r.Discharged++
			}
		}
	}
	r.Coverage["path_steps"] = f.steps
	r.Floor("coverage", "failing_calls", 150)
	r.Floor("coverage", "functions", 100)
	r.Assumptions = append(r.Assumptions, "an error that is tested by its type or identity (errors.As, errors.Is, a type assertion, ==) counts as handled on the branch where the test succeeds")
	return r
}

// isWriterOfMemory: writes to in-memory buffers whose error is always nil.
func isWriterOfMemory(fn *ssa.Function) bool {
	n := fn.String()
	return strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write")
}

// Exclusive decides C22.
func Exclusive(p *core.Program) *core.Report {
	r := core.NewReport()
	f := newFlow(p)
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() < 2 || !isErr(res.At(res.Len()-1).Type()) {
			continue
		}
		r.Count("exported_functions", 1)
		for _, bad := range f.exclusive(fn, r) {
			r.Fail("value-with-error", bad.where, p.Short(fn), "%s", bad.msg)
		}
	}
	r.Floor("coverage", "exported_functions", 25)
	return r
}

type badReturn struct{ where, msg string }

// fact: what the walk of Exclusive knows about a value.
type xstate struct {
	nil_  map[ssa.Value]int // 1 nil, -1 non-nil
	calls map[ssa.Value]int // tuple of a call: 1 succeeded, -1 failed
}

func (f *flow) exclusive(fn *ssa.Function, r *core.Report) []badReturn {
	var out []badReturn
	seen := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		s    map[ssa.Value]int
	}
	resolve := func(s map[ssa.Value]int, v ssa.Value) int { return f.nilness(s, v, 0) }
	work := []item{{fn.Blocks[0], nil, map[ssa.Value]int{}}}
	returns := map[*ssa.Return]bool{}
	reported := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := map[ssa.Value]int{}
		for k, v := range it.s {
			s[k] = v
		}
		if it.from != nil {
			edge := -1
			for k, p := range it.b.Preds {
				if p == it.from {
					edge = k
				}
			}
			type upd struct {
				v ssa.Value
				n int
			}
			var ups []upd
			for _, in := range it.b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if edge >= 0 {
					ups = append(ups, upd{phi, resolve(it.s, phi.Edges[edge])})
				}
			}
			for _, u := range ups {
				delete(s, u.v)
				if u.n != 0 {
					s[u.v] = u.n
				}
			}
		}
		var ks []string
		for k, v := range s {
			ks = append(ks, fmt.Sprintf("%s=%d", k.Name(), v))
		}
		sort.Strings(ks)
		key := fmt.Sprintf("%d %s", it.b.Index, strings.Join(ks, " "))
		if seen[key] || len(seen) > 20000 {
			continue
		}
		seen[key] = true
		for _, in := range it.b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, phi := in.(*ssa.Phi); !phi {
					delete(s, v)
				}
			}
			switch x := in.(type) {
			case *ssa.If:
				var e ssa.Value
				op := token.ILLEGAL
				if c, ok := x.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
					if isNil(c.Y) {
						e, op = c.X, c.Op
					} else if isNil(c.X) {
						e, op = c.Y, c.Op
					}
				}
				for k, succ := range it.b.Succs {
					n := map[ssa.Value]int{}
					for a, b := range s {
						n[a] = b
					}
					if e != nil {
						want := -1 // non-nil
						if (op == token.EQL) == (k == 0) {
							want = 1
						}
						got := resolve(s, e)
						if got != 0 && got != want {
							continue
						}
						n[e] = want
					}
					work = append(work, item{succ, it.b, n})
				}
			case *ssa.Jump:
				work = append(work, item{it.b.Succs[0], it.b, s})
			case *ssa.Return:
				if !returns[x] {
					returns[x] = true
					r.Count("returns", 1)
					r.Obligations++
				}
				e := x.Results[len(x.Results)-1]
				en := resolve(s, e)
				ok := true
				for i, v := range x.Results[:len(x.Results)-1] {
					msg := f.pairBad(s, v, e, en)
					if msg != "" {
						ok = false
						m := fmt.Sprintf("result %d of the return at %s: %s", i+1, f.p.InstrPos(x), msg)
						if !reported[m] {
							reported[m] = true
							out = append(out, badReturn{f.p.InstrPos(x), m})
						}
					}
				}
				_ = ok
			}
		}
	}
	r.Discharged = r.Obligations - len(out)
	return out
}

// nilness of an error or pointer value: 1 nil, -1 non-nil, 0 unknown.
func (f *flow) nilness(s map[ssa.Value]int, v ssa.Value, depth int) int {
	if n, ok := s[v]; ok {
		return n
	}
	if isNil(v) {
		return 1
	}
	if depth > 8 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return 0
	case *ssa.ChangeInterface:
		return f.nilness(s, x.X, depth+1)
	case *ssa.Extract:
		// the pointer of a constructor is nil exactly when its error is not
		if c, ok := x.Tuple.(*ssa.Call); ok {
			fn := c.Call.StaticCallee()
			if fn != nil && fn.Blocks != nil && x.Index < fn.Signature.Results().Len()-1 && f.isExclusive(fn) {
				for _, ref := range *c.Referrers() {
					if y, ok := ref.(*ssa.Extract); ok && y.Index == fn.Signature.Results().Len()-1 {
						if n, ok := s[y]; ok {
							if n == 1 && isPointer(x.Type()) {
								return -1
							}
							if n == -1 {
								return 1
							}
						}
					}
				}
			}
		}
	}
	if f.valNonNil(v, map[ssa.Value]bool{}) {
		return -1
	}
	return 0
}

func isPointer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return true
	}
	return false
}

// isExclusive: fn keeps the rule of Exclusive (assumed while it is computed).
func (f *flow) isExclusive(fn *ssa.Function) bool {
	switch f.zeroOK[fn] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	f.zeroOK[fn] = 3
	if len(f.exclusive(fn, core.NewReport())) == 0 {
		f.zeroOK[fn] = 1
	} else {
		f.zeroOK[fn] = 2
	}
	return f.zeroOK[fn] == 1
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(c.Value) == 0
	}
	return false
}

// zeroWhenFailed: v is the zero value whenever the error e is non-nil.
func (f *flow) zeroWhenFailed(s map[ssa.Value]int, v, e ssa.Value) bool {
	if isZero(v) || s[v] == 1 {
		return true
	}
	x, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := x.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	y, ok := e.(*ssa.Extract)
	if !ok || y.Tuple != x.Tuple {
		// the call that made v has failed on this path
		failed := false
		for _, ref := range *c.Referrers() {
			if z, ok := ref.(*ssa.Extract); ok && isErr(z.Type()) && s[z] == -1 {
				failed = true
			}
		}
		if !failed {
			return false
		}
	}
	if fn := c.Call.StaticCallee(); fn != nil && fn.Blocks != nil {
		return f.isExclusive(fn)
	}
	if c.Call.IsInvoke() {
		// every implementation in the library is exported and checked itself
		return f.p.Owns(c.Call.Method.Pkg()) && c.Call.Method.Exported()
	}
	return false
}

// pairBad explains why a returned value does not go with the error.
func (f *flow) pairBad(s map[ssa.Value]int, v, e ssa.Value, en int) string {
	if en != 1 { // may be non-nil
		if !f.zeroWhenFailed(s, v, e) {
			return "a value other than the zero value may come with a non-nil error"
		}
	}
	if en != -1 && isPointer(v.Type()) {
		same := false
		if x, ok := v.(*ssa.Extract); ok {
			if y, ok := e.(*ssa.Extract); ok && x.Tuple == y.Tuple {
				if c, ok := x.Tuple.(*ssa.Call); ok {
					fn := c.Call.StaticCallee()
					same = fn != nil && fn.Blocks != nil && f.isExclusive(fn)
				}
			}
		}
		if !same && f.nilness(s, v, 0) != -1 {
			return "a nil pointer may come with a nil error"
		}
	}
	return ""
}
