package absint

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tokenField is the field of the parser that holds the token records.
const tokenField = "vtdBuffer"

// records are the instructions whose values flow into the records appended to
// the token buffer, or to a buffer that is handed around.
func (an *Analysis) records() map[ssa.Value]bool {
	if an.recVals != nil {
		return an.recVals
	}
	an.recVals = map[ssa.Value]bool{}
	sites := map[*ssa.Function][]*ssa.CallCommon{}
	var work []ssa.Value
	for _, fn := range an.prog.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if f := c.StaticCallee(); f != nil {
					sites[f] = append(sites[f], c)
				}
				if c.IsInvoke() && c.Method.Name() == "Append" && len(c.Args) == 1 && keepsTokens(c.Value) {
					work = append(work, c.Args[0])
				}
				if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && f.Name() == "Append" && len(c.Args) == 2 && keepsTokens(c.Args[0]) {
					work = append(work, c.Args[1])
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if an.recVals[v] {
			continue
		}
		an.recVals[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			work = append(work, x.X, x.Y)
		case *ssa.Convert:
			work = append(work, x.X)
		case *ssa.ChangeType:
			work = append(work, x.X)
		case *ssa.Phi:
			work = append(work, x.Edges...)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				work = append(work, returned(c.Common().StaticCallee(), x.Index)...)
			}
		case *ssa.Call:
			work = append(work, returned(x.Common().StaticCallee(), 0)...)
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, c := range sites[x.Parent()] {
					if i < len(c.Args) {
						work = append(work, c.Args[i])
					}
				}
			}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a {
						work = append(work, s.Val)
					}
				}
			}
		}
	}
	return an.recVals
}

func returned(fn *ssa.Function, i int) []ssa.Value {
	var r []ssa.Value
	if fn == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(x.Results) {
			r = append(r, x.Results[i])
		}
	}
	return r
}

// keepsTokens tells whether the buffer v may be the one of the tokens: it is
// not if it is read from another field.
func keepsTokens(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			st := f.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return st.Field(f.Field).Name() == tokenField
		}
	}
	return true
}

// accumulates tells whether x takes part in working out a number digit by
// digit: it depends on itself, through a multiplication or a shift.
func (an *Analysis) accumulates(x *ssa.BinOp) bool {
	if r, ok := an.accum[x]; ok {
		return r
	}
	if an.accum == nil {
		an.accum = map[*ssa.BinOp]bool{}
	}
	type node struct {
		v   ssa.Value
		mul bool
	}
	seen := map[node]bool{}
	found := false
	var walk func(v ssa.Value, mul bool)
	walk = func(v ssa.Value, mul bool) {
		if found || seen[node{v, mul}] {
			return
		}
		seen[node{v, mul}] = true
		var next []ssa.Value
		switch y := v.(type) {
		case *ssa.BinOp:
			switch y.Op {
			case token.ADD, token.OR, token.SUB:
			case token.MUL, token.SHL:
				mul = true
			default:
				return
			}
			next = []ssa.Value{y.X, y.Y}
			if y.Op == token.SHL {
				next = next[:1]
			}
		case *ssa.Convert:
			next = []ssa.Value{y.X}
		case *ssa.ChangeType:
			next = []ssa.Value{y.X}
		case *ssa.Phi:
			next = y.Edges
		case *ssa.Call:
			// a helper that works out the next number from the one so far
			next = y.Call.Args
			if f := y.Call.StaticCallee(); f == nil || f.Pkg != x.Parent().Pkg {
				return
			}
		}
		for _, n := range next {
			if n == ssa.Value(x) && mul {
				found = true
			}
			walk(n, mul)
		}
	}
	walk(x, false)
	an.accum[x] = found
	return found
}
