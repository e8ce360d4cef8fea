package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

const (
	maxGroups  = 40
	widenAfter = 2
	maxPasses  = 60
)

// run is one activation of a function body, or one pass over a loop in it.
type run struct {
	an   *Analysis
	fi   *fnInfo
	loop map[*ssa.BasicBlock]bool
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock][]*State
	back []*State
	exit []edgeState
	rets []*State
}

type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

func (r *run) push(to *ssa.BasicBlock, st *State) {
	if r.loop != nil {
		if to == r.head {
			r.back = append(r.back, st)
			return
		}
		if !r.loop[to] {
			r.exit = append(r.exit, edgeState{to, st})
			return
		}
	}
	r.in[to] = append(r.in[to], st)
}

// take removes and merges the states waiting at b.
func (r *run) take(b *ssa.BasicBlock) []*State {
	sts := r.in[b]
	delete(r.in, b)
	if len(sts) <= 1 {
		return sts
	}
	return r.an.mergeStates(sts, false)
}

// keyOf is the partition a state belongs to.
func (an *Analysis) keyOf(st *State, coarse bool) string {
	var b strings.Builder
	b.WriteString(st.sticky)
	b.WriteByte('|')
	if len(st.frames) > 0 {
		f := st.top()
		for i, v := range f.regs {
			if v == nil {
				continue
			}
			if !coarse {
				an.keyVal(&b, st, v, f.fi.vals[i].Type())
			} else if iv, ok := v.(IntV); ok {
				if _, named := f.fi.vals[i].Type().(*types.Named); named {
					an.keyVal(&b, st, iv, f.fi.vals[i].Type())
				}
			}
			b.WriteByte(',')
		}
	}
	b.WriteByte('|')
	for id, o := range st.heap {
		if o == nil || o.weak {
			continue
		}
		if o.arr != nil && o.arr.zero {
			for _, e := range o.arr.ents {
				if isZero(st, e.v) {
					fmt.Fprintf(&b, "%d:z", id)
				}
			}
		}
		if o.val == nil {
			continue
		}
		sv, ok := o.val.(StructV)
		if !ok {
			continue
		}
		for i, f := range sv.f {
			if iv, ok := f.(IntV); ok && an.constField[fieldKey(o.typ, i)] {
				fmt.Fprintf(&b, "%d.%d:", id, i)
				l := st.sys.norm(iv.L)
				if l.isConst() {
					fmt.Fprintf(&b, "%d", l.C)
				}
				b.WriteByte(';')
			}
		}
	}
	return b.String()
}

func (an *Analysis) keyVal(b *strings.Builder, st *State, v Val, t types.Type) {
	switch x := v.(type) {
	case BoolV:
		switch st.decide(x.C) {
		case 1:
			b.WriteByte('T')
		case 0:
			b.WriteByte('F')
		default:
			b.WriteByte('?')
		}
	case PtrV:
		b.WriteByte("xmn"[x.null])
	case SliceV:
		b.WriteByte("xmn"[x.null])
	case FuncV:
		b.WriteByte("xmn"[x.null])
		for _, a := range x.alts {
			b.WriteString(a.fn.String())
		}
	case IfaceV:
		b.WriteByte("xmn"[x.null])
		for _, s := range sortedTypes(x.alts) {
			b.WriteString(short(s))
		}
	case IntV:
		if _, named := types.Unalias(t).(*types.Named); named {
			l := st.sys.norm(x.L)
			if l.isConst() {
				fmt.Fprintf(b, "%d", l.C)
			} else {
				b.WriteByte('?')
			}
		}
	case TupV:
		tt, _ := t.(*types.Tuple)
		for i, e := range x {
			if e == nil {
				continue
			}
			var et types.Type = types.Typ[types.Int]
			if tt != nil && i < tt.Len() {
				et = tt.At(i).Type()
			}
			an.keyVal(b, st, e, et)
			b.WriteByte('.')
		}
	}
}

// group sorts states by key.
func (an *Analysis) group(sts []*State) (keys []string, m map[string][]*State) {
	m = map[string][]*State{}
	for _, s := range sts {
		k := an.keyOf(s, false)
		if m[k] == nil {
			keys = append(keys, k)
		}
		m[k] = append(m[k], s)
	}
	if len(keys) > maxGroups {
		keys = nil
		m = map[string][]*State{}
		for _, s := range sts {
			k := an.keyOf(s, true)
			if m[k] == nil {
				keys = append(keys, k)
			}
			m[k] = append(m[k], s)
		}
	}
	sort.Strings(keys)
	return
}

func (an *Analysis) mergeStates(sts []*State, widen bool) []*State {
	if len(sts) <= 1 {
		return sts
	}
	keys, m := an.group(sts)
	var out []*State
	for _, k := range keys {
		g := m[k]
		s := g[0]
		for _, o := range g[1:] {
			s = an.join(s, o, false)
		}
		if !s.sys.bot {
			out = append(out, s)
		}
	}
	return out
}

func (r *run) comps(cs []comp) {
	for _, c := range cs {
		if c.loop {
			r.doLoop(c)
			continue
		}
		for _, st := range r.take(c.head) {
			r.block(c.head, st)
		}
	}
}

// block executes b from st (after the phis).
func (r *run) block(b *ssa.BasicBlock, st *State) {
	an := r.an
	an.tick()
	if len(st.sys.rows) > 70 {
		st.gc()
	}
	cur := []*State{st}
	for _, in := range b.Instrs {
		if len(cur) == 0 {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range cur {
				c := s.condOf(x.Cond)
				f := s.clone()
				for _, q := range s.assume(c, true) {
					r.edge(b, 0, q)
				}
				for _, q := range f.assume(c, false) {
					r.edge(b, 1, q)
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				r.edge(b, 0, s)
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				r.ret(s, x)
			}
			return
		}
		var next []*State
		for _, s := range cur {
			for _, q := range an.step(s, in) {
				if !q.sys.bot {
					next = append(next, q)
				}
			}
		}
		cur = next
		if len(cur) > 12 {
			for _, s := range cur {
				killDead(s, an.liveAt(r.fi, b, in))
			}
			cur = an.mergeStates(cur, false)
		}
	}
}

// liveAt computes what is live after in.
func (an *Analysis) liveAt(fi *fnInfo, b *ssa.BasicBlock, at ssa.Instruction) []bool {
	if l, ok := fi.after[at]; ok {
		l = append([]bool(nil), l...)
		if v, ok := at.(ssa.Value); ok {
			l[fi.idx[v]] = true
		}
		return l
	}
	// conservative: everything defined so far and used later in the block or
	// live out of it
	live := make([]bool, len(fi.vals))
	for i := range live {
		live[i] = true
	}
	return live
}

func killDead(st *State, live []bool) {
	f := st.top()
	need := false
	for i, v := range f.regs {
		if v != nil && !live[i] {
			need = true
			break
		}
	}
	if !need {
		return
	}
	f = st.wframe()
	for i := range f.regs {
		if !live[i] {
			f.regs[i] = nil
		}
	}
}

func (r *run) edge(b *ssa.BasicBlock, si int, st *State) {
	to := b.Succs[si]
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			pi = i
			// a block can reach a successor by both branches
			if si == 1 && b.Succs[0] == to {
				for k := i + 1; k < len(to.Preds); k++ {
					if to.Preds[k] == b {
						pi = k
					}
				}
			}
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, st.reg(phi.Edges[pi]))
	}
	live := r.fi.liveIn[to.Index]
	f := st.wframe()
	for i := range f.regs {
		if !live[i] {
			f.regs[i] = nil
		}
	}
	for i, phi := range phis {
		if live[r.fi.idx[phi]] {
			f.regs[r.fi.idx[phi]] = vals[i]
		}
	}
	r.push(to, st)
}

func (r *run) ret(st *State, x *ssa.Return) {
	if r.an.cfg.Zero && r.fi.readsInts() {
		st.forgetZeros()
	}
	var v Val
	switch len(x.Results) {
	case 0:
		v = TupV{}
	case 1:
		v = st.reg(x.Results[0])
	default:
		t := make(TupV, len(x.Results))
		for i, e := range x.Results {
			t[i] = st.reg(e)
		}
		v = t
	}
	f := st.top()
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	st.fOwn = false
	if f.call != nil && len(st.frames) > 0 {
		if cv, ok := f.call.(ssa.Value); ok {
			st.set(cv, v)
		}
	}
	r.rets = append(r.rets, st)
}

// call runs fn to completion; the results sit in the caller's register.
func (an *Analysis) call(st *State, fn *ssa.Function, args, binds []Val, site ssa.CallInstruction) []*State {
	an.stats.calls++
	if an.cfg.Profile {
		start := time.Now()
		defer func() {
			p := an.prof[fn]
			if p == nil {
				p = &profile{}
				an.prof[fn] = p
			}
			p.calls++
			p.total += time.Since(start)
		}()
	}
	fi := an.info(fn)
	an.log.funcs[fn] = true
	for _, f := range st.frames {
		if f.fi.fn == fn {
			if site != nil {
				an.undecided(site.(ssa.Instruction), "recursive call of %s", fn.Name())
			}
			return nil
		}
	}
	if len(st.frames) > 60 {
		an.undecided(site.(ssa.Instruction), "calls nest too deeply")
		return nil
	}
	ctx := ""
	if len(st.frames) > 0 {
		ctx = st.top().ctx
	}
	if site != nil {
		done := false
		if fn.Signature.Recv() != nil && len(args) > 0 {
			if p, ok := args[0].(PtrV); ok && len(p.alts) == 1 && !p.alts[0].elem {
				ctx = fmt.Sprintf("o%d", p.alts[0].obj)
				done = true
			}
		}
		if !done {
			ctx = fmt.Sprintf("%s/%d", ctx, an.siteID(site.(ssa.Instruction)))
		}
	}
	nf := &Frame{fi: fi, regs: make([]Val, len(fi.vals)), ctx: ctx, call: site}
	k := 0
	for range fn.Params {
		if k < len(args) {
			nf.regs[k] = args[k]
		}
		k++
	}
	for i := range fn.FreeVars {
		if i < len(binds) {
			nf.regs[k] = binds[i]
		}
		k++
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], nf)
	st.fOwn = true
	live := fi.liveIn[0]
	for i := range nf.regs {
		if !live[i] {
			nf.regs[i] = nil
		}
	}
	if d, ok := strings.CutPrefix(an.cfg.Debug, "call:"); ok && strings.Contains(fn.String(), d) {
		trace("CALL %s", st)
	}
	if an.cfg.Subst && site != nil {
		if k := an.memoable(fn); k.ok {
			return an.memoCall(st, fn, k)
		}
		if k := an.summable(fn); k.ok {
			if out, ok := an.sumCall(st, fn, k); ok {
				return out
			}
		}
	}
	r := &run{an: an, fi: fi, in: map[*ssa.BasicBlock][]*State{}}
	r.push(fn.Blocks[0], st)
	r.comps(fi.wto)
	if site != nil && len(r.rets) > 1 {
		return an.mergeStates(r.rets, false)
	}
	return r.rets
}

func (an *Analysis) siteID(in ssa.Instruction) int {
	k := allocKey{in, "site"}
	if id, ok := an.allocs[k]; ok {
		return int(id)
	}
	id := ObjID(1_000_000 + len(an.allocs))
	an.allocs[k] = id
	return int(id)
}

// splitPasses is the number of partitions from which each is run by itself.
const splitPasses = 4

// maxUnroll is the number of rounds a loop over functions is followed for.
const maxUnroll = 8

// unrolled follows a loop that calls the functions of a slice (the options of
// a constructor) round by round, if it ends within a few.
func (r *run) unrolled(c comp, entry []*State) bool {
	an := r.an
	members := r.fi.inLoop[c.head]
	dynamic := false
	for _, b := range r.fi.fn.Blocks {
		if !members[b] {
			continue
		}
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok && !x.Call.IsInvoke() && x.Call.StaticCallee() == nil {
				_, builtin := x.Call.Value.(*ssa.Builtin)
				dynamic = dynamic || !builtin
			}
		}
	}
	if !dynamic {
		return false
	}
	saved := an.log
	defer func() { an.log = saved }()
	an.log = newLog()
	log := an.log
	var exits []edgeState
	var rets []*State
	heads := an.mergeStates(entry, false)
	for n := 0; len(heads) > 0; n++ {
		if n > maxUnroll {
			return false
		}
		sub := &run{an: an, fi: r.fi, loop: members, head: c.head, in: map[*ssa.BasicBlock][]*State{}}
		for _, h := range heads {
			s := h.clone()
			s.visit = append(s.visit[:len(s.visit):len(s.visit)], s.mkMark(c.head, "", nil))
			sub.block(c.head, s)
		}
		sub.comps(c.body)
		exits = append(exits, sub.exit...)
		rets = append(rets, sub.rets...)
		heads = nil
		for _, b := range sub.back {
			heads = append(heads, b.unmarked())
		}
		heads = an.mergeStates(heads, false)
	}
	an.log = saved
	an.log.merge(log)
	for _, e := range exits {
		r.push(e.to, e.st.unmarked())
	}
	for _, s := range rets {
		r.rets = append(r.rets, s.unmarked())
	}
	return true
}

// doLoop stabilises a loop and forwards its exits.
func (r *run) doLoop(c comp) {
	an := r.an
	entry := r.take(c.head)
	if len(entry) == 0 {
		return
	}
	saved := an.log
	members := r.fi.inLoop[c.head]
	if r.unrolled(c, entry) {
		return
	}
	cur := map[string]*State{}
	var keys []string
	put := func(k string, s *State) {
		if cur[k] == nil {
			keys = append(keys, k)
			sort.Strings(keys)
		}
		cur[k] = s
	}
	ek, em := an.group(entry)
	for _, k := range ek {
		s := em[k][0]
		for _, o := range em[k][1:] {
			s = an.join(s, o, false)
		}
		put(k, s)
	}
	entryOf := map[string]*State{}
	for k, s := range cur {
		entryOf[k] = s
	}
	type result struct {
		sub  *run
		log  *passLog
		cur  map[string]*State
		keys []string
	}
	// pass runs the body from every partition; what a partition led to is kept
	// until its state changes
	type one struct {
		st  *State
		sub *run
		log *passLog
	}
	cache := map[string]*one{}
	pass := func(cands []string) *result {
		an.stats.passes++
		sub := &run{an: an, fi: r.fi, loop: members, head: c.head, in: map[*ssa.BasicBlock][]*State{}}
		res := &result{sub: sub, log: newLog(), cur: map[string]*State{}, keys: append([]string(nil), keys...)}
		if len(keys) < splitPasses {
			an.log = res.log
			for _, k := range keys {
				res.cur[k] = cur[k]
				s := cur[k].clone()
				s.visit = append(s.visit[:len(s.visit):len(s.visit)], s.mkMark(c.head, k, cands))
				sub.block(c.head, s)
			}
			sub.comps(c.body)
			return res
		}
		for _, k := range keys {
			res.cur[k] = cur[k]
			o := cache[k]
			if o == nil || o.st != cur[k] || len(cands) > 0 {
				o = &one{st: cur[k], log: newLog()}
				an.log = o.log
				o.sub = &run{an: an, fi: r.fi, loop: members, head: c.head, in: map[*ssa.BasicBlock][]*State{}}
				s := cur[k].clone()
				s.visit = append(s.visit[:len(s.visit):len(s.visit)], s.mkMark(c.head, k, cands))
				o.sub.block(c.head, s)
				o.sub.comps(c.body)
				if len(cands) == 0 {
					cache[k] = o
				}
			}
			sub.back = append(sub.back, o.sub.back...)
			sub.exit = append(sub.exit, o.sub.exit...)
			sub.rets = append(sub.rets, o.sub.rets...)
			res.log.merge(o.log)
		}
		return res
	}
	visits := map[string]int{}
	widened := false
	var acc *result
	var lastBacks map[string][]*State
	for iter := 0; ; iter++ {
		if iter > maxPasses {
			an.log = saved
			an.undecided(c.head.Instrs[0], "the loop does not stabilise")
			return
		}
		res := pass(nil)
		backs := map[string][]*State{}
		var bkeys []string
		for _, b := range res.sub.back {
			// the key must not depend on the mark
			k := an.keyOf(b, false)
			if cur[k] == nil && len(cur) >= maxGroups {
				k = an.keyOf(b, true)
			}
			if backs[k] == nil {
				bkeys = append(bkeys, k)
			}
			backs[k] = append(backs[k], b)
		}
		sort.Strings(bkeys)
		lastBacks = backs
		grew := false
		next := map[string]*State{}
		for _, k := range bkeys {
			old := cur[k]
			var todo []*State
			for _, b := range backs[k] {
				b = b.unmarked()
				if old != nil {
					if ok, why := an.included(b, old); ok {
						continue
					} else if an.cfg.Debug != "" && strings.Contains(r.fi.fn.String(), an.cfg.Debug) {
						trace("  loop %s b%d pass %d key %q: %s", r.fi.fn.Name(), c.head.Index, iter, k, why)
						trace("BACK %s", b)
					}
				}
				todo = append(todo, b)
			}
			if len(todo) == 0 {
				continue
			}
			grew = true
			s := todo[0]
			for _, o := range todo[1:] {
				s = an.join(s, o, false)
			}
			if old != nil {
				visits[k]++
				w := visits[k] > widenAfter
				if w {
					widened = true
				}
				an.strict = 0
				switch {
				case visits[k] > 18:
					an.strict = 4
				case visits[k] > 12:
					an.strict = 3
				case visits[k] > 9:
					an.strict = 2
				case visits[k] > 5:
					an.strict = 1
				}
				s = an.join(old, s, w)
				an.strict = 0
				if visits[k] > 14 {
					s = an.shed(s, todo)
				}
			}
			if an.cfg.Debug != "" && strings.Contains(r.fi.fn.String(), an.cfg.Debug) {
				trace("AFTER pass %d\n%s", iter, s)
			}
			next[k] = s
		}
		if !grew {
			acc = res
			break
		}
		for k, s := range next {
			put(k, s)
		}
	}
	// one or two decreasing passes
	for n := 0; widened && n < 2; n++ {
		cand := map[string]*State{}
		var ck []string
		for k, s := range entryOf {
			cand[k] = s
		}
		for k, bs := range lastBacks {
			for _, b := range bs {
				b = b.unmarked()
				if cand[k] == nil {
					cand[k] = b
				} else {
					cand[k] = an.join(cand[k], b, false)
				}
			}
		}
		for k := range cand {
			ck = append(ck, k)
		}
		sort.Strings(ck)
		oc, ok2 := cur, keys
		cur, keys = cand, ck
		res := pass(nil)
		good := true
		backs := map[string][]*State{}
		for _, b := range res.sub.back {
			k := an.keyOf(b, false)
			if cand[k] == nil {
				k = an.keyOf(b, true)
			}
			if cand[k] == nil {
				good = false
				break
			}
			backs[k] = append(backs[k], b)
			if ok, _ := an.included(b.unmarked(), cand[k]); !ok {
				good = false
				break
			}
		}
		if !good {
			cur, keys = oc, ok2
			break
		}
		lastBacks = backs
		acc = res
	}
	if an.cfg.Debug != "" && strings.Contains(r.fi.fn.String(), an.cfg.Debug) {
		for _, k := range acc.keys {
			trace("INVARIANT %s b%d key %q\n%s", r.fi.fn, c.head.Index, k, acc.cur[k])
		}
	}
	var cands []string
	ranking := an.cfg.Rank && len(acc.sub.back) > 0 && core.FuncPkg(r.fi.fn) != an.harness
	if ranking {
		cands = an.changedCells(acc.cur, acc.sub.back)
		cur, keys = acc.cur, acc.keys
		acc = pass(cands)
	}
	an.log = saved
	an.log.merge(acc.log)
	if ranking {
		an.rank(c, cands, acc.cur, acc.sub.back)
	}
	for _, e := range acc.sub.exit {
		r.push(e.to, e.st.unmarked())
	}
	for _, s := range acc.sub.rets {
		r.rets = append(r.rets, s.unmarked())
	}
}

// shed gives up the facts of s that joining could not confirm for the states
// that were joined into it.
func (an *Analysis) shed(s *State, todo []*State) *State {
	for n := 0; n < 40; n++ {
		bad := false
		for _, b := range todo {
			if ok, _ := an.included(b, s); ok || an.failRow < 0 {
				continue
			}
			i := an.failRow
			c := s.clone()
			c.sys = &Sys{an: an, eqs: s.sys.eqs, rows: append(append([]Row(nil), s.sys.rows[:i]...), s.sys.rows[i+1:]...), ne: s.sys.ne, bot: s.sys.bot}
			s, bad = c, true
		}
		if !bad {
			break
		}
	}
	return s
}

func (st *State) unmarked() *State {
	n := st.clone()
	n.visit = st.visit[: len(st.visit)-1 : len(st.visit)-1]
	return n
}

// ---- packages and globals ----

func (an *Analysis) initGlobals(st *State) {
	var gs []*ssa.Global
	for _, p := range an.prog.SSA.AllPackages() {
		if !an.prog.Owns(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		an.objs = append(an.objs, objInfo{name: short(g.String()), typ: t})
		id := ObjID(len(an.objs) - 1)
		an.globals[g] = id
		an.globalObjs = append(an.globalObjs, id)
		v, arr := an.cellOf(t)
		st.setObj(&Obj{id: id, typ: t, val: v, arr: arr})
	}
}

func (an *Analysis) runInit(st *State, fn *ssa.Function) []*State {
	return an.call(st, fn, nil, nil, nil)
}

func ownFn(an *Analysis, fn *ssa.Function) bool {
	return fn.Blocks != nil && an.prog.Owns(core.FuncPkg(fn))
}
