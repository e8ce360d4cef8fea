package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// ---- termination ----
//
// At the head of a loop every integer the state holds (registers, lengths of
// slices, fields of objects) is a cell. A pass over the body starts from the
// invariant and remembers the cells' values; each way back to the head is a
// transition between partitions. The loop ends if a lexicographic combination
// of measures over the cells decreases along every cycle of transitions.

// cells lists the integer cells of st.
func (st *State) cells() map[string]Lin {
	out := map[string]Lin{}
	var rec func(name string, v Val)
	rec = func(name string, v Val) {
		switch x := v.(type) {
		case IntV:
			out[name] = x.L
		case SliceV:
			out[name+".len"] = x.len
			out[name+".off"] = x.off
			if d, ok := x.cap.sub(x.len); ok {
				out[name+".room"] = d
			}
		case StrV:
			out[name+".len"] = x.n
		case TupV:
			for i, e := range x {
				rec(fmt.Sprintf("%s.%d", name, i), e)
			}
		case StructV:
			for i, e := range x.f {
				rec(fmt.Sprintf("%s.%d", name, i), e)
			}
		}
	}
	f := st.top()
	for i, v := range f.regs {
		if v != nil {
			rec("r"+f.fi.vals[i].Name(), v)
		}
	}
	for id, o := range st.heap {
		if o == nil || o.weak {
			continue
		}
		if o.val != nil {
			rec(fmt.Sprintf("h%d", id), o.val)
		}
		if o.arr != nil {
			out[fmt.Sprintf("h%d.n", id)] = o.arr.n
		}
	}
	return out
}

func (st *State) mkMark(head *ssa.BasicBlock, key string, cands []string) rankMark {
	m := rankMark{head: head, tags: []string{key}}
	if len(cands) == 0 {
		return m
	}
	cs := st.cells()
	for _, c := range cands {
		l, ok := cs[c]
		tag := ""
		if !ok {
			tag = "x"
		}
		m.vals = append(m.vals, l)
		m.tags = append(m.tags, tag)
		at := [2]int{-1, -1}
		if n, _ := fmt.Sscanf(c, "h%d.%d", &at[0], &at[1]); n != 2 || c != fmt.Sprintf("h%d.%d", at[0], at[1]) {
			at = [2]int{-1, -1}
		}
		m.at = append(m.at, at)
	}
	return m
}

// joinTags merges the descriptive part of two marks.
func joinTags(a, b []string) []string {
	out := append([]string(nil), a...)
	for i := range out {
		if i >= len(b) || out[i] == b[i] {
			continue
		}
		if i > 0 {
			out[i] = "x"
			continue
		}
		set := map[string]bool{}
		for _, k := range strings.Split(a[0], "\x00") {
			set[k] = true
		}
		for _, k := range strings.Split(b[0], "\x00") {
			set[k] = true
		}
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out[0] = strings.Join(ks, "\x00")
	}
	return out
}

// changedCells lists the cells whose value can differ between the head and
// the way back.
func (an *Analysis) changedCells(cur map[string]*State, backs []*State) []string {
	if !an.cfg.Rank {
		return nil
	}
	heads := map[string]map[string]Lin{}
	for k, s := range cur {
		heads[k] = s.cells()
	}
	ch := map[string]bool{}
	for _, b := range backs {
		if len(b.visit) == 0 {
			continue
		}
		m := b.visit[len(b.visit)-1]
		cells := b.cells()
		for _, k := range strings.Split(m.tags[0], "\x00") {
			h := heads[k]
			for c, l := range cells {
				o, ok := h[c]
				if !ok || !b.sys.norm(o).eq(b.sys.norm(l)) {
					ch[c] = true
				}
			}
		}
	}
	var out []string
	for c := range ch {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

type transition struct {
	st    *State
	from  []string
	to    string
	mark  rankMark
	cells map[string]Lin
}

// rank proves that loop c ends.
func (an *Analysis) rank(c comp, cands []string, cur map[string]*State, backs []*State) {
	fn := c.head.Parent()
	if core.FuncPkg(fn) == an.harness || len(backs) == 0 {
		return
	}
	in := c.head.Instrs[0]
	for _, i := range c.head.Instrs {
		if i.Pos().IsValid() {
			in = i
			break
		}
	}
	var ts []*transition
	for _, b := range backs {
		m := b.visit[len(b.visit)-1]
		to := an.keyOf(b, false)
		if cur[to] == nil {
			to = an.keyOf(b, true)
		}
		ts = append(ts, &transition{st: b, from: strings.Split(m.tags[0], "\x00"), to: to, mark: m, cells: b.cells()})
	}
	ok := an.ranked(ts, cands, 0)
	an.oblig("rank", in, ok, "no measure of this loop is seen to decrease on every iteration (changing: %s)", an.describe(fn, cands))
}

func (an *Analysis) describe(fn *ssa.Function, cands []string) string {
	fi := an.info(fn)
	var out []string
	for _, c := range cands {
		if strings.HasPrefix(c, "h") {
			var id int
			var fld int
			if n, _ := fmt.Sscanf(c, "h%d.%d", &id, &fld); n == 2 && id < len(an.objs) {
				if s, ok := an.objs[id].typ.Underlying().(*types.Struct); ok && fld < s.NumFields() {
					out = append(out, short(an.objs[id].typ.String())+"."+s.Field(fld).Name())
					continue
				}
			}
			continue
		}
		name := strings.TrimPrefix(c, "r")
		for _, v := range fi.vals {
			if v.Name() == strings.SplitN(name, ".", 2)[0] {
				if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
					name = p.Comment
				}
			}
		}
		out = append(out, name)
	}
	if len(out) > 8 {
		out = append(out[:8], "…")
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ", ")
}

// measure is ±a (∓b), over cell indices into cands or, for b, the name of a
// cell that does not change.
type measure struct {
	a, sg int
	b     int    // -1: none
	fix   string // "" or the name of an unchanged cell
}

func (t *transition) eval(m measure, cands []string) (old, now Lin, ok bool) {
	get := func(i int) (Lin, Lin, bool) {
		if i+1 >= len(t.mark.tags) || t.mark.tags[i+1] != "" {
			return Lin{}, Lin{}, false
		}
		n, ok := t.cells[cands[i]]
		return t.mark.vals[i], n, ok
	}
	o, n, ok := get(m.a)
	if !ok {
		return
	}
	if m.sg < 0 {
		var k1, k2 bool
		o, k1 = o.neg()
		n, k2 = n.neg()
		if !k1 || !k2 {
			return Lin{}, Lin{}, false
		}
	}
	var fo, fn Lin
	switch {
	case m.b >= 0:
		fo, fn, ok = get(m.b)
		if !ok {
			return
		}
		// the second cell enters with the opposite sign
		o2, k1 := lincomb(1, o, int64(-m.sg), fo)
		n2, k2 := lincomb(1, n, int64(-m.sg), fn)
		return o2, n2, k1 && k2
	case m.fix != "":
		f, ok := t.cells[m.fix]
		if !ok {
			return Lin{}, Lin{}, false
		}
		o2, k1 := lincomb(1, o, int64(-m.sg), f)
		n2, k2 := lincomb(1, n, int64(-m.sg), f)
		return o2, n2, k1 && k2
	}
	return o, n, true
}

// ranked decides a set of transitions.
func (an *Analysis) ranked(ts []*transition, cands []string, depth int) bool {
	for _, scc := range cyclic(ts) {
		if depth > 8 {
			return false
		}
		an.tick()
		rest, ok := an.shrink(scc, cands)
		if !ok {
			if an.cfg.Debug == "rank" {
				for _, t := range scc {
					trace("UNRANKED %q -> %q cands %v\n%s", t.from, t.to, cands, t.st)
					for i := range cands {
						if d, ok := t.mark.vals[i].sub(t.cells[cands[i]]); ok {
							dn, ok2 := d.neg()
							trace("   %s: falls %v rises %v", cands[i], t.st.sys.entailGE(d), ok2 && t.st.sys.entailGE(dn))
						}
						trace("   %s: %s -> %s", cands[i], an.linStr(t.st.sys.norm(t.mark.vals[i])), an.linStr(t.st.sys.norm(t.cells[cands[i]])))
					}
				}
			}
			return false
		}
		if !an.ranked(rest, cands, depth+1) {
			return false
		}
	}
	return true
}

// shrink removes the transitions a measure strictly decreases on.
func (an *Analysis) shrink(ts []*transition, cands []string) ([]*transition, bool) {
	var ms []measure
	for i := range cands {
		ms = append(ms, measure{i, 1, -1, ""}, measure{i, -1, -1, ""})
	}
	for i := range cands {
		for j := range cands {
			if i != j {
				ms = append(ms, measure{i, 1, j, ""})
			}
		}
	}
	changed := map[string]bool{}
	for _, c := range cands {
		changed[c] = true
	}
	var fixed []string
	for c := range ts[0].cells {
		if !changed[c] {
			fixed = append(fixed, c)
		}
	}
	sort.Strings(fixed)
	try := func(m measure) ([]*transition, bool) {
		var rest []*transition
		strict := false
		for _, t := range ts {
			o, n, ok := t.eval(m, cands)
			if !ok {
				return nil, false
			}
			d, ok := o.sub(n)
			if !ok || !t.st.sys.entailGE(d) {
				return nil, false
			}
			d, ok = d.addC(-1)
			if ok && t.st.sys.entailGE(d) {
				if lo, ok := t.st.sys.lower(t.st.sys.norm(o)); ok && lo >= -maxLen-64 {
					strict = true
					continue
				}
			}
			rest = append(rest, t)
		}
		return rest, strict
	}
	for _, m := range ms {
		if rest, ok := try(m); ok {
			return rest, true
		}
	}
	for i := range cands {
		for _, f := range fixed {
			for _, sg := range []int{-1, 1} {
				if rest, ok := try(measure{i, sg, -1, f}); ok {
					return rest, true
				}
			}
		}
	}
	return nil, false
}

// cyclic returns the transitions inside each strongly connected component of
// the partition graph.
func cyclic(ts []*transition) [][]*transition {
	succ := map[string]map[string]bool{}
	for _, t := range ts {
		for _, f := range t.from {
			if succ[f] == nil {
				succ[f] = map[string]bool{}
			}
			succ[f][t.to] = true
		}
	}
	reach := map[string]map[string]bool{}
	for k := range succ {
		r := map[string]bool{}
		work := []string{k}
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			for s := range succ[n] {
				if !r[s] {
					r[s] = true
					work = append(work, s)
				}
			}
		}
		reach[k] = r
	}
	byRep := map[string][]*transition{}
	var reps []string
	for _, t := range ts {
		seen := map[string]bool{}
		for _, f := range t.from {
			if !reach[f][t.to] || !(reach[t.to] != nil && reach[t.to][f]) {
				continue
			}
			// representative: the least member of the component
			rep := f
			for k := range reach[f] {
				if reach[k] != nil && reach[k][f] && k < rep {
					rep = k
				}
			}
			if seen[rep] {
				continue
			}
			seen[rep] = true
			if byRep[rep] == nil {
				reps = append(reps, rep)
			}
			byRep[rep] = append(byRep[rep], t)
		}
	}
	sort.Strings(reps)
	var out [][]*transition
	for _, r := range reps {
		out = append(out, byRep[r])
	}
	return out
}
