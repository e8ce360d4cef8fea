package absint

import (
	"math"
	"sort"
)

// Row is lo <= sum T <= hi, with T normalised: gcd 1, first coefficient > 0.
type Row struct {
	T      []Term
	h      uint64
	lo, hi int64
}

// Eq is the solved equality A = L.
type Eq struct {
	A Atom
	L Lin
}

// Sys is a conjunction of linear facts over atoms.
type Sys struct {
	an   *Analysis
	eqs  []Eq
	rows []Row
	ne   []Lin // each is != 0
	bot  bool
	pos  map[string]int64 // cache of proved lower bounds (valid while facts only grow)
	miss map[string]bool  // cache of failed queries for the current facts
	pos0 []map[string]int64
	mis0 []map[string]bool
	low  map[string]lowRes // answers about lower bounds for the current facts
	pts  []*point          // points that satisfy the facts about the atoms they know
}

func newSys(an *Analysis) *Sys { return &Sys{an: an} }

func (s *Sys) clone() *Sys {
	if len(s.pos) > 0 {
		s.pos0 = append(s.pos0[:len(s.pos0):len(s.pos0)], s.pos)
		if len(s.pos0) > 6 {
			s.pos0 = s.pos0[len(s.pos0)-6:]
		}
		s.pos = nil
	}
	if len(s.miss) > 0 {
		s.mis0 = append(s.mis0[:len(s.mis0):len(s.mis0)], s.miss)
		s.miss = nil
	}
	return &Sys{pos0: s.pos0, mis0: s.mis0, pts: s.pts[:len(s.pts):len(s.pts)], an: s.an, eqs: append([]Eq(nil), s.eqs...), rows: append([]Row(nil), s.rows...),
		ne: append([]Lin(nil), s.ne...), bot: s.bot}
}

func hashTerms(t []Term) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range t {
		h = (h ^ uint64(uint32(x.A))) * 1099511628211
		h = (h ^ uint64(x.K)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func sameTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// norm rewrites l with the equalities.
func (s *Sys) norm(l Lin) Lin {
	if len(s.eqs) == 0 || len(l.T) == 0 {
		return l
	}
	hit := false
	for _, t := range l.T {
		if s.eqOf(t.A) != nil {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	out := Lin{C: l.C}
	for _, t := range l.T {
		e := s.eqOf(t.A)
		var ok bool
		if e == nil {
			out, ok = lincomb(1, out, t.K, atomLin(t.A))
		} else {
			out, ok = lincomb(1, out, t.K, *e)
		}
		if !ok {
			return l // overflowing coefficients: the unsubstituted form is still right
		}
	}
	return out
}

func (s *Sys) eqOf(a Atom) *Lin {
	for i := range s.eqs {
		if s.eqs[i].A == a {
			return &s.eqs[i].L
		}
	}
	return nil
}

// canon splits l into canonical terms with l = sg*g*T + C.
func canon(l Lin) (t []Term, sg int64, g int64) {
	for _, x := range l.T {
		if x.K == math.MinInt64 {
			return l.T, 1, 1
		}
		g = gcd(g, x.K)
	}
	sg = 1
	if l.T[0].K < 0 {
		sg = -1
	}
	if g == 1 && sg == 1 {
		return l.T, 1, 1
	}
	t = make([]Term, len(l.T))
	for i, x := range l.T {
		t[i] = Term{x.A, x.K / g * sg}
	}
	return t, sg, g
}

func (s *Sys) findRow(t []Term, h uint64) int {
	for i := range s.rows {
		if s.rows[i].h == h && sameTerms(s.rows[i].T, t) {
			return i
		}
	}
	return -1
}

func (s *Sys) atomBounds(a Atom) (lo, hi int64) {
	inf := &s.an.atoms[a]
	lo, hi = inf.lo, inf.hi
	t := [1]Term{{a, 1}}
	if i := s.findRow(t[:], hashTerms(t[:])); i >= 0 {
		r := &s.rows[i]
		if r.lo > lo {
			lo = r.lo
		}
		if r.hi < hi {
			hi = r.hi
		}
	}
	return
}

func (s *Sys) dirty() {
	s.miss = nil
	s.mis0 = nil
	s.low = nil
}

// posBound and missed look the caches up.
func (s *Sys) posBound(k string) (int64, bool) {
	b, ok := s.pos[k]
	for _, m := range s.pos0 {
		if c, has := m[k]; has && (!ok || c > b) {
			b, ok = c, true
		}
	}
	return b, ok
}

func (s *Sys) missed(k string) bool {
	if s.miss[k] {
		return true
	}
	for _, m := range s.mis0 {
		if m[k] {
			return true
		}
	}
	return false
}

// sift keeps the points at which keep does not fail.
func (s *Sys) sift(l Lin, eq bool) {
	if len(s.pts) == 0 {
		return
	}
	var out []*point
	for _, p := range s.pts {
		v, mag, ok := p.value(l)
		eps := 1e-7 + mag*1e-12
		switch {
		case ok && (v < -eps || eq && v > eps):
		case !ok && p.touches(l):
		default:
			out = append(out, p)
		}
	}
	s.pts = out
}

const maxPts = 6

func (s *Sys) addPt(p *point) {
	if p == nil {
		return
	}
	if len(s.pts) >= maxPts {
		s.pts = s.pts[1:]
	}
	s.pts = append(s.pts[:len(s.pts):len(s.pts)], p)
}

// refuted reports whether a known point contradicts l >= 0.
func (s *Sys) refuted(l Lin) bool {
	for _, p := range s.pts {
		v, mag, ok := p.value(l)
		if ok && v <= -1-mag*1e-11 {
			return true
		}
	}
	return false
}

// addGE asserts l >= 0.
func (s *Sys) addGE(l Lin) {
	if s.bot {
		return
	}
	l = s.norm(l)
	if l.isConst() {
		if l.C < 0 {
			s.bot = true
		}
		return
	}
	t, sg, g := canon(l)
	// sg*g*T + C >= 0
	h := hashTerms(t)
	i := s.findRow(t, h)
	if i < 0 {
		s.rows = append(s.rows, Row{t, h, negInf, posInf})
		i = len(s.rows) - 1
		if len(t) == 1 {
			s.rows[i].lo, s.rows[i].hi = s.an.atoms[t[0].A].lo, s.an.atoms[t[0].A].hi
		}
	}
	r := &s.rows[i]
	ch := false
	if sg > 0 { // T >= -C/g, rounded up
		b := -floorDiv(l.C, g)
		if l.C == negInf {
			return
		}
		if b > r.lo {
			r.lo = b
			ch = true
		}
	} else { // T <= C/g
		b := floorDiv(l.C, g)
		if b < r.hi {
			r.hi = b
			ch = true
		}
	}
	if !ch {
		return
	}
	s.dirty()
	s.sift(l, false)
	s.fixRow(i)
}

// fixRow handles diseqs and collapsed bounds of row i.
func (s *Sys) fixRow(i int) {
	for {
		r := s.rows[i]
		if r.lo > r.hi {
			s.bot = true
			return
		}
		again := false
		for _, n := range s.ne {
			if len(n.T) == len(r.T) {
				t, sg, g := canon(n)
				if sameTerms(t, r.T) && n.C%g == 0 {
					v := -n.C / g * sg
					if v == r.lo {
						s.rows[i].lo++
						again = true
						break
					}
					if v == r.hi {
						s.rows[i].hi--
						again = true
						break
					}
				}
			}
		}
		if !again {
			break
		}
	}
	r := s.rows[i]
	if r.lo == r.hi && r.lo != negInf && r.hi != posInf {
		s.rows = append(s.rows[:i:i], s.rows[i+1:]...)
		s.addEQ(Lin{-r.lo, r.T})
	}
}

// addEQ asserts l == 0.
func (s *Sys) addEQ(l Lin) { s.addEQpref(l, nil) }

// addEQpref prefers eliminating atoms for which dead reports true.
func (s *Sys) addEQpref(l Lin, dead func(Atom) bool) {
	if s.bot {
		return
	}
	l = s.norm(l)
	if l.isConst() {
		if l.C != 0 {
			s.bot = true
		}
		return
	}
	t, sg, g := canon(l)
	if l.C%g != 0 {
		s.bot = true
		return
	}
	l = Lin{l.C / g * sg, t}
	s.sift(l, true)
	// choose the atom to eliminate
	best := -1
	for i, x := range l.T {
		if x.K != 1 && x.K != -1 {
			continue
		}
		if best < 0 {
			best = i
			continue
		}
		if dead != nil {
			db, dx := dead(l.T[best].A), dead(x.A)
			if dx != db {
				if dx {
					best = i
				}
				continue
			}
		}
		if x.A > l.T[best].A {
			best = i
		}
	}
	if best < 0 {
		h := hashTerms(l.T)
		i := s.findRow(l.T, h)
		if i < 0 {
			s.rows = append(s.rows, Row{l.T, h, -l.C, -l.C})
		} else {
			r := &s.rows[i]
			if r.lo > -l.C || r.hi < -l.C {
				s.bot = true
				return
			}
			r.lo, r.hi = -l.C, -l.C
		}
		s.dirty()
		return
	}
	a, k := l.T[best].A, l.T[best].K
	rest := make([]Term, 0, len(l.T)-1)
	for i, x := range l.T {
		if i != best {
			rest = append(rest, x)
		}
	}
	e, ok := (Lin{l.C, rest}).mul(-k) // a = -k*(rest)
	if !ok {
		return
	}
	s.eliminate(a, e)
}

// eliminate replaces a by e everywhere and records a = e.
func (s *Sys) eliminate(a Atom, e Lin) {
	for i := range s.eqs {
		if s.eqs[i].L.coef(a) != 0 {
			if n, ok := s.eqs[i].L.subst(a, e); ok {
				s.eqs[i].L = n
			} else {
				// cannot represent: keep as row-free fact (drop), sound
				s.eqs = append(s.eqs[:i:i], s.eqs[i+1:]...)
				s.eliminate(a, e)
				return
			}
		}
	}
	s.eqs = append(s.eqs, Eq{a, e})
	s.dirty()
	// bounds intrinsic to a
	inf := s.an.atoms[a]
	var redo []Lin
	if inf.lo != negInf {
		if x, ok := e.addC(-inf.lo); ok && inf.lo != math.MinInt64 {
			redo = append(redo, x)
		}
	}
	if inf.hi != posInf {
		if x, ok := e.neg(); ok {
			if x, ok = x.addC(inf.hi); ok {
				redo = append(redo, x)
			}
		}
	}
	var kept []Row
	for _, r := range s.rows {
		has := false
		for _, t := range r.T {
			if t.A == a {
				has = true
				break
			}
		}
		if !has {
			kept = append(kept, r)
			continue
		}
		n, ok := (Lin{0, r.T}).subst(a, e)
		if !ok {
			continue
		}
		if r.lo != negInf {
			if x, ok := n.addC(-r.lo); ok {
				redo = append(redo, x)
			}
		}
		if r.hi != posInf {
			if x, ok := n.neg(); ok {
				if x, ok = x.addC(r.hi); ok {
					redo = append(redo, x)
				}
			}
		}
	}
	s.rows = kept
	ne := s.ne
	s.ne = nil
	for _, n := range ne {
		if n.coef(a) != 0 {
			if x, ok := n.subst(a, e); ok {
				s.addNE(x)
			}
		} else {
			s.ne = append(s.ne, n)
		}
	}
	for _, x := range redo {
		s.addGE(x)
		if s.bot {
			return
		}
	}
}

func (s *Sys) addNE(l Lin) {
	if s.bot {
		return
	}
	l = s.norm(l)
	if l.isConst() {
		if l.C == 0 {
			s.bot = true
		}
		return
	}
	t, sg, g := canon(l)
	if l.C%g != 0 {
		return
	}
	l = Lin{l.C / g * sg, t}
	for _, n := range s.ne {
		if n.eq(l) {
			return
		}
	}
	s.ne = append(s.ne, l)
	s.dirty()
	h := hashTerms(t)
	i := s.findRow(t, h)
	if i >= 0 {
		s.fixRow(i)
		return
	}
	// tighten against derived bounds
	if s.entailGE(l) {
		if x, ok := l.addC(-1); ok {
			s.addGE(x)
		}
	} else if n, ok := l.neg(); ok && s.entailGE(n) {
		if x, ok := n.addC(-1); ok {
			s.addGE(x)
		}
	}
}

// quickMin bounds l from below with atom bounds only.
func (s *Sys) quickMin(l Lin) (int64, bool) {
	b := l.C
	for _, t := range l.T {
		lo, hi := s.atomBounds(t.A)
		v := lo
		if t.K < 0 {
			v = hi
		}
		if v == negInf || v == posInf {
			return 0, false
		}
		m, ok := mulOv(t.K, v)
		if !ok {
			return 0, false
		}
		b, ok = addOv(b, m)
		if !ok {
			return 0, false
		}
	}
	return b, true
}

func rowGE(r *Row) []Lin {
	var out []Lin
	if r.lo != negInf && r.lo > -(1<<62) {
		out = append(out, Lin{-r.lo, r.T})
	}
	if r.hi != posInf && r.hi < 1<<62 {
		n, ok := (Lin{0, r.T}).neg()
		if ok {
			n.C = r.hi
			out = append(out, n)
		}
	}
	return out
}

// slice collects the constraints within the given number of hops of l's atoms.
func (s *Sys) slice(l Lin, hops int) ([]Lin, bool) {
	in := map[Atom]bool{}
	for _, t := range l.T {
		in[t.A] = true
	}
	used := make([]bool, len(s.rows))
	var cs []Lin
	full := false
	for d := 0; d < hops && !full; d++ {
		full = true
		var add []Atom
		for i := range s.rows {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range s.rows[i].T {
				if in[t.A] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				full = false
				cs = append(cs, rowGE(&s.rows[i])...)
				for _, t := range s.rows[i].T {
					if !in[t.A] {
						add = append(add, t.A)
					}
				}
			}
		}
		for _, a := range add {
			in[a] = true
		}
	}
	as := make([]Atom, 0, len(in))
	for a := range in {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	for _, a := range as {
		t := [1]Term{{a, 1}}
		if s.findRow(t[:], hashTerms(t[:])) >= 0 {
			continue // the row already carries the intrinsic bounds
		}
		inf := &s.an.atoms[a]
		if inf.lo > -(1 << 61) {
			cs = append(cs, Lin{-inf.lo, []Term{{a, 1}}})
		}
		if inf.hi < 1<<61 {
			cs = append(cs, Lin{inf.hi, []Term{{a, -1}}})
		}
	}
	return cs, full
}

// lower returns the best lower bound of l that can be proved.
func (s *Sys) lower(l Lin) (int64, bool) {
	if s.bot {
		return posInf, true
	}
	l = s.norm(l)
	if l.isConst() {
		return l.C, true
	}
	if len(s.low) > 0 {
		if r, ok := s.low[l.key()]; ok {
			return r.b, r.ok
		}
	}
	q, qok := s.quickMin(l)
	cs, full := s.slice(l, 6)
	st, b, pt := lpMin(cs, l)
	if st == lpBounded && full {
		s.addPt(pt)
	}
	switch st {
	case lpInfeasible:
		s.bot = true
		return posInf, true
	case lpBounded:
		if qok && q > b {
			b = q
		}
		return b, true
	}
	return q, qok
}

func (s *Sys) upper(l Lin) (int64, bool) {
	n, ok := l.neg()
	if !ok {
		return 0, false
	}
	b, ok := s.lower(n)
	if !ok || b == negInf {
		return 0, false
	}
	if b == posInf {
		return negInf, true
	}
	return -b, true
}

// entailGE reports whether l >= 0 is implied.
func (s *Sys) entailGE(l Lin) bool {
	if s.bot {
		return true
	}
	l = s.norm(l)
	if l.isConst() {
		return l.C >= 0
	}
	if b, ok := s.quickMin(l); ok && b >= 0 {
		return true
	}
	t, sg, g := canon(l)
	if i := s.findRow(t, hashTerms(t)); i >= 0 {
		r := &s.rows[i]
		if sg > 0 {
			if r.lo != negInf {
				if v, ok := mulOv(g, r.lo); ok {
					if v, ok = addOv(v, l.C); ok && v >= 0 {
						return true
					}
				}
			}
		} else if r.hi != posInf {
			if v, ok := mulOv(g, r.hi); ok {
				if v, ok = addOv(l.C, -v); ok && v >= 0 {
					return true
				}
			}
		}
	}
	k := l.linKey()
	if s.pos == nil {
		s.pos = map[string]int64{}
	}
	if b, ok := s.posBound(k); ok && b+l.C >= 0 {
		return true
	}
	if s.refuted(l) {
		return false
	}
	mk := l.key()
	if s.missed(mk) {
		return false
	}
	res := false
	for _, hops := range []int{1, 2, 8} {
		cs, full := s.slice(l, hops)
		if len(cs) == 0 {
			break
		}
		st, b, pt := lpMin(cs, l)
		if st == lpInfeasible {
			s.bot = true
			return true
		}
		if (full || hops == 8) && st == lpBounded {
			s.addPt(pt)
		}
		if st == lpBounded && b >= 0 {
			res = true
			if pb := b - l.C; pb > s.pos[k] || s.pos[k] == 0 {
				s.pos[k] = pb
			}
			break
		}
		if full {
			break
		}
	}
	if !res {
		if s.miss == nil {
			s.miss = map[string]bool{}
		}
		s.miss[mk] = true
	}
	return res
}

func (s *Sys) entailEQ(l Lin) bool {
	l = s.norm(l)
	if l.isConst() {
		return l.C == 0
	}
	if !s.entailGE(l) {
		return false
	}
	n, ok := l.neg()
	return ok && s.entailGE(n)
}

func (s *Sys) entailNE(l Lin) bool {
	if s.bot {
		return true
	}
	l = s.norm(l)
	if l.isConst() {
		return l.C != 0
	}
	t, sg, g := canon(l)
	if l.C%g != 0 {
		return true
	}
	c := Lin{l.C / g * sg, t}
	for _, n := range s.ne {
		if n.eq(c) {
			return true
		}
	}
	if x, ok := l.addC(-1); ok && s.entailGE(x) {
		return true
	}
	if n, ok := l.neg(); ok {
		if x, ok := n.addC(-1); ok && s.entailGE(x) {
			return true
		}
	}
	return false
}

// feasible runs one LP around l to discover contradictions.
func (s *Sys) feasible(l Lin) bool {
	if s.bot {
		return false
	}
	l = s.norm(l)
	if l.isConst() {
		return true
	}
	cs, _ := s.slice(l, 8)
	if len(cs) == 0 {
		return true
	}
	st, _, _ := lpMin(cs, Lin{C: 0})
	if st == lpInfeasible {
		s.bot = true
		return false
	}
	return true
}

// project eliminates every atom for which live reports false.
func (s *Sys) project(live func(Atom) bool) {
	if s.bot {
		return
	}
	dead := func(a Atom) bool { return !live(a) }
	for {
		again := false
		for i := range s.eqs {
			e := s.eqs[i]
			if dead(e.A) {
				s.eqs = append(s.eqs[:i:i], s.eqs[i+1:]...)
				again = true
				break
			}
			var d Atom = -1
			var k int64
			for _, t := range e.L.T {
				if dead(t.A) && (t.K == 1 || t.K == -1) {
					d, k = t.A, t.K
					break
				}
			}
			if d >= 0 {
				// A = L  =>  d = k*(A - (L - k d))
				rest, _ := e.L.subst(d, konst(0))
				x, ok := lincomb(k, atomLin(e.A), -k, rest)
				if !ok {
					continue
				}
				s.eqs = append(s.eqs[:i:i], s.eqs[i+1:]...)
				s.eliminate(d, x)
				if s.bot {
					return
				}
				again = true
				break
			}
			hasDead := false
			for _, t := range e.L.T {
				if dead(t.A) {
					hasDead = true
				}
			}
			if hasDead {
				// keep as two inequalities for Fourier-Motzkin
				x, ok := lincomb(1, atomLin(e.A), -1, e.L)
				s.eqs = append(s.eqs[:i:i], s.eqs[i+1:]...)
				// A's occurrences elsewhere were rewritten already; A is live and
				// now only constrained by this fact.
				if ok {
					t, sg, g := canon(x)
					if x.C%g == 0 {
						s.rows = append(s.rows, Row{t, hashTerms(t), -x.C / g * sg, -x.C / g * sg})
					}
				}
				again = true
				break
			}
		}
		if !again {
			break
		}
	}
	// equalities hidden in rows with non-unit coefficients and dead atoms are
	// handled like other rows
	for {
		var d Atom = -1
		bestCost := 1 << 30
		cost := map[Atom][2]int{}
		for i := range s.rows {
			r := &s.rows[i]
			for _, t := range r.T {
				if !dead(t.A) {
					continue
				}
				c := cost[t.A]
				up, dn := 0, 0
				if r.lo != negInf {
					up++
				}
				if r.hi != posInf {
					dn++
				}
				if t.K < 0 {
					up, dn = dn, up
				}
				c[0] += up
				c[1] += dn
				cost[t.A] = c
			}
		}
		for a, c := range cost {
			inf := s.an.atoms[a]
			p, n := c[0], c[1]
			if inf.lo > -(1<<61) && inf.lo != negInf {
				p++
			}
			if inf.hi < 1<<61 {
				n++
			}
			x := p*n - p - n
			if x < bestCost || (x == bestCost && a < d) {
				bestCost, d = x, a
			}
		}
		if d < 0 {
			break
		}
		var pos, neg []Lin // coefficient of d positive / negative
		var kept []Row
		for i := range s.rows {
			r := s.rows[i]
			k := (Lin{0, r.T}).coef(d)
			if k == 0 {
				kept = append(kept, r)
				continue
			}
			for _, l := range rowGE(&r) {
				if l.coef(d) > 0 {
					pos = append(pos, l)
				} else {
					neg = append(neg, l)
				}
			}
		}
		s.rows = kept
		s.dirty()
		inf := s.an.atoms[d]
		if inf.lo > -(1 << 61) {
			pos = append(pos, Lin{-inf.lo, []Term{{d, 1}}})
		}
		if inf.hi < 1<<61 {
			neg = append(neg, Lin{inf.hi, []Term{{d, -1}}})
		}
		if len(pos)*len(neg) <= 36 {
			for _, p := range pos {
				for _, n := range neg {
					kp, kn := p.coef(d), -n.coef(d)
					g := gcd(kp, kn)
					if c, ok := lincomb(kn/g, p, kp/g, n); ok && len(c.T) <= 5 {
						if !c.isConst() {
							s.addGE(c)
						} else if c.C < 0 {
							s.bot = true
						}
						if s.bot {
							return
						}
					}
				}
			}
		}
	}
	var ne []Lin
	for _, n := range s.ne {
		ok := true
		for _, t := range n.T {
			if dead(t.A) {
				ok = false
			}
		}
		if ok {
			ne = append(ne, n)
		}
	}
	s.ne = ne
	// prune redundant rows implied by atom bounds
	if len(s.rows) > 60 {
		s.prune()
	}
}

// prune drops multi-term rows implied by atom bounds alone.
func (s *Sys) prune() {
	var kept []Row
	for _, r := range s.rows {
		if len(r.T) == 1 {
			kept = append(kept, r)
			continue
		}
		if r.lo != negInf {
			if b, ok := s.quickMin(Lin{0, r.T}); ok && b >= r.lo {
				r.lo = negInf
			}
		}
		if r.hi != posInf {
			n, ok := (Lin{0, r.T}).neg()
			if ok {
				if b, ok := s.quickMin(n); ok && -b <= r.hi {
					r.hi = posInf
				}
			}
		}
		if r.lo != negInf || r.hi != posInf {
			kept = append(kept, r)
		}
	}
	s.rows = kept
}

// mentioned are the atoms the system says something about.
func (s *Sys) mentioned() map[Atom]bool {
	m := map[Atom]bool{}
	for _, r := range s.rows {
		for _, t := range r.T {
			m[t.A] = true
		}
	}
	for _, e := range s.eqs {
		m[e.A] = true
		for _, t := range e.L.T {
			m[t.A] = true
		}
	}
	return m
}
