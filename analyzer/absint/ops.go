package absint

import (
	"go/token"
	"go/types"
	"math/bits"
)

// Integer operations on linear forms. Every function returns a form equal to
// the machine result in all concrete states.

func (an *Analysis) newAtom(name string, lo, hi int64) Atom {
	an.atoms = append(an.atoms, atomInfo{lo: lo, hi: hi, name: name})
	return Atom(len(an.atoms) - 1)
}

func (an *Analysis) atomOf(name string, t types.Type) Lin {
	lo, hi, ok := intRange(t)
	if !ok {
		lo, hi = negInf, posInf
	}
	return atomLin(an.newAtom(name, lo, hi))
}

// opaque names the value of op(x,y) at type t; equal operands give the same
// atom. The definition stays pending so that later facts can resolve it.
func (st *State) opaque(op string, x, y Lin, k int64, t types.Type) Lin {
	x, y = st.sys.norm(x), st.sys.norm(y)
	for _, d := range st.defs {
		if d.op == op && d.k == k && d.x.eq(x) && d.y.eq(y) && (d.t == nil || t == nil || d.t == t.Underlying()) {
			return atomLin(d.a)
		}
	}
	lo, hi, ok := intRange(t)
	if !ok {
		lo, hi = negInf, posInf
	}
	a := st.an.newAtom(op, lo, hi)
	b, _ := t.Underlying().(*types.Basic)
	st.defs = append(st.defs, Def{a: a, op: op, x: x, y: y, k: k, t: b})
	return atomLin(a)
}

func pow2(k int64) int64 { return int64(1) << uint(k) }

// within reports whether lo <= l <= hi, ignoring infinite ends.
func (st *State) within(l Lin, lo, hi int64) bool {
	if lo != negInf {
		x, ok := l.addC(-lo)
		if !ok || !st.sys.entailGE(x) {
			return false
		}
	}
	if hi != posInf {
		n, ok := l.neg()
		if !ok {
			return false
		}
		x, ok := n.addC(hi)
		if !ok || !st.sys.entailGE(x) {
			return false
		}
	}
	return true
}

// inInt64 reports whether l certainly fits int64.
func (st *State) inInt64(l Lin) bool {
	l = st.sys.norm(l)
	if l.isConst() {
		return true
	}
	if len(l.T) == 1 && l.T[0].K == 1 && l.C == 0 {
		return true // an atom of 64-bit machine range
	}
	return st.absBelow(l)
}

// absBelow proves |l| < 2^63 from atom bounds, then by LP on a coarser bound.
func (st *State) absBelow(l Lin) bool {
	var up, dn uint64
	okq := true
	add := func(p *uint64, k, v int64) {
		hi, lo := bits.Mul64(uint64(abs64(k)), uint64(abs64(v)))
		if hi != 0 || lo > 1<<63-1 || *p+lo > 1<<63-1 {
			okq = false
			return
		}
		*p += lo
	}
	if l.C > 0 {
		up = uint64(l.C)
	} else if l.C != negInf {
		dn = uint64(-l.C)
	} else {
		dn = 1 << 63
	}
	for _, t := range l.T {
		lo, hi := st.sys.atomBounds(t.A)
		if lo == negInf { // posInf is a bound: the largest machine integer
			okq = false
			break
		}
		if t.K < 0 {
			lo, hi = -hi, -lo
		}
		k := abs64(t.K)
		if hi > 0 {
			add(&up, k, hi)
		} else if lo > 0 {
			// contributes positively at least; ignore
		}
		if lo < 0 {
			add(&dn, k, lo)
		}
	}
	if okq {
		if up <= 1<<63-1 && dn <= 1<<63 {
			return true
		}
		// mixed signs: e.g. -3*2^60 + 2^52*d; use exact interval
		if lo, hi, ok := st.interval128(l); ok && lo && hi {
			return true
		}
	}
	// a packed pair, half by half
	if h, o := splitPow(l, 32); len(h.T) > 0 {
		if st.within(o, 0, 1<<32) && st.within(h, -1<<31, 1<<31-2) {
			return true
		}
	}
	lim := int64(1) << 62
	return st.within(l, -lim, lim)
}

// interval128 checks both ends of l against int64 using 128-bit sums.
func (st *State) interval128(l Lin) (loOK, hiOK, ok bool) {
	type i128 struct {
		hi int64
		lo uint64
	}
	addm := func(a i128, k, v int64) i128 {
		neg := (k < 0) != (v < 0)
		h, lw := bits.Mul64(uint64(abs64(k)), uint64(abs64(v)))
		b := i128{int64(h), lw}
		if neg {
			b.lo = ^b.lo + 1
			b.hi = ^b.hi
			if b.lo == 0 {
				b.hi++
			}
		}
		s, c := bits.Add64(a.lo, b.lo, 0)
		return i128{a.hi + b.hi + int64(c), s}
	}
	ext := func(v int64) i128 {
		if v < 0 {
			return i128{-1, uint64(v)}
		}
		return i128{0, uint64(v)}
	}
	mn, mx := ext(l.C), ext(l.C)
	for _, t := range l.T {
		lo, hi := st.sys.atomBounds(t.A)
		if lo == negInf || hi == posInf {
			return false, false, false
		}
		if t.K < 0 {
			lo, hi = hi, lo
		}
		mn, mx = addm(mn, t.K, lo), addm(mx, t.K, hi)
	}
	fit := func(x i128) bool {
		return (x.hi == 0 && x.lo <= 1<<63-1) || (x.hi == -1 && x.lo >= 1<<63)
	}
	return fit(mn), fit(mx), true
}

// fit reduces the mathematical value e to type t.
func (st *State) fit(e Lin, ok bool, op string, x, y Lin, t types.Type) Lin {
	if !ok {
		return st.opaque(op, x, y, 0, t)
	}
	e = st.sys.norm(e)
	if isInt64(t) {
		if st.inInt64(e) || st.counterOK(e) {
			return e
		}
		return st.opaque(op, x, y, 0, t)
	}
	if isUint64(t) {
		if st.sys.entailGE(e) && (st.inInt64(e) || st.counterOK(e) || st.uint64Below(e)) {
			return e
		}
		return st.opaque(op, x, y, 0, t)
	}
	lo, hi, k := intRange(t)
	if !k {
		return st.an.atomOf(op, t)
	}
	if st.within(e, lo, hi) {
		return e
	}
	// a definite wrap by a multiple of 2^n
	size := hi - lo + 1
	l1, ok1 := st.sys.lower(e)
	if ok1 && l1 != posInf && l1 != negInf {
		n := floorDiv(l1-lo, size)
		if m, ok := mulOv(n, size); ok && n != 0 {
			if s, ok := e.addC(-m); ok && st.within(s, lo, hi) {
				return s
			}
		}
	}
	return st.opaque(op, x, y, 0, t)
}

// uint64Below proves l < 2^64 for l >= 0 by atom bounds.
func (st *State) uint64Below(l Lin) bool {
	var up uint64
	if l.C > 0 {
		up = uint64(l.C)
	}
	for _, t := range l.T {
		lo, hi := st.sys.atomBounds(t.A)
		v := hi
		k := t.K
		if k < 0 {
			v, k = lo, -k
			if v == negInf {
				return false
			}
			v = -v
		}
		if v == posInf {
			return false
		}
		if v <= 0 {
			continue
		}
		h, lw := bits.Mul64(uint64(k), uint64(v))
		if h != 0 {
			return false
		}
		var c uint64
		up, c = bits.Add64(up, lw, 0)
		if c != 0 {
			return false
		}
	}
	return true
}

// counterOK accepts base + small constant when base is a counter: a quantity
// that starts within +-2^61 and only ever changes by constants below 2^40 per
// program step, so that 2^63 is out of reach of any feasible execution.
func (st *State) counterOK(e Lin) bool {
	if len(e.T) != 1 || abs64(e.T[0].K) != 1 || abs64(e.C) > 1<<40 {
		return false
	}
	return st.an.atoms[e.T[0].A].counter
}

func (st *State) isCounter(e Lin) bool {
	if st.counterOK(e) {
		return true
	}
	lim := int64(1) << 61
	if e.isConst() {
		return abs64(e.C) <= lim
	}
	return st.within(e, -lim, lim)
}

func (st *State) addL(x, y Lin, t types.Type) Lin {
	e, ok := x.add(y)
	return st.fit(e, ok, "add", x, y, t)
}

func (st *State) subL(x, y Lin, t types.Type) Lin {
	e, ok := x.sub(y)
	return st.fit(e, ok, "sub", x, y, t)
}

func (st *State) mulL(x, y Lin, t types.Type) Lin {
	x, y = st.sys.norm(x), st.sys.norm(y)
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			if isInt64(t) {
				return konst(x.C * y.C)
			}
		}
		e, ok := x.mul(y.C)
		return st.fit(e, ok, "mul", x, y, t)
	}
	return st.opaque("mul", x, y, 0, t)
}

// splitPow writes l = 2^k*hi + lo by coefficients.
func splitPow(l Lin, k int64) (hi, lo Lin) {
	if k >= 63 {
		return konst(0), l
	}
	p := pow2(k)
	for _, t := range l.T {
		if t.K%p == 0 {
			hi.T = append(hi.T, Term{t.A, t.K / p})
		} else if q := floorDiv(t.K, p); k >= 16 && (q < -1 || q > 0 || t.K < -p/2 || t.K > p/2) {
			// nearest multiple
			r := t.K - q*p
			if r > p/2 {
				q, r = q+1, r-p
			}
			hi.T = append(hi.T, Term{t.A, q})
			lo.T = append(lo.T, Term{t.A, r})
		} else {
			lo.T = append(lo.T, t)
		}
	}
	hi.C = floorDiv(l.C, p)
	lo.C = l.C - hi.C*p
	if k >= 16 && len(hi.T) > 0 && len(lo.T) > 0 && lo.C > p/2 {
		hi.C, lo.C = hi.C+1, lo.C-p
	}
	return
}

// floorShr is floor(l / 2^k) as an exact form (possibly with a fresh atom
// tied to l by linear bounds).
func (st *State) floorShr(l Lin, k int64) Lin {
	l = st.sys.norm(l)
	if k == 0 {
		return l
	}
	if l.isConst() {
		if k >= 63 {
			if l.C < 0 {
				return konst(-1)
			}
			return konst(0)
		}
		return konst(l.C >> uint(k))
	}
	if k >= 62 {
		if k >= 63 {
			if st.sys.entailGE(l) {
				return konst(0)
			}
			if n, ok := l.neg(); ok {
				if n, ok = n.addC(-1); ok && st.sys.entailGE(n) {
					return konst(-1)
				}
			}
		}
		return st.opaque("shr", l, konst(0), k, types.Typ[types.Int64])
	}
	p := pow2(k)
	hi, lo := splitPow(l, k)
	if st.within(lo, 0, p-1) {
		return hi
	}
	// move whole multiples of p out of lo
	if b, ok := st.sys.lower(lo); ok && b != posInf && b != negInf {
		n := floorDiv(b, p)
		if n != 0 {
			if m, ok := mulOv(n, p); ok {
				if s, ok := lo.addC(-m); ok && st.within(s, 0, p-1) {
					if h, ok := hi.addC(n); ok {
						return h
					}
				}
			}
		}
	}
	// fresh quotient for lo: p*q <= lo <= p*q + p-1
	for _, d := range st.defs {
		if d.op == "shr" && d.k == k && d.x.eq(lo) {
			if r, ok := hi.add(atomLin(d.a)); ok {
				return r
			}
		}
	}
	a := st.an.newAtom("shr", negInf, posInf)
	st.defs = append(st.defs, Def{a: a, op: "shr", x: lo, k: k, t: nil})
	if x, ok := lincomb(1, lo, -p, atomLin(a)); ok {
		st.S().addGE(x)
		if y, ok := x.neg(); ok {
			if y, ok = y.addC(p - 1); ok {
				st.S().addGE(y)
			}
		}
	}
	// carry over constant bounds
	if b, ok := st.sys.lower(lo); ok && b != posInf && b != negInf {
		st.S().addGE(Lin{-floorDiv(b, p), []Term{{a, 1}}})
	}
	if b, ok := st.sys.upper(lo); ok && b != posInf && b != negInf {
		st.S().addGE(Lin{floorDiv(b, p), []Term{{a, -1}}})
	}
	if r, ok := hi.add(atomLin(a)); ok {
		return r
	}
	return st.opaque("shr", l, konst(0), k, types.Typ[types.Int64])
}

// lowBits is l mod 2^k in [0,2^k).
func (st *State) lowBits(l Lin, k int64) Lin {
	l = st.sys.norm(l)
	if k <= 0 {
		return konst(0)
	}
	if k >= 63 {
		if st.sys.entailGE(l) {
			return l
		}
		return st.opaque("low", l, konst(0), k, types.Typ[types.Uint64])
	}
	p := pow2(k)
	_, lo := splitPow(l, k)
	if st.within(lo, 0, p-1) {
		return lo
	}
	q := st.floorShr(lo, k)
	e, ok := lincomb(1, lo, -p, q)
	if ok && len(e.T) > 1 {
		// name the low part: one atom for the narrowed value survives joins,
		// and the wide value is written in terms of it
		f := st.an.newAtom("low", 0, p-1)
		if d, ok := e.sub(atomLin(f)); ok {
			wide := map[Atom]bool{}
			for _, t := range lo.T {
				wide[t.A] = true
			}
			st.S().addEQpref(d, func(a Atom) bool { return wide[a] })
			return st.sys.norm(atomLin(f))
		}
	}
	if !ok {
		a := st.an.newAtom("low", 0, p-1)
		return atomLin(a)
	}
	return e
}

// convOf unwraps a pending int64->uint64 conversion: the bits are those of x.
func (st *State) convOf(l Lin) (Lin, bool) {
	if len(l.T) == 1 && l.T[0].K == 1 && l.C == 0 {
		for _, d := range st.defs {
			if d.a == l.T[0].A && d.op == "u64" {
				return d.x, true
			}
		}
	}
	return l, false
}

// bitRuns lists the maximal runs [lo,hi) of ones in m.
func bitRuns(m uint64) (runs [][2]int64) {
	for i := int64(0); i < 64; {
		if m>>uint(i)&1 == 0 {
			i++
			continue
		}
		j := i
		for j < 64 && m>>uint(j)&1 == 1 {
			j++
		}
		runs = append(runs, [2]int64{i, j})
		i = j
	}
	return
}

// andMask is bits(l) & m where l is the mathematical value.
func (st *State) andMask(l Lin, m uint64, t types.Type) Lin {
	l = st.sys.norm(l)
	if x, ok := st.convOf(l); ok {
		l = st.sys.norm(x)
	}
	signed := !isUint64(t) && isInt64(t)
	out := konst(0)
	for _, r := range bitRuns(m) {
		lo, hi := r[0], r[1]
		q := st.floorShr(l, lo)
		var part Lin
		if hi == 64 {
			if signed {
				part = q // keeps the sign
			} else {
				part = st.lowBits(q, 64-lo)
			}
		} else {
			part = st.lowBits(q, hi-lo)
		}
		if lo >= 62 && !part.isConst() {
			return st.opaque("and", l, konst(int64(m)), 0, t)
		}
		sh, ok := part.mul(pow2(lo))
		if !ok {
			return st.opaque("and", l, konst(int64(m)), 0, t)
		}
		if out, ok = out.add(sh); !ok {
			return st.opaque("and", l, konst(int64(m)), 0, t)
		}
	}
	return out
}

// tz is the largest k with l a multiple of 2^k by coefficients.
func tz(l Lin) int64 {
	k := int64(63)
	f := func(v int64) {
		if v == 0 {
			return
		}
		if z := int64(bits.TrailingZeros64(uint64(v))); z < k {
			k = z
		}
	}
	f(l.C)
	for _, t := range l.T {
		f(t.K)
	}
	return k
}

// orDisjoint returns x|y when the bits provably do not overlap.
func (st *State) orDisjoint(x, y Lin) (Lin, bool) {
	x, y = st.sys.norm(x), st.sys.norm(y)
	for i := 0; i < 2; i++ {
		k := tz(x)
		if k > 0 {
			hi := int64(posInf)
			if k < 63 {
				hi = pow2(k) - 1
			}
			if st.within(y, 0, hi) {
				return x.add(y)
			}
		}
		x, y = y, x
	}
	return Lin{}, false
}

func (st *State) bitOr(x, y Lin, t types.Type) Lin {
	x, y = st.sys.norm(x), st.sys.norm(y)
	if x.isConst() && y.isConst() {
		return konst(x.C | y.C)
	}
	if x.isConst() && x.C == 0 {
		return y
	}
	if y.isConst() && y.C == 0 {
		return x
	}
	if e, ok := st.orDisjoint(x, y); ok {
		return e
	}
	// split off the low part of x under a constant y: x|c with x multiple of
	// a higher power
	r := st.opaque("or", x, y, 0, t)
	if st.sys.entailGE(x) && st.sys.entailGE(y) {
		s := st.S()
		for _, z := range []Lin{x, y} {
			if d, ok := r.sub(z); ok {
				s.addGE(d)
			}
		}
		if d, ok := x.add(y); ok {
			if d, ok = d.sub(r); ok {
				s.addGE(d)
			}
		}
	}
	return r
}

// resolveDefs retries the pending definitions.
func (st *State) resolveDefs() {
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(st.defs); i++ {
			d := st.defs[i]
			e, ok := st.tryDef(&d)
			if !ok {
				continue
			}
			n := make([]Def, 0, len(st.defs)-1)
			n = append(n, st.defs[:i]...)
			n = append(n, st.defs[i+1:]...)
			st.defs = n
			if x, ok := lincomb(1, atomLin(d.a), -1, e); ok {
				st.S().addEQ(x)
			}
			changed = true
			break
		}
	}
}

func (st *State) tryDef(d *Def) (Lin, bool) {
	x, y := st.sys.norm(d.x), st.sys.norm(d.y)
	var t types.Type
	if d.t != nil {
		t = d.t
	}
	fits := func(e Lin, ok bool) (Lin, bool) {
		if !ok || t == nil {
			return Lin{}, false
		}
		e = st.sys.norm(e)
		if isInt64(t) {
			return e, st.inInt64(e)
		}
		if isUint64(t) {
			return e, st.sys.entailGE(e) && (st.inInt64(e) || st.uint64Below(e))
		}
		lo, hi, ok := intRange(t)
		return e, ok && st.within(e, lo, hi)
	}
	switch d.op {
	case "add":
		e, ok := x.add(y)
		return fits(e, ok)
	case "sub":
		e, ok := x.sub(y)
		return fits(e, ok)
	case "mul":
		if y.isConst() {
			e, ok := x.mul(y.C)
			return fits(e, ok)
		}
		if x.isConst() {
			e, ok := y.mul(x.C)
			return fits(e, ok)
		}
	case "or":
		if x.isConst() && y.isConst() {
			return konst(x.C | y.C), true
		}
		return st.orDisjoint(x, y)
	case "shl":
		if e, ok := st.shlExact(x, d.k, t); ok {
			return e, true
		}
	case "conv":
		return fits(x, true)
	case "u64":
		if st.sys.entailGE(x) {
			return x, true
		}
	case "shr":
		if d.k < 62 {
			hi, lo := splitPow(x, d.k)
			if st.within(lo, 0, pow2(d.k)-1) {
				return hi, true
			}
		}
	}
	return Lin{}, false
}

// shlExact computes x<<k at type t when the wrapped result is provable.
func (st *State) shlExact(x Lin, k int64, t types.Type) (Lin, bool) {
	x = st.sys.norm(x)
	if t == nil {
		return Lin{}, false
	}
	if k >= 64 {
		return konst(0), true
	}
	if isInt64(t) || isUint64(t) {
		// multiply with the constant wrapping mod 2^64
		out := Lin{}
		for _, tm := range x.T {
			if k >= 63 {
				return Lin{}, false
			}
			v, ok := mulOv(tm.K, pow2(k))
			if !ok {
				return Lin{}, false
			}
			out.T = append(out.T, Term{tm.A, v})
		}
		out.C = x.C << uint(k)
		exactC := k < 63
		if exactC {
			if v, ok := mulOv(x.C, pow2(k)); !ok || v != out.C {
				exactC = false
			}
		}
		if isInt64(t) {
			if out.isConst() {
				return out, true
			}
			if st.inInt64(out) {
				return out, true
			}
			if k >= 2 && k < 63 && exactC && st.within(x, -pow2(63-k), pow2(63-k)-1) {
				return out, true
			}
			if k >= 2 && k < 63 && !exactC && x.C >= pow2(63-k) && x.C < 2*pow2(63-k) && st.within(x, pow2(63-k), 2*pow2(63-k)-1) {
				return out, true
			}
			return Lin{}, false
		}
		if exactC && st.sys.entailGE(out) && (st.inInt64(out) || st.uint64Below(out)) {
			return out, true
		}
		return Lin{}, false
	}
	if k >= 62 {
		return Lin{}, false
	}
	e, ok := x.mul(pow2(k))
	if !ok {
		return Lin{}, false
	}
	lo, hi, ok2 := intRange(t)
	if ok2 && st.within(e, lo, hi) {
		return e, true
	}
	if ok2 && e.isConst() {
		size := hi - lo + 1
		return konst(e.C - floorDiv(e.C-lo, size)*size), true
	}
	return Lin{}, false
}

func (st *State) shl(x Lin, k Lin, t types.Type) Lin {
	k = st.sys.norm(k)
	if k.isConst() && k.C >= 0 {
		if e, ok := st.shlExact(x, k.C, t); ok {
			return e
		}
		return st.opaque("shl", x, konst(0), k.C, t)
	}
	return st.opaque("shlv", x, k, 0, t)
}

func (st *State) shr(x Lin, k Lin, t types.Type) Lin {
	k = st.sys.norm(k)
	x = st.sys.norm(x)
	if k.isConst() && k.C >= 0 {
		if isUint64(t) {
			if _, is := st.convOf(x); is {
				c, _ := st.convOf(x)
				// logical shift of the bits of c
				q := st.floorShr(c, k.C)
				if k.C == 0 {
					return x
				}
				return st.lowBits(q, 64-k.C)
			}
		}
		return st.floorShr(x, k.C)
	}
	r := st.opaque("shrv", x, k, 0, t)
	s := st.S()
	if st.sys.entailGE(x) { // 0 <= r <= x
		s.addGE(r)
		if d, ok := x.sub(r); ok {
			s.addGE(d)
		}
	} else if n, ok := x.neg(); ok {
		if n, ok = n.addC(-1); ok && st.sys.entailGE(n) { // x <= r <= -1
			if d, ok := r.sub(x); ok {
				s.addGE(d)
			}
			if d, ok := r.neg(); ok {
				if d, ok = d.addC(-1); ok {
					s.addGE(d)
				}
			}
		}
	}
	return r
}

func (st *State) bitAnd(x, y Lin, t types.Type) Lin {
	x, y = st.sys.norm(x), st.sys.norm(y)
	if x.isConst() && y.isConst() {
		return konst(x.C & y.C)
	}
	mask := func(c Lin) (uint64, bool) {
		if c.isConst() {
			return uint64(c.C), true
		}
		if len(c.T) == 1 && c.T[0].K == 1<<60 { // pinned big constant
			inf := st.an.atoms[c.T[0].A]
			if inf.lo == inf.hi {
				return uint64(inf.lo)<<60 + uint64(c.C), true
			}
		}
		return 0, false
	}
	if m, ok := mask(y); ok {
		return st.andMask(x, st.truncMask(m, t), t)
	}
	if m, ok := mask(x); ok {
		return st.andMask(y, st.truncMask(m, t), t)
	}
	r := st.opaque("and", x, y, 0, t)
	for i := 0; i < 2; i++ {
		if st.sys.entailGE(x) { // 0 <= r <= x
			s := st.S()
			s.addGE(r)
			if d, ok := x.sub(r); ok {
				s.addGE(d)
			}
		}
		x, y = y, x
	}
	return r
}

func (st *State) truncMask(m uint64, t types.Type) uint64 {
	lo, hi, ok := intRange(t)
	if ok && hi != posInf {
		_ = lo
		n := bits.Len64(uint64(hi))
		if lo < 0 {
			// signed narrow type: the sign extension keeps the value's sign
			if m>>63 == 1 {
				return m
			}
			return m
		}
		return m & (1<<uint(n) - 1)
	}
	return m
}

// convert is the integer conversion of l from type ft to type tt.
func (st *State) convert(l Lin, ft, tt types.Type) Lin {
	l = st.sys.norm(l)
	if isInt64(tt) {
		if isUint64(ft) {
			if x, ok := st.convOf(l); ok {
				return x
			}
			if st.inInt64(l) {
				return l
			}
			return st.opaque("conv", l, konst(0), 0, tt)
		}
		return l
	}
	if isUint64(tt) {
		if st.sys.entailGE(l) {
			return l
		}
		if l.isConst() {
			return st.an.bigConst(uint64(l.C))
		}
		return st.opaque("u64", l, konst(0), 0, tt)
	}
	lo, hi, ok := intRange(tt)
	if !ok {
		return st.an.atomOf("conv", tt)
	}
	if x, is := st.convOf(l); is {
		l = x
	}
	if st.within(l, lo, hi) {
		return l
	}
	n := int64(bits.Len64(uint64(hi)))
	if lo < 0 { // signed: ((l + 2^n) mod 2^(n+1)) - 2^n
		// cheap case first: the low part by coefficients
		_, low := splitPow(l, n+1)
		if st.within(low, lo, hi) {
			return low
		}
		if s, ok := low.addC(-pow2(n + 1)); ok && st.within(s, lo, hi) {
			return s
		}
		s, ok := low.addC(pow2(n))
		if !ok {
			return st.opaque("conv", l, konst(0), n, tt)
		}
		m := st.lowBits(s, n+1)
		r, ok := m.addC(-pow2(n))
		if !ok {
			return st.opaque("conv", l, konst(0), n, tt)
		}
		return r
	}
	return st.lowBits(l, n)
}

// intBin evaluates an integer binary operator at type t.
func (st *State) intBin(op token.Token, x, y Lin, t types.Type) Lin {
	switch op {
	case token.ADD:
		return st.addL(x, y, t)
	case token.SUB:
		return st.subL(x, y, t)
	case token.MUL:
		return st.mulL(x, y, t)
	case token.AND:
		return st.bitAnd(x, y, t)
	case token.OR:
		return st.bitOr(x, y, t)
	case token.XOR:
		x, y = st.sys.norm(x), st.sys.norm(y)
		if x.isConst() && y.isConst() && isInt64(t) {
			return konst(x.C ^ y.C)
		}
		if y.isConst() && y.C == 0 {
			return x
		}
		return st.opaque("xor", x, y, 0, t)
	case token.AND_NOT:
		x, y = st.sys.norm(x), st.sys.norm(y)
		if y.isConst() {
			return st.andMask(x, st.truncMask(^uint64(y.C), t), t)
		}
		r := st.opaque("andnot", x, y, 0, t)
		if st.sys.entailGE(x) {
			s := st.S()
			s.addGE(r)
			if d, ok := x.sub(r); ok {
				s.addGE(d)
			}
		}
		return r
	case token.SHL:
		return st.shl(x, y, t)
	case token.SHR:
		return st.shr(x, y, t)
	case token.QUO, token.REM:
		x, y = st.sys.norm(x), st.sys.norm(y)
		if y.isConst() && y.C > 0 {
			if x.isConst() {
				if op == token.QUO {
					return konst(x.C / y.C)
				}
				return konst(x.C % y.C)
			}
			if st.sys.entailGE(x) {
				// q with y*q <= x <= y*q+y-1
				var q Lin
				found := false
				for _, d := range st.defs {
					if d.op == "quo" && d.x.eq(x) && d.y.eq(y) {
						q, found = atomLin(d.a), true
					}
				}
				if !found {
					q = st.opaque("quo", x, y, 0, types.Typ[types.Int64])
					s := st.S()
					s.addGE(q)
					if d, ok := lincomb(1, x, -y.C, q); ok {
						s.addGE(d)
						if n, ok := d.neg(); ok {
							if n, ok = n.addC(y.C - 1); ok {
								s.addGE(n)
							}
						}
					}
				}
				if op == token.QUO {
					return q
				}
				if d, ok := lincomb(1, x, -y.C, q); ok {
					return d
				}
			}
		}
		r := st.opaque(op.String(), x, y, 0, t)
		if op == token.REM && y.isConst() && y.C > 0 {
			s := st.S()
			s.addGE(Lin{y.C - 1, r.T})
			if n, ok := r.neg(); ok {
				if n, ok = n.addC(y.C - 1); ok {
					s.addGE(n)
				}
			}
		}
		return r
	}
	return st.an.atomOf("op", t)
}
