package absint

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Atom is an immutable symbolic integer. A state constrains atoms, it never
// reassigns them.
type Atom int32

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

type atomInfo struct {
	lo, hi  int64 // intrinsic bounds; negInf/posInf mean none
	name    string
	counter bool // reachable only by constant steps from a moderate start
}

// Term is K*A.
type Term struct {
	A Atom
	K int64
}

// Lin is the linear form C + sum T, with T sorted by atom and no zero K.
type Lin struct {
	C int64
	T []Term
}

func konst(c int64) Lin     { return Lin{C: c} }
func atomLin(a Atom) Lin    { return Lin{T: []Term{{a, 1}}} }
func (l Lin) isConst() bool { return len(l.T) == 0 }

func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		if a == 1 {
			return b, true
		}
		if b == 1 {
			return a, true
		}
		return 0, false
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(abs64(a)), uint64(abs64(b))
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// lincomb returns ka*a + kb*b, and false on a coefficient overflow.
func lincomb(ka int64, a Lin, kb int64, b Lin) (Lin, bool) {
	c1, ok1 := mulOv(ka, a.C)
	c2, ok2 := mulOv(kb, b.C)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	c, ok := addOv(c1, c2)
	if !ok {
		return Lin{}, false
	}
	out := make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		var at Atom
		var k int64
		switch {
		case j >= len(b.T) || (i < len(a.T) && a.T[i].A < b.T[j].A):
			v, ok := mulOv(ka, a.T[i].K)
			if !ok {
				return Lin{}, false
			}
			at, k = a.T[i].A, v
			i++
		case i >= len(a.T) || b.T[j].A < a.T[i].A:
			v, ok := mulOv(kb, b.T[j].K)
			if !ok {
				return Lin{}, false
			}
			at, k = b.T[j].A, v
			j++
		default:
			v1, ok1 := mulOv(ka, a.T[i].K)
			v2, ok2 := mulOv(kb, b.T[j].K)
			if !ok1 || !ok2 {
				return Lin{}, false
			}
			v, ok := addOv(v1, v2)
			if !ok {
				return Lin{}, false
			}
			at, k = a.T[i].A, v
			i++
			j++
		}
		if k != 0 {
			out = append(out, Term{at, k})
		}
	}
	return Lin{c, out}, true
}

func (l Lin) add(m Lin) (Lin, bool)   { return lincomb(1, l, 1, m) }
func (l Lin) sub(m Lin) (Lin, bool)   { return lincomb(1, l, -1, m) }
func (l Lin) mul(k int64) (Lin, bool) { return lincomb(k, l, 0, Lin{}) }

func (l Lin) addC(c int64) (Lin, bool) {
	v, ok := addOv(l.C, c)
	return Lin{v, l.T}, ok
}

func (l Lin) coef(a Atom) int64 {
	for _, t := range l.T {
		if t.A == a {
			return t.K
		}
	}
	return 0
}

func (l Lin) eq(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

// subst replaces atom a by e.
func (l Lin) subst(a Atom, e Lin) (Lin, bool) {
	k := l.coef(a)
	if k == 0 {
		return l, true
	}
	rest := make([]Term, 0, len(l.T))
	for _, t := range l.T {
		if t.A != a {
			rest = append(rest, t)
		}
	}
	return lincomb(1, Lin{l.C, rest}, k, e)
}

// substMap replaces all mapped atoms at once.
func (l Lin) substMap(m map[Atom]Lin) (Lin, bool) {
	hit := false
	for _, t := range l.T {
		if _, ok := m[t.A]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l, true
	}
	out := Lin{C: l.C}
	for _, t := range l.T {
		e, ok := m[t.A]
		if !ok {
			e = atomLin(t.A)
		}
		var k bool
		out, k = lincomb(1, out, t.K, e)
		if !k {
			return Lin{}, false
		}
	}
	return out, true
}

// linKey identifies the linear part (constant excluded).
func (l Lin) linKey() string {
	b := make([]byte, 0, len(l.T)*8)
	for _, t := range l.T {
		a := uint32(t.A)
		b = append(b, byte(a), byte(a>>8), byte(a>>16), byte(a>>24))
		k := uint64(t.K)
		for k >= 0x80 {
			b = append(b, byte(k)|0x80)
			k >>= 7
		}
		b = append(b, byte(k))
	}
	return string(b)
}

func (l Lin) key() string { return fmt.Sprintf("%d|%s", l.C, l.linKey()) }

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return abs64(a)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

// tighten divides l >= 0 by the gcd of its coefficients and rounds the
// constant, which is exact for integers.
func (l Lin) tighten() Lin {
	var g int64
	for _, t := range l.T {
		if t.K == math.MinInt64 {
			return l
		}
		g = gcd(g, t.K)
		if g == 1 {
			return l
		}
	}
	if g <= 1 {
		return l
	}
	out := make([]Term, len(l.T))
	for i, t := range l.T {
		out[i] = Term{t.A, t.K / g}
	}
	return Lin{floorDiv(l.C, g), out}
}

func (l Lin) neg() (Lin, bool) { return l.mul(-1) }

func (an *Analysis) linStr(l Lin) string {
	var sb strings.Builder
	ts := append([]Term(nil), l.T...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].A < ts[j].A })
	for i, t := range ts {
		if t.K >= 0 && i > 0 {
			sb.WriteString("+")
		}
		if t.K == -1 {
			sb.WriteString("-")
		} else if t.K != 1 {
			fmt.Fprintf(&sb, "%d*", t.K)
		}
		fmt.Fprintf(&sb, "%s#%d", an.atoms[t.A].name, t.A)
	}
	if l.C != 0 || len(ts) == 0 {
		if l.C >= 0 && len(ts) > 0 {
			sb.WriteString("+")
		}
		fmt.Fprintf(&sb, "%d", l.C)
	}
	return sb.String()
}

func (l Lin) negated() Lin {
	if n, ok := l.neg(); ok {
		return n
	}
	return konst(-1)
}
