package absint

import (
	"fmt"
	"math"
	"math/big"
	"sync"
)

// The floating-point solver proposes multipliers; what it proposes counts only
// once it has been verified exactly. Its negative answers can be wrong only
// in the direction of knowing less.

type fscratch struct {
	t     []float64
	basis []int
	scale []float64
	nz    []int32
	lam   []float64
}

var fpool = sync.Pool{New: func() any { return &fscratch{} }}

const (
	feps      = 1e-9
	digitBits = 26
	digit     = 1 << digitBits
)

type point struct {
	at map[Atom]float64
}

// value evaluates l at p; ok is false when an atom is unknown to it.
func (p *point) value(l Lin) (v, mag float64, ok bool) {
	v = float64(l.C)
	mag = math.Abs(v)
	for _, t := range l.T {
		x, has := p.at[t.A]
		if !has {
			return 0, 0, false
		}
		y := float64(t.K) * x
		v += y
		mag += math.Abs(y)
	}
	return v, mag, true
}

func (p *point) touches(l Lin) bool {
	for _, t := range l.T {
		if _, has := p.at[t.A]; has {
			return true
		}
	}
	return false
}

// lpFloat tries to settle the question of lpMin. done is false when the exact
// solver has to. order lists the atoms of the rows.
func lpFloat(rows [][]int64, b, cost []int64, cs []Lin, e Lin, order []Atom) (st lpStatus, bound int64, pt *point, done bool) {
	m, n := len(rows), len(cost)
	w := n + m + 1
	s := fpool.Get().(*fscratch)
	defer fpool.Put(s)
	need := (m + 3) * w
	if cap(s.t) < need {
		s.t = make([]float64, need*2)
	}
	t := s.t[:need]
	for i := range t {
		t[i] = 0
	}
	if cap(s.basis) < m {
		s.basis = make([]int, m*2)
		s.scale = make([]float64, m*2)
	}
	basis, scale := s.basis[:m], s.scale[:m]
	for i := 0; i < m; i++ {
		r := t[i*w : (i+1)*w]
		big := math.Abs(float64(b[i]))
		for j := 0; j < n; j++ {
			if c := math.Abs(float64(rows[i][j])); c > big {
				big = c
			}
		}
		if big == 0 {
			big = 1
		}
		sg := 1 / big
		if b[i] < 0 {
			sg = -sg
		}
		scale[i] = sg
		for j := 0; j < n; j++ {
			if rows[i][j] != 0 {
				r[j] = float64(rows[i][j]) * sg
			}
		}
		r[n+i] = 1
		r[w-1] = float64(b[i]) * sg
		basis[i] = n + i
	}
	// costs have two digits, so that small ones do not drown in large ones
	o2, o1, o3 := t[m*w:(m+1)*w], t[(m+1)*w:(m+2)*w], t[(m+2)*w:(m+3)*w]
	for j := 0; j < n; j++ {
		h := (cost[j] + digit/2) >> digitBits
		o3[j] = float64(h)
		o2[j] = float64(cost[j] - h<<digitBits)
	}
	for j := 0; j < w; j++ {
		if j < n || j == w-1 {
			v := 0.0
			for i := 0; i < m; i++ {
				v -= t[i*w+j]
			}
			o1[j] = v
		}
	}
	pivot := func(r, c int) {
		pr := t[r*w : (r+1)*w]
		inv := 1 / pr[c]
		nz := s.nz[:0]
		for j, x := range pr {
			if x != 0 {
				pr[j] = x * inv
				if j != c {
					nz = append(nz, int32(j))
				}
			}
		}
		pr[c] = 1
		s.nz = nz
		for i := 0; i < m+3; i++ {
			if i == r {
				continue
			}
			row := t[i*w : (i+1)*w]
			f := row[c]
			if f == 0 {
				continue
			}
			for _, j := range nz {
				row[j] -= f * pr[j]
			}
			row[c] = 0
		}
		basis[r] = c
	}
	ray := -1
	val := func(obj []float64, j int) float64 {
		if h := o3[j]; &obj[0] == &o2[0] && (h > 1e-8 || h < -1e-8) {
			return h*digit + obj[j]
		}
		return obj[j]
	}
	var banned []bool
	run := func(obj []float64, tol float64) bool {
		for iter := 0; iter < 400; iter++ {
			c := -1
			best := -tol
			for j := 0; j < n; j++ {
				if v := val(obj, j); v < best && (banned == nil || !banned[j]) {
					c = j
					if iter > 60 {
						break
					}
					best = v
				}
			}
			if c < 0 {
				return true
			}
			r := -1
			bq := 0.0
			for i := 0; i < m; i++ {
				x := t[i*w+c]
				if x > feps {
					q := t[i*w+w-1] / x
					if r < 0 || q < bq-1e-12 || q < bq+1e-12 && basis[i] < basis[r] {
						r, bq = i, q
					}
				}
			}
			if r < 0 && &obj[0] == &o1[0] {
				// the first phase is bounded: this is rounding
				if banned == nil {
					banned = make([]bool, n)
				}
				banned[c] = true
				continue
			}
			if r < 0 {
				ray = c
				return true
			}
			pivot(r, c)
		}
		return false
	}
	if !run(o1, feps) {
		lpFail[1]++
		return
	}
	banned = nil
	if o1[w-1] < -1e-6 {
		return lpUnbounded, 0, nil, true
	}
	for i := 0; i < m; i++ {
		if basis[i] >= n {
			c, big := -1, 1e-7
			for j := 0; j < n; j++ {
				if x := math.Abs(t[i*w+j]); x > big {
					c, big = j, x
				}
			}
			if c >= 0 {
				pivot(i, c)
			}
		}
	}
	tries := 0
again:
	if !run(o2, 1e-6) {
		lpFail[2]++
		return
	}
	if cap(s.lam) < n {
		s.lam = make([]float64, n*2)
	}
	lam := s.lam[:n]
	for j := range lam {
		lam[j] = 0
	}
	if ray >= 0 {
		lam[ray] = 1
		for i := 0; i < m; i++ {
			if basis[i] < n {
				lam[basis[i]] -= t[i*w+ray]
			}
		}
		// sum lam*c = a negative constant
		k, ok := certify(lam, cs, Lin{})
		if !ok || k.n >= 0 {
			if v := solveBasis(rows, basis, nil, ray, n, cost); v != nil && v.Sign() < 0 {
				return lpInfeasible, 0, nil, true
			}
		}
		if ok && k.n < 0 {
			return lpInfeasible, 0, nil, true
		}
		if tries++; tries < 8 {
			// the ray is not one: rounding again
			if banned == nil {
				banned = make([]bool, n)
			}
			banned[ray] = true
			ray = -1
			goto again
		}
		lpFail[3]++
		return
	}
	for i := 0; i < m; i++ {
		if basis[i] < n {
			lam[basis[i]] = t[i*w+w-1]
		}
	}
	k, ok := certify(lam, cs, e)
	if !ok {
		if v := solveBasis(rows, basis, b, -1, n, cost); v != nil {
			if q, fine := ceilBelow(e.C, v); fine {
				return lpBounded, q, nil, true
			}
		}
		lpFail[4]++
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(ratOverflow); !is {
					panic(r)
				}
				ok = false
			}
		}()
		num := addc(mulc(e.C, k.d), -k.n)
		bound = -floorDiv(-num, k.d)
	}()
	if !ok {
		lpFail[5]++
		return
	}
	pt = &point{at: make(map[Atom]float64, m)}
	for i := 0; i < m; i++ {
		pt.at[order[i]] = val(o2, n+i) * scale[i]
	}
	v, _, _ := pt.value(e)
	if math.Abs(v-float64(e.C)+float64(k.n)/float64(k.d)) > 0.01 {
		// the point is not exact; what the certificate says is
		pt = nil
	}
	return lpBounded, bound, pt, true
}

// certify checks sum lam_i c_i = e - e.C + k exactly, with lam made rational,
// and returns k.
func certify(lam []float64, cs []Lin, e Lin) (k rat, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(ratOverflow); !is {
				panic(r)
			}
			ok = false
		}
	}()
	sum := make(map[Atom]rat, 16)
	k = rat{0, 1}
	for i, f := range lam {
		if math.Abs(f) < 1e-11 {
			continue
		}
		q, fine := rational(f)
		if !fine || q.n < 0 {
			return k, false
		}
		if q.n == 0 {
			continue
		}
		for _, t := range cs[i].T {
			x, has := sum[t.A]
			if !has {
				x = rat{0, 1}
			}
			sum[t.A] = x.sub(q.mul(rat{-t.K, 1}))
		}
		if cs[i].C != 0 {
			k = k.sub(q.mul(rat{-cs[i].C, 1}))
		}
	}
	for _, t := range e.T {
		x, has := sum[t.A]
		if !has || x.d != 1 || x.n != t.K {
			return k, false
		}
		delete(sum, t.A)
	}
	for _, x := range sum {
		if x.n != 0 {
			return k, false
		}
	}
	return k, true
}

// rational is the simplest fraction close to f.
func rational(f float64) (rat, bool) {
	neg := f < 0
	if neg {
		f = -f
	}
	if f > 1<<60 || f < 1e-14 {
		return rat{}, false
	}
	inv := f < 1
	g := f
	if inv {
		g = 1 / f
	}
	// continued fraction of g
	x := g
	var p0, q0, p1, q1 int64 = 0, 1, 1, 0
	for i := 0; i < 24; i++ {
		a := math.Floor(x)
		if a > 1<<60 {
			return rat{}, false
		}
		ai := int64(a)
		p2, ok1 := mulOv(ai, p1)
		q2, ok2 := mulOv(ai, q1)
		if !ok1 || !ok2 {
			return rat{}, false
		}
		p2, ok1 = addOv(p2, p0)
		q2, ok2 = addOv(q2, q0)
		if !ok1 || !ok2 {
			return rat{}, false
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if math.Abs(float64(p1)/float64(q1)-g) <= g*1e-10 {
			n, d := p1, q1
			if inv {
				n, d = d, n
			}
			if neg {
				n = -n
			}
			return mkRat(n, d), true
		}
		r := x - a
		if r < 1e-13 {
			break
		}
		x = 1 / r
	}
	return rat{}, false
}

var lpFail [10]int

func LpStats() string { return fmt.Sprint(statLP, statExact, statBig, lpFail) }

// solveBasis computes the multipliers of a basis exactly: those of the columns
// of the basis for which the combination is b, or, with a ray, for which it
// cancels that column. It returns the constant the combination comes to, or
// nil if the multipliers are not what they should be.
func solveBasis(rows [][]int64, basis []int, b []int64, ray, n int, cost []int64) *big.Rat {
	type entry map[int]*big.Rat
	m := len(rows)
	const rhs = -1
	sys := make([]entry, m)
	for i := range sys {
		sys[i] = entry{}
		for _, j := range basis {
			if j < n && rows[i][j] != 0 {
				sys[i][j] = new(big.Rat).SetInt64(rows[i][j])
			}
		}
		v := int64(0)
		if ray >= 0 {
			v = -rows[i][ray]
		} else {
			v = b[i]
		}
		if v != 0 {
			sys[i][rhs] = new(big.Rat).SetInt64(v)
		}
	}
	type step struct{ row, col int }
	var steps []step
	done := make([]bool, m)
	for {
		// the shortest row that is left, and in it the column in fewest rows
		r := -1
		for i := range sys {
			if done[i] {
				continue
			}
			k := len(sys[i])
			if _, ok := sys[i][rhs]; ok {
				k--
				if k == 0 {
					return nil
				}
			}
			if k == 0 {
				done[i] = true
				continue
			}
			if r < 0 || len(sys[i]) < len(sys[r]) {
				r = i
			}
		}
		if r < 0 {
			break
		}
		c, fewest := -1, 0
		for j := range sys[r] {
			if j == rhs {
				continue
			}
			k := 0
			for i := range sys {
				if _, ok := sys[i][j]; ok && !done[i] {
					k++
				}
			}
			if c < 0 || k < fewest || k == fewest && j < c {
				c, fewest = j, k
			}
		}
		done[r] = true
		steps = append(steps, step{r, c})
		inv := new(big.Rat).Inv(sys[r][c])
		for j, x := range sys[r] {
			sys[r][j] = new(big.Rat).Mul(x, inv)
		}
		for i := range sys {
			f, ok := sys[i][c]
			if !ok || done[i] {
				continue
			}
			for j, x := range sys[r] {
				y := new(big.Rat).Mul(f, x)
				if old, ok := sys[i][j]; ok {
					y.Sub(old, y)
				} else {
					y.Neg(y)
				}
				if y.Sign() == 0 {
					delete(sys[i], j)
				} else {
					sys[i][j] = y
				}
			}
			delete(sys[i], c)
		}
	}
	lam := map[int]*big.Rat{}
	total := new(big.Rat)
	for i := len(steps) - 1; i >= 0; i-- {
		s := steps[i]
		v := new(big.Rat)
		for j, x := range sys[s.row] {
			switch {
			case j == rhs:
				v.Add(v, x)
			case j != s.col:
				if l := lam[j]; l != nil {
					v.Sub(v, new(big.Rat).Mul(x, l))
				}
			}
		}
		if v.Sign() < 0 {
			lpFail[0]++
			return nil
		}
		lam[s.col] = v
		if cost[s.col] != 0 {
			total.Add(total, new(big.Rat).Mul(v, new(big.Rat).SetInt64(cost[s.col])))
		}
	}
	if ray >= 0 {
		total.Add(total, new(big.Rat).SetInt64(cost[ray]))
	}
	return total
}

// ceilBelow is the least integer not below c - v.
func ceilBelow(c int64, v *big.Rat) (int64, bool) {
	t := new(big.Rat).Sub(new(big.Rat).SetInt64(c), v)
	q, mod := new(big.Int), new(big.Int)
	q.DivMod(t.Num(), t.Denom(), mod)
	if mod.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	return q.Int64(), q.IsInt64()
}
