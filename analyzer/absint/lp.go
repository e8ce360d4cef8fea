package absint

import (
	"math/big"
	"math/bits"
	"os"
)

// Exact linear programming for Farkas certificates.
//
// Given constraints c_i = a_i.x + k_i >= 0 and a target e = b.x + d, the
// largest t with "constraints imply e >= t" (over the rationals) is
//   d - min { sum l_i k_i : sum l_i a_i = b, l >= 0 }.
// An infeasible dual means e has no lower bound; an unbounded dual means the
// constraints are contradictory.

type lpStatus int

const (
	lpUnbounded lpStatus = iota // no lower bound
	lpBounded
	lpInfeasible // contradictory constraints
)

type rat struct{ n, d int64 } // d > 0, reduced

type ratOverflow struct{}

func mkRat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd(n, d)
	return rat{n / g, d / g}
}

func mulc(a, b int64) int64 {
	r, ok := mulOv(a, b)
	if !ok {
		panic(ratOverflow{})
	}
	return r
}

func addc(a, b int64) int64 {
	r, ok := addOv(a, b)
	if !ok {
		panic(ratOverflow{})
	}
	return r
}

func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mulc(a.n, b.n), 1}
	}
	g1, g2 := gcd(a.n, b.d), gcd(b.n, a.d)
	return rat{mulc(a.n/g1, b.n/g2), mulc(a.d/g2, b.d/g1)}
}

func (a rat) inv() rat {
	if a.n < 0 {
		return rat{-a.d, -a.n}
	}
	return rat{a.d, a.n}
}

func (a rat) sub(b rat) rat {
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		return rat{addc(a.n, -b.n), 1}
	}
	return mkRat(addc(mulc(a.n, b.d), -mulc(b.n, a.d)), mulc(a.d, b.d))
}

func (a rat) cmp(b rat) int {
	// compare a.n*b.d and b.n*a.d in 128 bits
	if (a.n < 0) != (b.n < 0) {
		if a.n < 0 {
			return -1
		}
		return 1
	}
	h1, l1 := bits.Mul64(uint64(abs64(a.n)), uint64(b.d))
	h2, l2 := bits.Mul64(uint64(abs64(b.n)), uint64(a.d))
	c := 0
	if h1 != h2 {
		if h1 < h2 {
			c = -1
		} else {
			c = 1
		}
	} else if l1 != l2 {
		if l1 < l2 {
			c = -1
		} else {
			c = 1
		}
	}
	if a.n < 0 {
		return -c
	}
	return c
}

// field abstracts the two number representations.
type lpNum[T any] struct {
	fromInt func(int64) T
	mul     func(a, b T) T
	sub     func(a, b T) T
	inv     func(a T) T
	sign    func(a T) int
	cmp     func(a, b T) int
}

var smallNum = lpNum[rat]{
	fromInt: func(i int64) rat { return rat{i, 1} },
	mul:     rat.mul, sub: rat.sub, inv: rat.inv,
	sign: func(a rat) int {
		if a.n < 0 {
			return -1
		} else if a.n > 0 {
			return 1
		}
		return 0
	},
	cmp: rat.cmp,
}

var bigNum = lpNum[*big.Rat]{
	fromInt: func(i int64) *big.Rat { return new(big.Rat).SetInt64(i) },
	mul:     func(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) },
	sub:     func(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) },
	inv:     func(a *big.Rat) *big.Rat { return new(big.Rat).Inv(a) },
	sign:    func(a *big.Rat) int { return a.Sign() },
	cmp:     func(a, b *big.Rat) int { return a.Cmp(b) },
}

// simplex solves min cost.l subject to A l = b, l >= 0. rows is m x n.
// It returns the status of the *primal* question and the minimum.
func simplex[T any](N lpNum[T], rows [][]int64, b []int64, cost []int64) (lpStatus, T) {
	m := len(rows)
	n := len(cost)
	zero, one := N.fromInt(0), N.fromInt(1)
	// tableau with artificial columns n..n+m-1, rhs last
	w := n + m + 1
	t := make([][]T, m+2)
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		t[i] = make([]T, w)
		s := int64(1)
		if b[i] < 0 {
			s = -1
		}
		for j := 0; j < n; j++ {
			t[i][j] = N.fromInt(s * rows[i][j])
		}
		for j := 0; j < m; j++ {
			if i == j {
				t[i][n+j] = one
			} else {
				t[i][n+j] = zero
			}
		}
		t[i][w-1] = N.fromInt(s * b[i])
		basis[i] = n + i
	}
	// row m: phase-2 reduced costs, row m+1: phase-1 reduced costs
	t[m] = make([]T, w)
	t[m+1] = make([]T, w)
	for j := 0; j < w; j++ {
		if j < n {
			t[m][j] = N.fromInt(cost[j])
		} else {
			t[m][j] = zero
		}
		v := zero
		if j < n || j == w-1 {
			for i := 0; i < m; i++ {
				v = N.sub(v, t[i][j])
			}
		}
		t[m+1][j] = v
	}
	pivot := func(r, c int) {
		inv := N.inv(t[r][c])
		for j := 0; j < w; j++ {
			if N.sign(t[r][j]) != 0 {
				t[r][j] = N.mul(t[r][j], inv)
			}
		}
		for i := 0; i < m+2; i++ {
			if i == r || N.sign(t[i][c]) == 0 {
				continue
			}
			f := t[i][c]
			for j := 0; j < w; j++ {
				if N.sign(t[r][j]) != 0 {
					t[i][j] = N.sub(t[i][j], N.mul(f, t[r][j]))
				}
			}
		}
		basis[r] = c
	}
	run := func(obj int, limit int) bool { // false: unbounded
		for iter := 0; ; iter++ {
			c := -1
			if iter < 40 { // Dantzig first, Bland later
				for j := 0; j < limit; j++ {
					if N.sign(t[obj][j]) < 0 && (c < 0 || N.cmp(t[obj][j], t[obj][c]) < 0) {
						c = j
					}
				}
			} else {
				for j := 0; j < limit; j++ {
					if N.sign(t[obj][j]) < 0 {
						c = j
						break
					}
				}
			}
			if c < 0 {
				return true
			}
			r := -1
			var best T
			for i := 0; i < m; i++ {
				if N.sign(t[i][c]) > 0 {
					q := N.mul(t[i][w-1], N.inv(t[i][c]))
					if r < 0 {
						r, best = i, q
						continue
					}
					k := N.cmp(q, best)
					if k < 0 || (k == 0 && basis[i] < basis[r]) {
						r, best = i, q
					}
				}
			}
			if r < 0 {
				return false
			}
			pivot(r, c)
		}
	}
	run(m+1, n)
	if N.sign(t[m+1][w-1]) < 0 {
		return lpUnbounded, zero
	}
	for i := 0; i < m; i++ { // drive artificials out
		if basis[i] >= n {
			for j := 0; j < n; j++ {
				if N.sign(t[i][j]) != 0 {
					pivot(i, j)
					break
				}
			}
		}
	}
	if !run(m, n) {
		return lpInfeasible, zero
	}
	return lpBounded, N.sub(zero, t[m][w-1])
}

var statLP, statExact, statBig int

// lpMin returns the integer-rounded lower bound of e under cs (ceil is sound
// because all quantities are integers).
func lpMin(cs []Lin, e Lin) (st lpStatus, bound int64, pt *point) {
	statLP++
	// rows are the atoms of e and cs
	idx := map[Atom]int{}
	add := func(l Lin) {
		for _, t := range l.T {
			if _, ok := idx[t.A]; !ok {
				idx[t.A] = len(idx)
			}
		}
	}
	add(e)
	for _, c := range cs {
		add(c)
	}
	m, n := len(idx), len(cs)
	rows := make([][]int64, m)
	for i := range rows {
		rows[i] = make([]int64, n)
	}
	b := make([]int64, m)
	cost := make([]int64, n)
	for j, c := range cs {
		for _, t := range c.T {
			rows[idx[t.A]][j] = t.K
		}
		cost[j] = c.C
	}
	for _, t := range e.T {
		b[idx[t.A]] = t.K
	}
	order := make([]Atom, m)
	for a, i := range idx {
		order[i] = a
	}
	done := false
	if st, bound, pt, done = lpFloat(rows, b, cost, cs, e, order); done && noPts == "" {
		return
	}
	pt = nil
	statExact++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(ratOverflow); !ok {
					panic(r)
				}
			}
		}()
		s, v := simplex(smallNum, rows, b, cost)
		if s == lpBounded {
			// t = e.C - v, rounded up
			num := addc(mulc(e.C, v.d), -v.n)
			bound = -floorDiv(-num, v.d)
		}
		st = s
		done = true
	}()
	if done {
		return
	}
	statBig++
	s, v := simplex(bigNum, rows, b, cost)
	if s == lpBounded {
		t := new(big.Rat).Sub(new(big.Rat).SetInt64(e.C), v)
		q := new(big.Int)
		mod := new(big.Int)
		q.DivMod(t.Num(), t.Denom(), mod) // Euclidean: floor for positive denom
		if mod.Sign() != 0 {
			q.Add(q, big.NewInt(1))
		}
		if !q.IsInt64() {
			if q.Sign() < 0 {
				return lpUnbounded, 0, nil
			}
			return lpBounded, posInf, nil
		}
		return lpBounded, q.Int64(), nil
	}
	return s, 0, nil
}

var noPts = os.Getenv("NOFLOAT")
