package absint

import "sync"

// A join asks each side about the facts of the other. The questions do not
// depend on each other, so those that need a linear program are answered
// ahead, side by side, into the caches the join looks in.

type query struct {
	s   *Sys
	l   Lin
	low bool // the best bound is of use if the fact does not hold
}

type lowRes struct {
	b  int64
	ok bool
}

// aheadWorkers is the number of parts the questions are divided into.
const aheadWorkers = 4

func ahead(ta, tb *Sys, qs []query) {
	type key struct {
		s *Sys
		k string
	}
	seen := map[key]bool{}
	var todo []query
	for _, q := range qs {
		q.l = q.s.norm(q.l)
		if q.s.bot || q.l.isConst() {
			continue
		}
		k := key{q.s, q.l.key()}
		if seen[k] {
			continue
		}
		seen[k] = true
		if b, ok := q.s.quickMin(q.l); ok && b >= 0 {
			continue
		}
		if b, ok := q.s.posBound(q.l.linKey()); ok && b+q.l.C >= 0 {
			continue
		}
		if (q.s.missed(k.k) || q.s.refuted(q.l)) && !q.low {
			continue
		}
		todo = append(todo, q)
	}
	if len(todo) < 2*aheadWorkers {
		return
	}
	type answers struct {
		s    [2]*Sys
		lows [2]map[string]lowRes
	}
	res := make([]answers, aheadWorkers)
	for w := range res {
		res[w] = answers{[2]*Sys{ta.clone(), tb.clone()}, [2]map[string]lowRes{{}, {}}}
	}
	var wg sync.WaitGroup
	for w := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &res[w]
			for i := w; i < len(todo); i += aheadWorkers {
				q := todo[i]
				n := 0
				if q.s == tb {
					n = 1
				}
				s := r.s[n]
				if s.entailGE(q.l) || !q.low || s.bot {
					continue
				}
				l := Lin{0, q.l.T}
				b, ok := s.lower(l)
				r.lows[n][s.norm(l).key()] = lowRes{b, ok}
			}
		}()
	}
	wg.Wait()
	for w := range res {
		for n, s := range []*Sys{ta, tb} {
			c := res[w].s[n]
			if c.bot {
				s.bot = true
				return
			}
			for k, b := range c.pos {
				if s.pos == nil {
					s.pos = map[string]int64{}
				}
				if old, ok := s.pos[k]; !ok || b > old {
					s.pos[k] = b
				}
			}
			for k := range c.miss {
				if s.miss == nil {
					s.miss = map[string]bool{}
				}
				s.miss[k] = true
			}
			for k, v := range res[w].lows[n] {
				if s.low == nil {
					s.low = map[string]lowRes{}
				}
				s.low[k] = v
			}
			if k := len(s.pts); len(c.pts) > 0 && (k == 0 || c.pts[len(c.pts)-1] != s.pts[k-1]) {
				s.addPt(c.pts[len(c.pts)-1])
			}
		}
	}
}
