package main

import (
	"math/big"
	"sort"
	"time"
)

// Case splitting: an obligation the linear abstraction cannot decide is split
// on the conditions inside its if-then-else terms. Without them the two sides
// of an equality usually share their normal form, or are equal as rational
// functions, which is decided by expanding them.

type splitter struct {
	j        *Job
	s1       *Solver
	exact    *Solver
	deadline time.Time
	nodes    int
	leaves   int
	hit      map[string]string // an exact model found at a leaf
}

// rebuild is t with the boolean atom a replaced by v.
func (s *Store) rebuild(t, a *Term, v bool, memo map[*Term]*Term) *Term {
	if t == a {
		return s.Bool(v)
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, x := range t.args {
		args[i] = s.rebuild(x, a, v, memo)
		same = same && args[i] == x
	}
	r := t
	if !same {
		switch t.op {
		case ONot:
			r = s.Not(args[0])
		case OAnd:
			r = s.And(args...)
		case OOr:
			r = s.Or(args...)
		case OIff:
			r = s.Iff(args[0], args[1])
		case OLt0:
			r = s.Lt0(args[0])
		case OLe0:
			r = s.Le0(args[0])
		case OEq0:
			r = s.Eq0(args[0])
		case OSum:
			c := t.c
			if c == nil {
				c = ratZero
			}
			r = s.Num(t.sort, c)
			for i, x := range args {
				r = s.Add(r, s.Scale(x, t.cf[i]))
			}
		case OMul:
			r = args[0]
			for _, x := range args[1:] {
				r = s.Mul(r, x)
			}
		case ODiv:
			r = s.Div(args[0], args[1])
		case OIte:
			if t.sort == SBool || t.sort == SReal || t.sort == SInt {
				r = s.Ite(args[0], args[1], args[2])
			} else {
				return nil2(s, t, args)
			}
		case OToReal:
			r = s.ToReal(args[0])
		case OFloor:
			r = s.Floor(args[0])
		case OSqrt:
			r = s.Sqrt(args[0])
		case OMax:
			r = args[0]
			for _, x := range args[1:] {
				r = s.Max(r, x)
			}
		default:
			r = nil2(s, t, args)
		}
	}
	memo[t] = r
	return r
}

func nil2(s *Store, t *Term, args []*Term) *Term {
	c := *t
	c.args = args
	c.id = 0
	return s.mk(&c)
}

// atoms are the atomic conditions of t's if-then-else terms, inputs first.
func splitAtoms(t *Term) []*Term {
	seen := map[*Term]bool{}
	in := map[*Term]int{}
	var conds func(c *Term)
	condSeen := map[*Term]bool{}
	conds = func(c *Term) {
		if condSeen[c] {
			in[c]++
			return
		}
		condSeen[c] = true
		switch c.op {
		case ONot, OAnd, OOr, OIff:
			for _, x := range c.args {
				conds(x)
			}
		case OConst:
		case OIte:
		default:
			in[c]++
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			conds(t.args[0])
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(t)
	var r []*Term
	for c := range in {
		switch c.op {
		case ONot, OAnd, OOr, OIff, OConst, OIte:
		default:
			r = append(r, c)
		}
	}
	depth := map[*Term]int{}
	var dep func(t *Term) int
	dep = func(t *Term) int {
		if d, ok := depth[t]; ok {
			return d
		}
		d := 0
		for _, x := range t.args {
			if k := dep(x); k > d {
				d = k
			}
		}
		if t.op == OIte || t.op == ODiv || t.op == OMax {
			d++
		}
		depth[t] = d
		return d
	}
	sort.Slice(r, func(i, k int) bool {
		if a, b := dep(r[i]), dep(r[k]); a != b {
			return a < b
		}
		return r[i].id < r[k].id
	})
	return r
}

func nonlinear(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == ODiv || t.op == OMul || t.op == OSqrt {
		return true
	}
	for _, x := range t.args {
		if nonlinear(x, seen) {
			return true
		}
	}
	return false
}

// prove reports whether bad cannot hold together with facts.
func (p *splitter) prove(bad *Term, facts []*Term) bool {
	p.nodes++
	if bad.isFalse() {
		return true
	}
	if p.nodes > 3000 || time.Now().After(p.deadline) {
		return false
	}
	if r, _ := p.s1.Check(nil, append(append([]*Term{}, facts...), bad)...); r == Unsat {
		return true
	}
	as := splitAtoms(bad)
	if len(as) == 0 {
		p.leaves++
		return p.leaf(bad, facts)
	}
	a := as[0]
	st := p.j.t
	for _, v := range []bool{true, false} {
		f := a
		if !v {
			f = st.Not(a)
		}
		if !p.prove(st.rebuild(bad, a, v, map[*Term]*Term{}), append(append([]*Term{}, facts...), f)) {
			return false
		}
	}
	return true
}

// leaf: no case distinctions are left.
func (p *splitter) leaf(bad *Term, facts []*Term) bool {
	st := p.j.t
	// equalities that hold as rational functions
	b := p.identities(bad, facts)
	if b != bad {
		if r, _ := p.s1.Check(nil, append(append([]*Term{}, facts...), b)...); r == Unsat {
			return true
		}
	}
	r, m := p.exact.Check(p.j.inputs, append(append([]*Term{}, facts...), b)...)
	if r == Sat {
		p.hit = m
	}
	_ = st
	return r == Unsat
}

// identities replaces equations between equal rational functions by true,
// where the denominators cannot be zero.
func (p *splitter) identities(bad *Term, facts []*Term) *Term {
	st := p.j.t
	seen := map[*Term]bool{}
	var eqs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.sort != SBool {
			return
		}
		seen[t] = true
		if t.op == OEq0 {
			eqs = append(eqs, t)
			return
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(bad)
	for _, q := range eqs {
		dens := map[*Term]bool{}
		budget := 20000
		n, _, ok := st.ratfun(q.args[0], dens, map[*Term]rfun{}, &budget)
		if !ok || len(n) != 0 {
			continue
		}
		good := true
		for d := range dens {
			if r, _ := p.s1.Check(nil, append(append([]*Term{}, facts...), bad, st.Eq0(d))...); r != Unsat {
				good = false
				break
			}
		}
		if good {
			bad = st.rebuild(bad, q, true, map[*Term]*Term{})
		}
	}
	return bad
}

// poly maps a monomial (sorted atom ids) to its coefficient.
type poly map[string]*big.Rat

type rfun struct{ n, d poly }

func pconst(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	x := make([]string, 0, (len(a)+len(b))/4)
	for i := 0; i < len(a); i += 4 {
		x = append(x, a[i:i+4])
	}
	for i := 0; i < len(b); i += 4 {
		x = append(x, b[i:i+4])
	}
	sort.Strings(x)
	r := make([]byte, 0, len(a)+len(b))
	for _, s := range x {
		r = append(r, s...)
	}
	return string(r)
}

func padd(a, b poly, k *big.Rat) poly {
	r := make(poly, len(a)+len(b))
	for m, c := range a {
		r[m] = c
	}
	for m, c := range b {
		v := new(big.Rat).Mul(c, k)
		if o, ok := r[m]; ok {
			v.Add(v, o)
		}
		if v.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = v
		}
	}
	return r
}

func pmul(a, b poly, budget *int) (poly, bool) {
	*budget -= len(a) * len(b)
	if *budget < 0 {
		return nil, false
	}
	r := make(poly, len(a)*len(b))
	for m, c := range a {
		for k, d := range b {
			v := new(big.Rat).Mul(c, d)
			w := monoMul(m, k)
			if o, ok := r[w]; ok {
				v.Add(v, o)
			}
			if v.Sign() == 0 {
				delete(r, w)
			} else {
				r[w] = v
			}
		}
	}
	return r, true
}

func peq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for m, c := range a {
		if d, ok := b[m]; !ok || d.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

// ratfun expands t to a quotient of polynomials over its atoms.
func (s *Store) ratfun(t *Term, dens map[*Term]bool, memo map[*Term]rfun, budget *int) (n, d poly, ok bool) {
	if r, ok := memo[t]; ok {
		return r.n, r.d, true
	}
	switch t.op {
	case OConst:
		n, d = pconst(t.c), pconst(ratOne)
	case OSum:
		n, d = poly{}, pconst(ratOne)
		if t.c != nil {
			n = pconst(t.c)
		}
		for i, x := range t.args {
			xn, xd, ok := s.ratfun(x, dens, memo, budget)
			if !ok {
				return nil, nil, false
			}
			if peq(xd, d) {
				n = padd(n, xn, t.cf[i])
				continue
			}
			a, ok1 := pmul(n, xd, budget)
			b, ok2 := pmul(xn, d, budget)
			e, ok3 := pmul(d, xd, budget)
			if !ok1 || !ok2 || !ok3 {
				return nil, nil, false
			}
			n, d = padd(a, b, t.cf[i]), e
		}
	case OMul:
		n, d = pconst(ratOne), pconst(ratOne)
		for _, x := range t.args {
			xn, xd, ok := s.ratfun(x, dens, memo, budget)
			if !ok {
				return nil, nil, false
			}
			var ok1, ok2 bool
			n, ok1 = pmul(n, xn, budget)
			d, ok2 = pmul(d, xd, budget)
			if !ok1 || !ok2 {
				return nil, nil, false
			}
		}
	case ODiv:
		an, ad, ok1 := s.ratfun(t.args[0], dens, memo, budget)
		bn, bd, ok2 := s.ratfun(t.args[1], dens, memo, budget)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		dens[t.args[1]] = true
		var ok3, ok4 bool
		n, ok3 = pmul(an, bd, budget)
		d, ok4 = pmul(ad, bn, budget)
		if !ok3 || !ok4 {
			return nil, nil, false
		}
	default:
		id := t.id
		n = poly{string([]byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id)}): ratOne}
		d = pconst(ratOne)
	}
	memo[t] = rfun{n, d}
	return n, d, true
}
