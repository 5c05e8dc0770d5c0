package main

import "math/big"

// Difference-logic front end of the solver: decides conjunctions of
// constraints x-y<=c, x-y<c, x<=c, x<c (=, /= included). Anything else is left
// to the SMT solver. Atoms are treated as opaque, so Unsat is always sound;
// Sat is only answered when every conjunct was understood and every atom is a
// free variable.

type dlEdge struct {
	from, to int
	w        int64 // weight*4096 minus 1 if strict
}

type dl struct {
	idx   map[*Term]int
	edges []dlEdge
	full  bool
	neq   [][3]int64 // x, y, c: x - y != c
	n     int
}

const dlScale = 4096
const dlMax = int64(1) << 38

func (d *dl) node(t *Term) int {
	if t == nil {
		return 0
	}
	if i, ok := d.idx[t]; ok {
		return i
	}
	d.n++
	d.idx[t] = d.n
	if t.op != OVar {
		d.full = false
	}
	if t.sort == SInt && t.op == OVar {
		// declared bounds
		if t.lo != nil {
			if t.lo.IsInt64() && t.lo.Int64() > -dlMax {
				d.le(0, d.n, -t.lo.Int64(), false)
			}
		}
		if t.hi != nil {
			if t.hi.IsInt64() && t.hi.Int64() < dlMax {
				d.le(d.n, 0, t.hi.Int64(), false)
			}
		}
	}
	return d.n
}

// le adds x - y <= c (or < c).
func (d *dl) le(x, y int, c int64, strict bool) {
	w := c * dlScale
	if strict {
		w--
	}
	d.edges = append(d.edges, dlEdge{y, x, w})
}

// diff reads t as x - y + c with integer c (after scaling).
func (d *dl) diff(t *Term) (x, y *Term, c int64, isInt, ok bool) {
	isInt = t.sort == SInt
	k := new(big.Rat)
	var at []*Term
	var cf []*big.Rat
	if t.op == OSum {
		k, at, cf = t.c, t.args, t.cf
	} else if t.op == OConst {
		return
	} else {
		at, cf = []*Term{t}, []*big.Rat{ratOne}
	}
	if len(at) > 2 {
		return
	}
	m := new(big.Rat).Abs(cf[0])
	if len(at) == 2 {
		s := new(big.Rat).Add(cf[0], cf[1])
		if s.Sign() != 0 {
			return
		}
	}
	q := new(big.Rat).Quo(k, m)
	if isInt && !m.IsInt() {
		return
	}
	if !q.IsInt() || !q.Num().IsInt64() {
		return
	}
	c = q.Num().Int64()
	if c > dlMax || c < -dlMax {
		return
	}
	for i := range at {
		if cf[i].Sign() > 0 {
			x = at[i]
		} else {
			y = at[i]
		}
	}
	return x, y, c, isInt, true
}

func (d *dl) add(t *Term) bool {
	neg := false
	if t.op == ONot {
		neg = true
		t = t.args[0]
	}
	switch t.op {
	case OVar:
		return t.sort == SBool
	case OLt0, OLe0, OEq0:
	default:
		return false
	}
	x, y, c, isInt, ok := d.diff(t.args[0])
	if !ok {
		return false
	}
	a, b := d.node(x), d.node(y)
	switch {
	case t.op == OEq0 && !neg: // a - b = -c
		d.le(a, b, -c, false)
		d.le(b, a, c, false)
	case t.op == OEq0:
		if isInt {
			d.full = false // not convex
		}
		d.neq = append(d.neq, [3]int64{int64(a), int64(b), -c})
	case !neg: // a - b + c < 0
		strict := t.op == OLt0
		if isInt && strict {
			d.le(a, b, -c-1, false)
		} else {
			d.le(a, b, -c, strict)
		}
	default: // not (a-b+c < 0): b - a <= c ; not (<=): b - a < c
		strict := t.op == OLe0
		if isInt && strict {
			d.le(b, a, c-1, false)
		} else {
			d.le(b, a, c, strict)
		}
	}
	return true
}

// consistent runs Bellman-Ford.
func (d *dl) consistent(extra ...dlEdge) bool {
	_, ok := d.solve(extra...)
	return ok
}

func (d *dl) solve(extra ...dlEdge) ([]int64, bool) {
	dist := make([]int64, d.n+1)
	es := append(append([]dlEdge(nil), d.edges...), extra...)
	for i := 0; i <= d.n+1; i++ {
		ch := false
		for _, e := range es {
			if v := dist[e.from] + e.w; v < dist[e.to] {
				dist[e.to] = v
				ch = true
			}
		}
		if !ch {
			return dist, true
		}
	}
	return nil, false
}

// quick decides a conjunction if it can.
func (j *Job) quick(c *Term) Res {
	d := &dl{idx: map[*Term]int{}, full: true}
	for _, t := range j.t.conj(c) {
		if !d.add(t) {
			d.full = false
		}
	}
	if len(d.edges) == 0 {
		return Unknown
	}
	if d.n > 1000 {
		return Unknown
	}
	dist, ok := d.solve()
	if !ok {
		return Unsat
	}
	for _, q := range d.neq {
		x, y, k := int(q[0]), int(q[1]), q[2]*dlScale
		// x - y != k is violated iff both x-y<k and x-y>k are impossible
		if !d.consistent(dlEdge{y, x, k - 1}) && !d.consistent(dlEdge{x, y, -k - 1}) {
			return Unsat
		}
	}
	if d.full {
		vals := map[string]float64{}
		if n := len(j.witness); n > 0 {
			for k, v := range j.witness[n-1].vals {
				vals[k] = v
			}
		}
		for t, i := range d.idx {
			vals[t.name] = float64(dist[i]-dist[0]) / dlScale
		}
		j.keepWitness(vals)
		return Sat
	}
	return Unknown
}
