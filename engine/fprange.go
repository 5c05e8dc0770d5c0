package main

import (
	"math"
	"math/rand"
	"strings"
)

// Ranges of bit-precise terms: [lo, hi] with finite ends (so neither NaN nor an
// infinity), pos says that the sign bit is clear. Rounding to nearest is
// monotone, so interval ends computed in float64 are exact bounds.

type fpRange struct {
	lo, hi float64
	pos    bool
	ok     bool
}

func (j *Job) rng(t *Term) fpRange {
	if r, ok := j.fpRng[t]; ok {
		return r
	}
	r := j.rng1(t)
	if math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0) || math.IsNaN(r.lo) || math.IsNaN(r.hi) {
		r = fpRange{}
	}
	if r.ok && r.lo > 0 {
		r.pos = true
	}
	if j.fpRng == nil {
		j.fpRng = map[*Term]fpRange{}
	}
	j.fpRng[t] = r
	return r
}

func (j *Job) rng1(t *Term) fpRange {
	switch t.op {
	case OFPConst:
		x := math.Float64frombits(t.bits)
		return fpRange{x, x, !math.Signbit(x), true}
	case OIte:
		a, b := j.rng(t.args[1]), j.rng(t.args[2])
		if !a.ok || !b.ok {
			return fpRange{}
		}
		return fpRange{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.pos && b.pos, true}
	case OFPOp:
		if t.sort != SFP {
			return fpRange{}
		}
		var a [2]fpRange
		for i := range t.args {
			if i > 1 || t.args[i].sort != SFP {
				return fpRange{}
			}
			if a[i] = j.rng(t.args[i]); !a[i].ok {
				return fpRange{}
			}
		}
		x, y := a[0], a[1]
		hull := func(v ...float64) fpRange {
			r := fpRange{v[0], v[0], false, true}
			for _, u := range v {
				if math.IsNaN(u) || math.IsInf(u, 0) {
					return fpRange{}
				}
				r.lo, r.hi = math.Min(r.lo, u), math.Max(r.hi, u)
			}
			r.pos = x.pos && y.pos
			return r
		}
		switch strings.Fields(t.name)[0] {
		case "fp.add":
			return hull(x.lo+y.lo, x.hi+y.hi)
		case "fp.mul":
			return hull(x.lo*y.lo, x.lo*y.hi, x.hi*y.lo, x.hi*y.hi)
		case "fp.div":
			if y.lo > 0 || y.hi < 0 {
				return hull(x.lo/y.lo, x.lo/y.hi, x.hi/y.lo, x.hi/y.hi)
			}
		case "fp.neg":
			return fpRange{-x.hi, -x.lo, false, true}
		case "fp.abs":
			h := math.Max(math.Abs(x.lo), math.Abs(x.hi))
			l := 0.0
			if x.lo > 0 || x.hi < 0 {
				l = math.Min(math.Abs(x.lo), math.Abs(x.hi))
			}
			return fpRange{l, h, true, true}
		case "fp.sqrt":
			if x.lo > 0 || x.pos {
				return fpRange{math.Sqrt(math.Max(x.lo, 0)), math.Sqrt(x.hi), true, true}
			}
		}
	}
	return fpRange{}
}

// fpSimp simplifies an arithmetic operation, or returns nil.
func (j *Job) fpSimp(name string, a, b *Term) *Term {
	ca, isA := fpVal(a)
	cb, isB := fpVal(b)
	neg := func(t *Term) *Term {
		if t.op == OFPOp && t.name == "fp.neg" {
			return t.args[0]
		}
		return nil
	}
	zero := j.t.FPConst(0)
	switch name {
	case "fp.add":
		if (neg(a) == b || neg(b) == a) && j.rng(a).ok {
			return zero
		}
		if isB && cb == 0 && (math.Signbit(cb) || j.rng(a).pos) {
			return a
		}
		if isA && ca == 0 && (math.Signbit(ca) || j.rng(b).pos) {
			return b
		}
	case "fp.mul":
		if isB && cb == 1 {
			return a
		}
		if isA && ca == 1 {
			return b
		}
		if isB && cb == -1 {
			return j.fneg(Flt{F: a}).F
		}
		if isA && ca == -1 {
			return j.fneg(Flt{F: b}).F
		}
		if isB && cb == 0 && !math.Signbit(cb) && j.rng(a).ok && j.rng(a).pos {
			return zero
		}
		if isA && ca == 0 && !math.Signbit(ca) && j.rng(b).ok && j.rng(b).pos {
			return zero
		}
	case "fp.div":
		if isB && cb == 1 {
			return a
		}
		if isA && ca == 0 && !math.Signbit(ca) && j.rng(b).ok && j.rng(b).lo > 0 {
			return zero
		}
		// 0/b and a/0 with signs known: case distinctions on zero
		nan := j.t.FPConst(math.Float64bits(math.NaN()))
		if isA && ca == 0 && !math.Signbit(ca) && j.rng(b).ok && j.rng(b).pos {
			return j.t.Ite(j.isZeroF(b), nan, zero)
		}
		if isB && cb == 0 && !math.Signbit(cb) && j.rng(a).ok && j.rng(a).pos {
			return j.t.Ite(j.isZeroF(a), nan, j.t.FPConst(math.Float64bits(math.Inf(1))))
		}
	}
	return nil
}

func (j *Job) isZeroF(a *Term) *Term {
	if r := j.rng(a); r.ok && (r.lo > 0 || r.hi < 0) {
		return j.t.False
	}
	return j.t.FPOp(SBool, "fp.isZero", a)
}

// overIte distributes a test over case distinctions.
func (j *Job) overIte(t *Term, f func(*Term) *Term) *Term {
	if t.op != OIte {
		return nil
	}
	return j.t.Ite(t.args[0], f(t.args[1]), f(t.args[2]))
}

// fpOrder decides a comparison by ranges: 1 true, 0 false, -1 open.
func (j *Job) fpOrder(name string, a, b *Term) int {
	x, y := j.rng(a), j.rng(b)
	if a == b {
		switch {
		case name == "fp.lt":
			return 0
		case x.ok:
			return 1
		}
	}
	if !x.ok || !y.ok {
		return -1
	}
	switch name {
	case "fp.lt":
		if x.hi < y.lo {
			return 1
		}
		if x.lo >= y.hi {
			return 0
		}
	case "fp.leq":
		if x.hi <= y.lo {
			return 1
		}
		if x.lo > y.hi {
			return 0
		}
	case "fp.eq":
		if x.hi < y.lo || y.hi < x.lo {
			return 0
		}
	}
	return -1
}

func (j *Job) fpCompare(name string, a, b *Term) *Term {
	switch j.fpOrder(name, a, b) {
	case 0:
		return j.t.False
	case 1:
		return j.t.True
	}
	return j.t.FPOp(SBool, name, a, b)
}

// fpFixed fixes all but one of the floating-point inputs: inputs declared with
// the same bounds take the same value, first one end of their range, then
// powers of ten within it.
func (j *Job) fpFixed(round int, seed int64) []*Term {
	rnd := rand.New(rand.NewSource(seed*100 + int64(round)))
	type key struct{ lo, hi float64 }
	val := map[key]float64{}
	var vs []*Term
	for _, v := range j.inputs {
		if v.sort == SFP {
			vs = append(vs, v)
		}
	}
	var out []*Term
	free := -1
	if round >= 4 && len(vs) > 0 {
		free = rnd.Intn(len(vs))
	}
	groups := 0
	for i, v := range vs {
		r := j.rng(v)
		if !r.ok {
			r.lo, r.hi = -1e18, 1e18
		}
		k := key{r.lo, r.hi}
		x, ok := val[k]
		if !ok {
			switch {
			case round < 4:
				x = r.hi
				if round>>(groups%2)&1 == 1 {
					x = math.Max(r.lo, math.Min(r.hi, 7))
				}
			default:
				x = math.Max(r.lo, math.Min(r.hi, math.Pow(10, float64(rnd.Intn(37)-18))))
			}
			val[k] = x
			groups++
		}
		if i != free {
			out = append(out, j.t.FPOp(SBool, "=", v, j.t.FPConst(math.Float64bits(x))))
		}
	}
	return out
}
