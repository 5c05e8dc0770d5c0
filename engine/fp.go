package main

import (
	"go/token"
	"math"
	"math/big"
)

func (j *Job) fconst(f float64) Flt {
	if j.fp {
		return Flt{F: j.t.FPConst(math.Float64bits(f))}
	}
	switch {
	case math.IsNaN(f):
		return Flt{V: j.t.Real(ratZero), Nan: j.t.True}
	case math.IsInf(f, 1):
		return Flt{V: j.t.Real(ratZero), PInf: j.t.True}
	case math.IsInf(f, -1):
		return Flt{V: j.t.Real(ratZero), NInf: j.t.True}
	}
	return Flt{V: j.t.Real(new(big.Rat).SetFloat64(f))}
}

func (j *Job) fl(t *Term) *Term {
	if t == nil {
		return j.t.False
	}
	return t
}
func nz(t *Term) *Term {
	if t == nil || t.isFalse() {
		return nil
	}
	return t
}
func (f Flt) plain() bool { return f.Nan == nil && f.PInf == nil && f.NInf == nil }

func (j *Job) special(f Flt) *Term {
	return j.t.Or(j.fl(f.Nan), j.fl(f.PInf), j.fl(f.NInf))
}

func fpVal(t *Term) (float64, bool) {
	if t.op == OFPConst {
		return math.Float64frombits(t.bits), true
	}
	return 0, false
}

func (j *Job) fpBin(name string, a, b *Term, f func(x, y float64) float64) Flt {
	if x, ok := fpVal(a); ok {
		if y, ok := fpVal(b); ok {
			return Flt{F: j.t.FPConst(math.Float64bits(f(x, y)))}
		}
	}
	if r := j.fpSimp(name, a, b); r != nil {
		return Flt{F: r}
	}
	return Flt{F: j.t.FPOp(SFP, name+" RNE", a, b)}
}

func (j *Job) fneg(a Flt) Flt {
	if j.fp {
		if x, ok := fpVal(a.F); ok {
			return j.fconst(-x)
		}
		if a.F.op == OFPOp && a.F.name == "fp.neg" {
			return Flt{F: a.F.args[0]}
		}
		return Flt{F: j.t.FPOp(SFP, "fp.neg", a.F)}
	}
	return Flt{V: j.t.Neg(a.V), Nan: a.Nan, PInf: a.NInf, NInf: a.PInf}
}

func (j *Job) fadd(a, b Flt) Flt {
	if j.fp {
		return j.fpBin("fp.add", a.F, b.F, func(x, y float64) float64 { return x + y })
	}
	t := j.t
	r := Flt{V: t.Add(a.V, b.V)}
	if a.plain() && b.plain() {
		return r
	}
	nan := t.Or(j.fl(a.Nan), j.fl(b.Nan), t.And(j.fl(a.PInf), j.fl(b.NInf)), t.And(j.fl(a.NInf), j.fl(b.PInf)))
	r.Nan = nz(nan)
	r.PInf = nz(t.And(t.Not(nan), t.Or(j.fl(a.PInf), j.fl(b.PInf))))
	r.NInf = nz(t.And(t.Not(nan), t.Or(j.fl(a.NInf), j.fl(b.NInf))))
	return r
}

// sign predicates of an extended real
func (j *Job) isPos(a Flt) *Term {
	return j.t.Or(j.fl(a.PInf), j.t.And(j.t.Not(j.special(a)), j.t.Lt0(j.t.Neg(a.V))))
}
func (j *Job) isNeg(a Flt) *Term {
	return j.t.Or(j.fl(a.NInf), j.t.And(j.t.Not(j.special(a)), j.t.Lt0(a.V)))
}
func (j *Job) isZero(a Flt) *Term {
	return j.t.And(j.t.Not(j.special(a)), j.t.Eq0(a.V))
}
func (j *Job) isInf(a Flt) *Term { return j.t.Or(j.fl(a.PInf), j.fl(a.NInf)) }

func (j *Job) fmul(a, b Flt) Flt {
	if j.fp {
		return j.fpBin("fp.mul", a.F, b.F, func(x, y float64) float64 { return x * y })
	}
	t := j.t
	r := Flt{V: t.Mul(a.V, b.V)}
	if a.plain() && b.plain() {
		return r
	}
	nan := t.Or(j.fl(a.Nan), j.fl(b.Nan), t.And(j.isInf(a), j.isZero(b)), t.And(j.isZero(a), j.isInf(b)))
	inf := t.And(t.Not(nan), t.Or(j.isInf(a), j.isInf(b)))
	neg := t.Or(t.And(j.isPos(a), j.isNeg(b)), t.And(j.isNeg(a), j.isPos(b)))
	r.Nan = nz(nan)
	r.PInf = nz(t.And(inf, t.Not(neg)))
	r.NInf = nz(t.And(inf, neg))
	return r
}

func (j *Job) fdiv(a, b Flt) Flt {
	if j.fp {
		return j.fpBin("fp.div", a.F, b.F, func(x, y float64) float64 { return x / y })
	}
	t := j.t
	bz := j.isZero(b)
	r := Flt{V: t.Div(a.V, b.V)}
	if a.plain() && b.plain() && bz.isFalse() {
		return r
	}
	if !bz.isFalse() {
		j.note("x/0 takes the sign of x (signed zeros are not modelled in the exact-real domain)")
	}
	nan := t.Or(j.fl(a.Nan), j.fl(b.Nan), t.And(j.isInf(a), j.isInf(b)), t.And(j.isZero(a), bz))
	inf := t.And(t.Not(nan), t.Or(j.isInf(a), bz))
	// sign of the infinity: divisor zero counts as +0
	neg := t.Or(t.And(j.isNeg(a), t.Not(j.isNeg(b))), t.And(j.isPos(a), j.isNeg(b)))
	r.Nan = nz(nan)
	r.PInf = nz(t.And(inf, t.Not(neg)))
	r.NInf = nz(t.And(inf, neg))
	binf := t.And(t.Not(nan), j.isInf(b))
	if !binf.isFalse() {
		r.V = t.Ite(binf, t.Real(ratZero), r.V)
	}
	return r
}

func (j *Job) fcmp(op token.Token, a, b Flt) *Term {
	t := j.t
	if j.fp {
		x, ok1 := fpVal(a.F)
		y, ok2 := fpVal(b.F)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return t.Bool(x < y)
			case token.LEQ:
				return t.Bool(x <= y)
			case token.GTR:
				return t.Bool(x > y)
			case token.GEQ:
				return t.Bool(x >= y)
			case token.EQL:
				return t.Bool(x == y)
			}
		}
		switch op {
		case token.LSS:
			return j.fpCompare("fp.lt", a.F, b.F)
		case token.LEQ:
			return j.fpCompare("fp.leq", a.F, b.F)
		case token.GTR:
			return j.fpCompare("fp.lt", b.F, a.F)
		case token.GEQ:
			return j.fpCompare("fp.leq", b.F, a.F)
		case token.EQL:
			if a.F.id > b.F.id {
				a, b = b, a
			}
			return j.fpCompare("fp.eq", a.F, b.F)
		}
	}
	switch op {
	case token.GTR:
		return j.fcmp(token.LSS, b, a)
	case token.GEQ:
		return j.fcmp(token.LEQ, b, a)
	}
	var base *Term
	switch op {
	case token.LSS:
		base = t.Lt(a.V, b.V)
	case token.LEQ:
		base = t.Le(a.V, b.V)
	case token.EQL:
		base = t.Eq(a.V, b.V)
	}
	if a.plain() && b.plain() {
		return base
	}
	nan := t.Or(j.fl(a.Nan), j.fl(b.Nan))
	fin := t.And(t.Not(j.special(a)), t.Not(j.special(b)))
	var x *Term
	switch op {
	case token.LSS:
		x = t.Or(t.And(j.fl(a.NInf), t.Not(j.fl(b.NInf))), t.And(j.fl(b.PInf), t.Not(j.fl(a.PInf))))
	case token.LEQ:
		x = t.Or(j.fl(a.NInf), j.fl(b.PInf))
	case token.EQL:
		x = t.Or(t.And(j.fl(a.NInf), j.fl(b.NInf)), t.And(j.fl(a.PInf), j.fl(b.PInf)))
	}
	return t.And(t.Not(nan), t.Or(t.And(fin, base), x))
}

func (j *Job) fisNaN(a Flt) *Term {
	if j.fp {
		if x, ok := fpVal(a.F); ok {
			return j.t.Bool(math.IsNaN(x))
		}
		if j.rng(a.F).ok {
			return j.t.False
		}
		if r := j.overIte(a.F, func(x *Term) *Term { return j.fisNaN(Flt{F: x}) }); r != nil {
			return r
		}
		return j.t.FPOp(SBool, "fp.isNaN", a.F)
	}
	return j.fl(a.Nan)
}

func (j *Job) fisInf(a Flt, sign int64) *Term {
	t := j.t
	if j.fp {
		if x, ok := fpVal(a.F); ok {
			return t.Bool(math.IsInf(x, int(sign)))
		}
		if j.rng(a.F).ok {
			return t.False
		}
		if r := j.overIte(a.F, func(x *Term) *Term { return j.fisInf(Flt{F: x}, sign) }); r != nil {
			return r
		}
		inf := t.FPOp(SBool, "fp.isInfinite", a.F)
		switch {
		case sign > 0:
			return t.And(inf, t.FPOp(SBool, "fp.isPositive", a.F))
		case sign < 0:
			return t.And(inf, t.FPOp(SBool, "fp.isNegative", a.F))
		}
		return inf
	}
	switch {
	case sign > 0:
		return j.fl(a.PInf)
	case sign < 0:
		return j.fl(a.NInf)
	}
	return j.isInf(a)
}

func (j *Job) fabs(a Flt) Flt {
	t := j.t
	if j.fp {
		if x, ok := fpVal(a.F); ok {
			return j.fconst(math.Abs(x))
		}
		if j.rng(a.F).pos {
			return a
		}
		if a.F.op == OFPOp && a.F.name == "fp.neg" {
			return j.fabs(Flt{F: a.F.args[0]})
		}
		return Flt{F: t.FPOp(SFP, "fp.abs", a.F)}
	}
	v := a.V
	// normalise the sign so that |x| and |-x| are the same term
	if l := t.linOf(v); leading(l).Sign() < 0 {
		v = t.Neg(v)
	}
	return Flt{V: t.Ite(t.Lt0(v), t.Neg(v), v), Nan: a.Nan, PInf: nz(j.isInf(a))}
}

// math.Max / math.Min semantics
func (j *Job) fmaxmin(a, b Flt, max bool) Flt {
	t := j.t
	if j.fp {
		x, ok1 := fpVal(a.F)
		y, ok2 := fpVal(b.F)
		if ok1 && ok2 {
			if max {
				return j.fconst(math.Max(x, y))
			}
			return j.fconst(math.Min(x, y))
		}
		if a.F == b.F {
			return a
		}
		if x, y := j.rng(a.F), j.rng(b.F); x.ok && y.ok && (x.lo > y.hi || y.lo > x.hi) {
			if (x.lo > y.hi) == max {
				return a
			}
			return b
		}
		// Go: any infinity wins, then NaN, then signed zeros
		nan := t.FPConst(math.Float64bits(math.NaN()))
		inf := t.FPConst(math.Float64bits(math.Inf(1)))
		if !max {
			inf = t.FPConst(math.Float64bits(math.Inf(-1)))
		}
		isI := func(f *Term) *Term { return t.FPOp(SBool, "=", f, inf) }
		isN := func(f *Term) *Term { return t.FPOp(SBool, "fp.isNaN", f) }
		both0 := t.And(t.FPOp(SBool, "fp.isZero", a.F), t.FPOp(SBool, "fp.isZero", b.F))
		sa := t.FPOp(SBool, "fp.isNegative", a.F)
		if !max {
			sa = t.Not(sa)
		}
		zero := t.Ite(sa, b.F, a.F)
		var lt *Term
		if max {
			lt = t.FPOp(SBool, "fp.lt", b.F, a.F)
		} else {
			lt = t.FPOp(SBool, "fp.lt", a.F, b.F)
		}
		r := t.Ite(lt, a.F, b.F)
		r = t.Ite(both0, zero, r)
		r = t.Ite(t.Or(isN(a.F), isN(b.F)), nan, r)
		r = t.Ite(t.Or(isI(a.F), isI(b.F)), inf, r)
		return Flt{F: r}
	}
	if a.plain() && b.plain() {
		return Flt{V: j.realMax(a.V, b.V, max)}
	}
	pi, ni := t.Or(j.fl(a.PInf), j.fl(b.PInf)), t.Or(j.fl(a.NInf), j.fl(b.NInf))
	nan := t.Or(j.fl(a.Nan), j.fl(b.Nan))
	var r Flt
	if max {
		r.PInf = nz(pi)
		r.Nan = nz(t.And(t.Not(pi), nan))
		r.NInf = nz(t.And(j.fl(a.NInf), j.fl(b.NInf)))
		v := j.realMax(a.V, b.V, true)
		v = t.Ite(j.fl(a.NInf), b.V, v)
		r.V = t.Ite(j.fl(b.NInf), a.V, v)
	} else {
		r.NInf = nz(ni)
		r.Nan = nz(t.And(t.Not(ni), nan))
		r.PInf = nz(t.And(j.fl(a.PInf), j.fl(b.PInf)))
		v := j.realMax(a.V, b.V, false)
		v = t.Ite(j.fl(a.PInf), b.V, v)
		r.V = t.Ite(j.fl(b.PInf), a.V, v)
	}
	return r
}

// realMax builds max/min; operand order canonical.
func (j *Job) realMax(a, b *Term, max bool) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	if max {
		return j.t.Ite(j.t.Lt(a, b), b, a)
	}
	return j.t.Ite(j.t.Lt(b, a), b, a)
}

func (j *Job) fsqrt(a Flt) Flt {
	t := j.t
	if j.fp {
		if x, ok := fpVal(a.F); ok {
			return j.fconst(math.Sqrt(x))
		}
		return Flt{F: t.FPOp(SFP, "fp.sqrt RNE", a.F)}
	}
	neg := j.isNeg(a)
	return Flt{V: t.Sqrt(a.V), Nan: nz(t.Or(j.fl(a.Nan), neg)), PInf: a.PInf}
}

func (j *Job) fromInt(x *Term) Flt {
	if j.fp {
		if x.op == OConst {
			f, _ := new(big.Float).SetInt(x.c.Num()).Float64()
			return j.fconst(f)
		}
		return Flt{F: j.t.FPOp(SFP, "(_ to_fp 11 53) RNE", j.t.ToReal(x))}
	}
	return Flt{V: j.t.ToReal(x)}
}

func (j *Job) toInt(st *State, f Flt, w uint, sg bool) Value {
	t := j.t
	if j.fp {
		if x, ok := fpVal(f.F); ok && !math.IsNaN(x) && math.Abs(x) < 1e18 {
			return t.Int(int64(x))
		}
		panic(unsupported("FP to int conversion of a symbolic value"))
	}
	v := f.V
	r := t.Ite(t.Lt0(v), t.Neg(t.Floor(t.Neg(v))), t.Floor(v))
	if !f.plain() {
		j.opaqueN++
		fr := j.freshInt("f2i")
		r = t.Ite(j.special(f), fr, r)
	}
	// out-of-range conversions are implementation-defined in Go: not modelled
	if r.op == OConst {
		return t.Wrap(r, w, sg)
	}
	return r
}

func (j *Job) freshInt(p string) *Term {
	j.nextID++
	lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63))
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	return j.t.Var(SInt, p+"!"+big.NewInt(j.nextID).String(), lo, hi)
}

// round half away from zero etc. on exact reals
func (j *Job) fround(a Flt, mode string) Flt {
	t := j.t
	if j.fp {
		rm := map[string]string{"floor": "RTN", "ceil": "RTP", "trunc": "RTZ", "round": "RNA", "even": "RNE"}[mode]
		if x, ok := fpVal(a.F); ok {
			switch mode {
			case "floor":
				return j.fconst(math.Floor(x))
			case "ceil":
				return j.fconst(math.Ceil(x))
			case "trunc":
				return j.fconst(math.Trunc(x))
			case "round":
				return j.fconst(math.Round(x))
			case "even":
				return j.fconst(math.RoundToEven(x))
			}
		}
		return Flt{F: t.FPOp(SFP, "fp.roundToIntegral "+rm, a.F)}
	}
	v := a.V
	half := t.Real(big.NewRat(1, 2))
	var r *Term
	switch mode {
	case "floor":
		r = t.ToReal(t.Floor(v))
	case "ceil":
		r = t.Neg(t.ToReal(t.Floor(t.Neg(v))))
	case "trunc":
		r = t.Ite(t.Lt0(v), t.Neg(t.ToReal(t.Floor(t.Neg(v)))), t.ToReal(t.Floor(v)))
	case "round":
		r = t.Ite(t.Lt0(v), t.Neg(t.ToReal(t.Floor(t.Add(t.Neg(v), half)))), t.ToReal(t.Floor(t.Add(v, half))))
	default:
		panic(unsupported("round mode " + mode))
	}
	return Flt{V: r, Nan: a.Nan, PInf: a.PInf, NInf: a.NInf}
}

// feq: value equality used by the harness (NaN equals NaN).
func (j *Job) feq(a, b Flt) *Term {
	t := j.t
	if j.fp {
		if a.F == b.F {
			return t.True
		}
		return t.Or(t.FPOp(SBool, "fp.eq", a.F, b.F), t.And(j.fisNaN(a), j.fisNaN(b)))
	}
	if a.plain() && b.plain() {
		return t.Eq(a.V, b.V)
	}
	return t.And(t.Iff(j.fl(a.Nan), j.fl(b.Nan)), t.Iff(j.fl(a.PInf), j.fl(b.PInf)), t.Iff(j.fl(a.NInf), j.fl(b.NInf)),
		t.Or(j.special(a), t.Eq(a.V, b.V)))
}
