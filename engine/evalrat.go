package main

import (
	"math"
	"math/big"
	"strconv"
)

// Exact rational evaluation of terms under a model whose reals are float64
// values. A candidate counterexample counts only if it violates the property
// exactly; the native replay then has to confirm it. Square roots and other
// functions are approximated (300 bits, float64) and set approx.

type ratEval struct {
	vals   map[string]*big.Rat
	memo   map[*Term]*big.Rat
	approx bool
	fail   bool
}

var rat1 = big.NewRat(1, 1)
var rat0 = new(big.Rat)

func newRatEval(j *Job, sv map[string]string) *ratEval {
	e := &ratEval{vals: map[string]*big.Rat{}, memo: map[*Term]*big.Rat{}}
	for _, v := range j.inputs {
		s, ok := sv[v.name]
		if !ok {
			continue
		}
		switch v.sort {
		case SReal:
			u, _ := strconv.ParseUint(s, 16, 64)
			r := new(big.Rat)
			if r.SetFloat64(math.Float64frombits(u)) == nil {
				e.fail = true
				r = rat0
			}
			e.vals[v.name] = r
		case SInt:
			r, ok := new(big.Rat).SetString(s)
			if !ok {
				e.fail = true
				r = rat0
			}
			e.vals[v.name] = r
		case SBool:
			if s == "true" {
				e.vals[v.name] = rat1
			}
		default:
			e.fail = true
		}
	}
	return e
}

func b2r(b bool) *big.Rat {
	if b {
		return rat1
	}
	return rat0
}

func (e *ratEval) holds(t *Term) bool { return e.ev(t).Sign() != 0 && !e.fail }

func (e *ratEval) ev(t *Term) *big.Rat {
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	if v.Denom().BitLen()+v.Num().BitLen() > 16000 {
		f := new(big.Float).SetPrec(4000).SetRat(v)
		v, _ = f.Rat(nil)
		e.approx = true
	}
	e.memo[t] = v
	return v
}

var ratEps = big.NewRat(1, 1000000000)

func (e *ratEval) sign(r *big.Rat) int {
	if e.approx && new(big.Rat).Abs(r).Cmp(ratEps) < 0 {
		return 0
	}
	return r.Sign()
}

func ratFloorI(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

func (e *ratEval) ev1(t *Term) *big.Rat {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return b2r(t.name == "true")
		}
		return t.c
	case OVar:
		if v := e.vals[t.name]; v != nil {
			return v
		}
		return rat0
	case ONot:
		return b2r(e.ev(t.args[0]).Sign() == 0)
	case OAnd:
		for _, a := range t.args {
			if e.ev(a).Sign() == 0 {
				return rat0
			}
		}
		return rat1
	case OOr:
		for _, a := range t.args {
			if e.ev(a).Sign() != 0 {
				return rat1
			}
		}
		return rat0
	case OIff:
		return b2r((e.ev(t.args[0]).Sign() != 0) == (e.ev(t.args[1]).Sign() != 0))
	case OLt0:
		return b2r(e.sign(e.ev(t.args[0])) < 0)
	case OLe0:
		return b2r(e.sign(e.ev(t.args[0])) <= 0)
	case OEq0:
		return b2r(e.sign(e.ev(t.args[0])) == 0)
	case OSum:
		s := new(big.Rat).Set(t.c)
		m := new(big.Rat)
		for i, a := range t.args {
			s.Add(s, m.Mul(t.cf[i], e.ev(a)))
		}
		return s
	case OMul:
		p := new(big.Rat).SetInt64(1)
		for _, a := range t.args {
			p.Mul(p, e.ev(a))
		}
		return p
	case ODiv:
		d := e.ev(t.args[1])
		if d.Sign() == 0 {
			return rat0 // guarded by the flags
		}
		return new(big.Rat).Quo(e.ev(t.args[0]), d)
	case OIte:
		if e.ev(t.args[0]).Sign() != 0 {
			return e.ev(t.args[1])
		}
		return e.ev(t.args[2])
	case OIDiv:
		return new(big.Rat).SetInt(ratFloorI(new(big.Rat).Quo(e.ev(t.args[0]), t.c)))
	case OIMod:
		x := e.ev(t.args[0])
		q := new(big.Rat).SetInt(ratFloorI(new(big.Rat).Quo(x, t.c)))
		return new(big.Rat).Sub(x, q.Mul(q, t.c))
	case OToReal:
		return e.ev(t.args[0])
	case OFloor:
		return new(big.Rat).SetInt(ratFloorI(e.ev(t.args[0])))
	case OMax:
		m := e.ev(t.args[0])
		for _, a := range t.args[1:] {
			if x := e.ev(a); x.Cmp(m) > 0 {
				m = x
			}
		}
		return m
	case OSqrt:
		x := e.ev(t.args[0])
		if x.Sign() <= 0 {
			return rat0
		}
		n, d := new(big.Int).Sqrt(x.Num()), new(big.Int).Sqrt(x.Denom())
		if new(big.Int).Mul(n, n).Cmp(x.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(x.Denom()) == 0 {
			return new(big.Rat).SetFrac(n, d)
		}
		e.approx = true
		f := new(big.Float).SetPrec(300).SetRat(x)
		r, _ := f.Sqrt(f).Rat(nil)
		return r
	case OUF:
		e.approx = true
		fe := &evaluator{vals: map[string]float64{}, memo: map[*Term]float64{}}
		for _, a := range t.args {
			f, _ := e.ev(a).Float64()
			fe.memo[a] = f
		}
		r := new(big.Rat)
		if r.SetFloat64(fe.ev1(t)) == nil {
			e.fail = true
			return rat0
		}
		return r
	}
	e.fail = true
	return rat0
}
