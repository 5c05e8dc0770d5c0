package main

import (
	"math"
	"strconv"
	"strings"
)

// Float evaluation of terms under a model (for translator validation and for
// screening candidate models before they are replayed natively).

type evaluator struct {
	vals map[string]float64
	memo map[*Term]float64
}

func newEval(vals map[string]float64) *evaluator {
	return &evaluator{vals: vals, memo: map[*Term]float64{}}
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) ev(t *Term) float64 {
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	e.memo[t] = v
	return v
}

func (e *evaluator) ev1(t *Term) float64 {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return b2f(t.name == "true")
		}
		f, _ := t.c.Float64()
		return f
	case OVar:
		return e.vals[t.name]
	case OFPConst:
		return math.Float64frombits(t.bits)
	case ONot:
		return 1 - e.ev(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if e.ev(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.args {
			if e.ev(a) != 0 {
				return 1
			}
		}
		return 0
	case OIff:
		return b2f((e.ev(t.args[0]) != 0) == (e.ev(t.args[1]) != 0))
	case OLt0:
		return b2f(e.ev(t.args[0]) < 0)
	case OLe0:
		return b2f(e.ev(t.args[0]) <= 0)
	case OEq0:
		return b2f(math.Abs(e.ev(t.args[0])) < 1e-12)
	case OSum:
		s, _ := t.c.Float64()
		for i, a := range t.args {
			c, _ := t.cf[i].Float64()
			s += c * e.ev(a)
		}
		return s
	case OMul:
		p := 1.0
		for _, a := range t.args {
			p *= e.ev(a)
		}
		return p
	case ODiv:
		return e.ev(t.args[0]) / e.ev(t.args[1])
	case OIte:
		if e.ev(t.args[0]) != 0 {
			return e.ev(t.args[1])
		}
		return e.ev(t.args[2])
	case OIDiv:
		k, _ := t.c.Float64()
		return math.Floor(e.ev(t.args[0]) / k)
	case OIMod:
		k, _ := t.c.Float64()
		x := e.ev(t.args[0])
		return x - k*math.Floor(x/k)
	case OToReal:
		return e.ev(t.args[0])
	case OFloor:
		return math.Floor(e.ev(t.args[0]))
	case OMax:
		m := e.ev(t.args[0])
		for _, a := range t.args[1:] {
			m = math.Max(m, e.ev(a))
		}
		return m
	case OSqrt:
		return math.Sqrt(math.Abs(e.ev(t.args[0])))
	case OUF:
		switch t.name {
		case "log":
			return math.Log(e.ev(t.args[0]))
		case "log10":
			return math.Log10(e.ev(t.args[0]))
		case "exp":
			return math.Exp(e.ev(t.args[0]))
		case "atan":
			return math.Atan(e.ev(t.args[0]))
		case "tan":
			return math.Tan(e.ev(t.args[0]))
		case "sin":
			return math.Sin(e.ev(t.args[0]))
		case "cos":
			return math.Cos(e.ev(t.args[0]))
		case "tanh":
			return math.Tanh(e.ev(t.args[0]))
		case "pow":
			return math.Pow(e.ev(t.args[0]), e.ev(t.args[1]))
		}
	case OFPOp:
		a := make([]float64, len(t.args))
		for i := range t.args {
			a[i] = e.ev(t.args[i])
		}
		switch strings.Fields(t.name)[0] {
		case "fp.add":
			return a[0] + a[1]
		case "fp.mul":
			return a[0] * a[1]
		case "fp.div":
			return a[0] / a[1]
		case "fp.neg":
			return -a[0]
		case "fp.abs":
			return math.Abs(a[0])
		case "fp.sqrt":
			return math.Sqrt(a[0])
		case "fp.lt":
			return b2f(a[0] < a[1])
		case "fp.leq":
			return b2f(a[0] <= a[1])
		case "fp.eq":
			return b2f(a[0] == a[1])
		case "fp.isNaN":
			return b2f(math.IsNaN(a[0]))
		case "fp.isInfinite":
			return b2f(math.IsInf(a[0], 0))
		case "fp.isPositive":
			return b2f(!math.Signbit(a[0]) && !math.IsNaN(a[0]))
		case "fp.isNegative":
			return b2f(math.Signbit(a[0]) && !math.IsNaN(a[0]))
		case "fp.isZero":
			return b2f(a[0] == 0)
		case "=":
			return b2f(math.Float64bits(a[0]) == math.Float64bits(a[1]))
		case "fp.roundToIntegral":
			switch strings.Fields(t.name)[1] {
			case "RNA":
				return math.Round(a[0])
			case "RTN":
				return math.Floor(a[0])
			case "RTP":
				return math.Ceil(a[0])
			case "RTZ":
				return math.Trunc(a[0])
			}
			return math.RoundToEven(a[0])
		}
	}
	return math.NaN()
}

// modelFloat parses a solver value into a float64.
func modelFloat(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	switch s {
	case "true":
		return 1, true
	case "false":
		return 0, true
	}
	if strings.HasPrefix(s, "(fp ") {
		p := strings.Fields(strings.Trim(s, "()"))
		if len(p) == 4 {
			bits := ""
			for _, x := range p[1:] {
				if strings.HasPrefix(x, "#b") {
					bits += x[2:]
				} else if strings.HasPrefix(x, "#x") {
					for _, c := range x[2:] {
						v, _ := strconv.ParseUint(string(c), 16, 8)
						b := strconv.FormatUint(v, 2)
						bits += strings.Repeat("0", 4-len(b)) + b
					}
				}
			}
			u, err := strconv.ParseUint(bits, 2, 64)
			return math.Float64frombits(u), err == nil
		}
	}
	if strings.HasPrefix(s, "(_ ") {
		switch strings.Fields(s)[1] {
		case "+oo":
			return math.Inf(1), true
		case "-oo":
			return math.Inf(-1), true
		case "NaN":
			return math.NaN(), true
		case "+zero":
			return 0, true
		case "-zero":
			return math.Copysign(0, -1), true
		}
	}
	r, ok := parseNum(s)
	if !ok {
		return 0, false
	}
	f, _ := r.Float64()
	return f, true
}
