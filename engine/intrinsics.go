package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool)

const symPkg = "github.com/idoall/stockindicator/zzverif/sym."

var intrinsics map[string]intrinsic

func (j *Job) str(v Value) string {
	if s, ok := v.(StrC); ok {
		return s.s
	}
	panic(unsupported("symbolic string argument"))
}

func (j *Job) cint(v Value, what string) int64 {
	k, ok := j.constInt(v)
	if !ok {
		panic(unsupported("symbolic " + what))
	}
	return k
}

func f1(f func(j *Job, x Flt) Flt) intrinsic {
	return func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return f(j, a[0].(Flt)), true }
}

// uninterpreted unary function, exact on constants when const evaluation is exact enough
func ufun(name string, f func(float64) float64) intrinsic {
	return func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[0].(Flt)
		if j.fp {
			if v, ok := fpVal(x.F); ok {
				return j.fconst(f(v)), true
			}
			panic(unsupported("math." + name + " in FP mode"))
		}
		if x.V.op == OConst && x.plain() {
			v, _ := x.V.c.Float64()
			return j.fconst(f(v)), true
		}
		j.note("math." + name + " is an uninterpreted function of its argument")
		return Flt{V: j.t.UF(name, x.V), Nan: nz(j.special(x))}, true
	}
}

func (j *Job) input(sort Sort, name string, lo, hi *big.Int) *Term {
	v := j.t.Var(sort, name, lo, hi)
	for _, x := range j.inputs {
		if x == v {
			return v
		}
	}
	j.inputs = append(j.inputs, v)
	return v
}

func (j *Job) assertObl(st *State, label string, cond, strong *Term, kind string) {
	bad := j.t.And(st.pc, j.t.Not(cond))
	o := &Obligation{label: label, kind: kind, bad: bad}
	if strong != nil {
		o.strong = j.t.And(st.pc, strong)
	}
	j.obl = append(j.obl, o)
}

func init() {
	sym := map[string]intrinsic{
		"Range": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			lo, hi := j.cint(a[1], "range"), j.cint(a[2], "range")
			if hi < lo {
				return nil, false
			}
			i := len(j.ranges)
			j.ranges = append(j.ranges, [2]int{int(lo), int(hi)})
			j.chNames = append(j.chNames, j.str(a[0]))
			if i >= len(j.choices) {
				j.choices = append(j.choices, int(lo))
			}
			return j.t.Int(int64(j.choices[i])), true
		},
		"Tier": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			if j.eng.tier == "thorough" {
				return a[1], true
			}
			return a[0], true
		},
		"Float": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			n := fmt.Sprintf("%s.%d", j.str(a[0]), j.cint(a[1], "input index"))
			if j.fp {
				v := j.input(SFP, n, nil, nil)
				return Flt{F: v}, true
			}
			return Flt{V: j.input(SReal, n, nil, nil)}, true
		},
		"FloatIn": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			n := fmt.Sprintf("%s.%d", j.str(a[0]), j.cint(a[1], "input index"))
			lo, hi := a[2].(Flt), a[3].(Flt)
			if !j.fp {
				v := j.input(SReal, n, nil, nil)
				st.pc = j.t.And(st.pc, j.t.Le(lo.V, v), j.t.Le(v, hi.V))
				return Flt{V: v}, true
			}
			l, ok1 := fpVal(lo.F)
			h, ok2 := fpVal(hi.F)
			if !ok1 || !ok2 || !(l <= h) {
				panic(unsupported("FloatIn with bounds that are not constant"))
			}
			v := j.input(SFP, n, nil, nil)
			st.pc = j.t.And(st.pc, j.t.FPOp(SBool, "fp.leq", lo.F, v), j.t.FPOp(SBool, "fp.leq", v, hi.F))
			if l == 0 {
				st.pc = j.t.And(st.pc, j.t.FPOp(SBool, "fp.isPositive", v))
			}
			if j.fpRng == nil {
				j.fpRng = map[*Term]fpRange{}
			}
			j.fpRng[v] = fpRange{l, h, l >= 0, true}
			return Flt{F: v}, true
		},
		"Int": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			n := fmt.Sprintf("%s.%d", j.str(a[0]), j.cint(a[1], "input index"))
			lo, hi := a[2].(*Term), a[3].(*Term)
			if lo == hi {
				return lo, true
			}
			return j.input(SInt, n, lo.c.Num(), hi.c.Num()), true
		},
		"Bool": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			n := fmt.Sprintf("%s.%d", j.str(a[0]), j.cint(a[1], "input index"))
			return j.input(SBool, n, nil, nil), true
		},
		"Assume": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			j.assumes++
			st.pc = j.t.And(st.pc, a[0].(*Term))
			if st.pc.isFalse() {
				return nil, false
			}
			return nil, true
		},
		"Assert": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			j.assertObl(st, j.str(a[1]), a[0].(*Term), nil, "assert")
			return nil, true
		},
		"Eq": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.feq(a[0].(Flt), a[1].(Flt)), true
		},
		"AssertEq": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			x, y := a[0].(Flt), a[1].(Flt)
			eq := j.feq(x, y)
			var strong *Term
			if !j.fp && !eq.isTrue() {
				m := j.t.Real(big.NewRat(1, 64))
				d := j.t.Sub(x.V, y.V)
				far := j.t.Or(j.t.Lt(m, d), j.t.Lt(m, j.t.Neg(d)))
				if x.plain() && y.plain() {
					strong = far
				} else {
					kind := j.t.And(j.t.Iff(j.fl(x.Nan), j.fl(y.Nan)), j.t.Iff(j.fl(x.PInf), j.fl(y.PInf)), j.t.Iff(j.fl(x.NInf), j.fl(y.NInf)))
					strong = j.t.Or(j.t.Not(kind), j.t.And(j.t.Not(j.special(x)), far))
				}
			}
			j.assertObl(st, j.str(a[2]), eq, strong, "assert")
			return nil, true
		},
		"AssertLe": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			x, y := a[0].(Flt), a[1].(Flt)
			le := j.fcmp(token.LEQ, x, y)
			var strong *Term
			if !j.fp {
				m := Flt{V: j.t.Real(big.NewRat(1, 64))}
				strong = j.t.Not(j.fcmp(token.LEQ, x, j.fadd(y, m)))
			}
			j.assertObl(st, j.str(a[2]), le, strong, "assert")
			return nil, true
		},
		"Observe": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			j.obs = append(j.obs, Observation{fmt.Sprintf("%s.%d", j.str(a[0]), j.cint(a[1], "index")), a[2].(Flt)})
			return nil, true
		},
		"Panics": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			f, ok := a[0].(FuncC)
			if !ok || f.fn == nil {
				panic(unsupported("sym.Panics of a non-constant function"))
			}
			old := j.sink
			acc := j.t.False
			j.sink = &acc
			h0, pc0 := st.h.Fork(), st.pc
			h, pc, _, ok := j.call(f.fn, nil, f.bind, st.h, st.pc)
			j.sink = old
			if ok {
				acc = j.t.And(acc, j.t.Not(pc))
			}
			switch {
			case !ok:
				st.h, st.pc = h0, pc0
				return j.t.True, true
			case acc.isFalse():
				st.h, st.pc = h, pc
				return j.t.False, true
			}
			m := j.mergeStates(&State{h: h, pc: pc}, &State{h: h0, pc: acc}, nil)
			st.h, st.pc = m.h, m.pc
			return acc, true
		},
		"LenAny": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.mapAlts(st, a[0], func(v Value) Value {
				return j.mapAlts(st, v.(IfaceC).val, func(s Value) Value { return j.t.Int(int64(s.(SliceC).len)) })
			}), true
		},
		"SwapAny": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			ic, ok := a[0].(IfaceC)
			if !ok {
				panic(unsupported("swap of union"))
			}
			et := ic.typ.Underlying().(*types.Slice).Elem()
			p, ok1 := j.indexAddr(st, ic.val, a[1].(*Term), ic.typ)
			if !ok1 {
				return nil, false
			}
			q, ok2 := j.indexAddr(st, ic.val, a[2].(*Term), ic.typ)
			if !ok2 {
				return nil, false
			}
			x, y := j.load(st, p, et), j.load(st, q, et)
			j.store(st, p, y, et)
			j.store(st, q, x, et)
			return nil, true
		},
		"Settle":   func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return j.settle(st), true },
		"Jitter":   func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return Tuple{}, true },
		"Symbolic": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return j.t.True, true },
	}
	intrinsics = map[string]intrinsic{
		"math.Abs":   f1(func(j *Job, x Flt) Flt { return j.fabs(x) }),
		"math.Sqrt":  f1(func(j *Job, x Flt) Flt { return j.fsqrt(x) }),
		"math.Floor": f1(func(j *Job, x Flt) Flt { return j.fround(x, "floor") }),
		"math.Ceil":  f1(func(j *Job, x Flt) Flt { return j.fround(x, "ceil") }),
		"math.Trunc": f1(func(j *Job, x Flt) Flt { return j.fround(x, "trunc") }),
		"math.Round": f1(func(j *Job, x Flt) Flt { return j.fround(x, "round") }),
		"math.RoundToEven": f1(func(j *Job, x Flt) Flt {
			return j.fround(x, "even")
		}),
		"math.Max": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.fmaxmin(a[0].(Flt), a[1].(Flt), true), true
		},
		"math.Min": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.fmaxmin(a[0].(Flt), a[1].(Flt), false), true
		},
		"math.IsNaN": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return j.fisNaN(a[0].(Flt)), true },
		"math.IsInf": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.fisInf(a[0].(Flt), j.cint(a[1], "sign")), true
		},
		"math.NaN": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return j.fconst(math.NaN()), true },
		"math.Inf": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			return j.fconst(math.Inf(int(j.cint(a[0], "sign")))), true
		},
		"math.Pow":   powIntr,
		"math.Log":   ufun("log", math.Log),
		"math.Exp":   ufun("exp", math.Exp),
		"math.Atan":  ufun("atan", math.Atan),
		"math.Tan":   ufun("tan", math.Tan),
		"math.Sin":   ufun("sin", math.Sin),
		"math.Cos":   ufun("cos", math.Cos),
		"math.Tanh":  ufun("tanh", math.Tanh),
		"math.Log10": ufun("log10", math.Log10),
		"math.Float64bits": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			x := a[0].(Flt)
			if j.fp {
				if v, ok := fpVal(x.F); ok {
					return j.t.BigInt(new(big.Int).SetUint64(math.Float64bits(v))), true
				}
			} else if x.plain() && x.V.op == OConst {
				v, _ := x.V.c.Float64()
				return j.t.BigInt(new(big.Int).SetUint64(math.Float64bits(v))), true
			}
			panic(unsupported("Float64bits of a symbolic value"))
		},
		"math.Float64frombits": func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
			k := a[0].(*Term)
			if k.op == OConst {
				return j.fconst(math.Float64frombits(k.c.Num().Uint64())), true
			}
			panic(unsupported("Float64frombits of a symbolic value"))
		},
		"fmt.Sprintf":  opaqueStr,
		"fmt.Sprint":   opaqueStr,
		"fmt.Sprintln": opaqueStr,
		"fmt.Printf":   nop, "fmt.Println": nop, "fmt.Print": nop, "fmt.Fprintf": nop,
		"log.Printf": nop, "log.Println": nop,
		"sort.Slice":         sortModel,
		"sort.SliceStable":   sortModel,
		"time.runtimeNano":   func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) { return j.t.Int(0), true },
		"(*sync.Mutex).Lock": syncOp("lock"), "(*sync.Mutex).Unlock": syncOp("unlock"),
		"(*sync.RWMutex).Lock": syncOp("lock"), "(*sync.RWMutex).Unlock": syncOp("unlock"),
		"(*sync.RWMutex).RLock": syncOp("rlock"), "(*sync.RWMutex).RUnlock": syncOp("runlock"),
		"(*sync.WaitGroup).Add": syncOp("wgadd"), "(*sync.WaitGroup).Done": syncOp("wgdone"), "(*sync.WaitGroup).Wait": syncOp("wgwait"),
		"runtime.KeepAlive": nop,
	}
	// Local is UTC (as in the native replay, which runs with TZ=UTC): the
	// lookup of time zone files is not modelled
	intrinsics["(*time.Location).get"] = func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p, ok := a[0].(PtrC)
		if !ok {
			panic(unsupported("symbolic time zone"))
		}
		if p.addr == 0 {
			p = PtrC{j.globalAddr(fn.Pkg.Var("utcLoc"))}
		}
		return p, true
	}
	// errors are not wrapped in this model, so Is is identity of the sentinel
	intrinsics["errors.Is"] = func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		ty := fn.Signature.Params().At(0).Type()
		j.note("errors.Is compares identities (fmt.Errorf wrapping is not modelled)")
		return j.eqTyped(st, a[0], a[1], ty, ty), true
	}
	// DeepEqual of basic values is equality
	intrinsics["reflect.DeepEqual"] = func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		for _, v := range a {
			ic, ok := v.(IfaceC)
			if !ok {
				panic(unsupported("reflect.DeepEqual of one of several values"))
			}
			if ic.typ != nil {
				if _, ok := ic.typ.Underlying().(*types.Basic); !ok {
					panic(unsupported("reflect.DeepEqual of composite values"))
				}
			}
		}
		ty := fn.Signature.Params().At(0).Type()
		return j.eqTyped(st, a[0], a[1], ty, ty), true
	}
	// the wall clock: any instant between 2020 and 2100
	intrinsics["time.Now"] = func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		j.nextID++
		off := int64(62135596800)
		now := j.t.Var(SInt, "now!"+big.NewInt(j.nextID).String(), big.NewInt(1577836800+off), big.NewInt(4102444800+off))
		j.note("time.Now is any instant between 2020 and 2100")
		return &StructV{[]Value{j.t.Int(0), now, PtrC{}}}, true
	}
	intrinsics["fmt.Errorf"] = func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		// modelled as errors.New with an opaque text (wrapping is not modelled)
		j.opaqueN++
		h, pc, r, ok := j.runFunc(j.eng.errorsNew, []Value{StrC{fmt.Sprintf("<error %d>", j.opaqueN)}}, nil, st.h, st.pc)
		st.h, st.pc = h, pc
		return r, ok
	}
	for k, v := range sym {
		intrinsics[symPkg+k] = v
	}
}

func nop(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
	if fn.Signature.Results().Len() == 0 {
		return Tuple{}, true
	}
	return j.zero(fn.Signature.Results()), true
}

func opaqueStr(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
	return StrC{"<formatted>"}, true
}

func sortModel(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
	m := j.eng.symFunc("SortSlice")
	h, pc, r, ok := j.runFunc(m, a, nil, st.h, st.pc)
	st.h, st.pc = h, pc
	j.note("sort.Slice modelled as the insertion sort it uses below 12 elements")
	return r, ok
}

func powIntr(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
	x, y := a[0].(Flt), a[1].(Flt)
	if j.fp {
		p, ok1 := fpVal(x.F)
		q, ok2 := fpVal(y.F)
		if ok1 && ok2 {
			return j.fconst(math.Pow(p, q)), true
		}
		panic(unsupported("math.Pow of symbolic FP"))
	}
	if y.V.op == OConst && y.plain() {
		c := y.V.c
		if c.IsInt() && c.Num().IsInt64() {
			k := c.Num().Int64()
			if k >= 0 && k <= 64 {
				r := j.fconst(1)
				for i := int64(0); i < k; i++ {
					r = j.fmul(r, x)
				}
				return r, true
			}
			if k < 0 && k >= -64 {
				r := j.fconst(1)
				for i := int64(0); i < -k; i++ {
					r = j.fmul(r, x)
				}
				return j.fdiv(j.fconst(1), r), true
			}
		}
		if c.Cmp(big.NewRat(1, 2)) == 0 {
			return j.fsqrt(x), true
		}
	}
	// symbolic small exponent over a constant base: enumerate
	if x.V.op == OConst && x.plain() && y.plain() && y.V.op == OToReal {
		ks := j.enumInt(st.pc, y.V.args[0], "exponent")
		var r Value
		for i := len(ks) - 1; i >= 0; i-- {
			v, _ := powIntr(j, st, fn, []Value{x, j.fromInt(ks[i].v.(*Term))})
			if r == nil {
				r = v
			} else {
				r = j.merge(ks[i].g, v, r)
			}
		}
		return r, true
	}
	j.note("math.Pow is an uninterpreted function for non-integer exponents")
	return Flt{V: j.t.UF("pow", x.V, y.V), Nan: nz(j.t.Or(j.special(x), j.special(y)))}, true
}

func (j *Job) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value, h *Heap, pc *Term) (*Heap, *Term, Value, bool) {
	t := j.t
	st := &State{h: h, pc: pc}
	var r Value
	switch b.Name() {
	case "len", "cap":
		if ch, ok := args[0].(ChanC); ok {
			r = j.conc.chanLen(j, st, ch, b.Name())
			break
		}
		r = j.mapAlts(st, args[0], func(v Value) Value {
			switch x := v.(type) {
			case SliceC:
				if b.Name() == "cap" {
					return t.Int(int64(x.cap))
				}
				return t.Int(int64(x.len))
			case StrC:
				return t.Int(int64(len(x.s)))
			case *ArrayV:
				return t.Int(int64(len(x.e)))
			case PtrC:
				at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				return t.Int(at.Len())
			case MapC:
				if x.addr == 0 {
					return t.Int(0)
				}
				n := t.Int(0)
				for _, e := range st.h.Get(x.addr).(*MapVal).ents {
					n = t.Add(n, t.Ite(e.present, t.Int(1), t.Int(0)))
				}
				return n
			}
			panic(unsupported(fmt.Sprintf("len of %T", v)))
		})
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		r = j.appendBuiltin(st, args[0], args[1], et)
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		d, ok1 := args[0].(SliceC)
		if !ok1 {
			panic(unsupported("copy to union slice"))
		}
		if s, ok := args[1].(StrC); ok {
			n := min(d.len, len(s.s))
			for i := 0; i < n; i++ {
				st.h.Set(d.base+int64(i), t.Int(int64(s.s[i])))
			}
			r = t.Int(int64(n))
			break
		}
		s, ok2 := args[1].(SliceC)
		if !ok2 {
			panic(unsupported("copy from union slice"))
		}
		n := min(d.len, s.len)
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = j.loadAt(st.h, s.base+int64(i*s.esz), et)
		}
		for i := 0; i < n; i++ {
			j.storeAt(st.h, d.base+int64(i*d.esz), vals[i])
		}
		r = t.Int(int64(n))
	case "min", "max":
		r = args[0]
		for _, x := range args[1:] {
			if f, ok := r.(Flt); ok {
				// builtin min/max: NaN if any NaN (infinities do not win over NaN)
				g := x.(Flt)
				if !j.fp && f.plain() && g.plain() {
					r = j.fmaxmin(f, g, b.Name() == "max")
				} else {
					nan := t.Or(j.fisNaN(f), j.fisNaN(g))
					r = j.merge(nan, j.fconst(math.NaN()), j.fmaxmin(f, g, b.Name() == "max"))
				}
				continue
			}
			p, q := r.(*Term), x.(*Term)
			if b.Name() == "max" {
				r = t.Ite(t.Lt(p, q), q, p)
			} else {
				r = t.Ite(t.Lt(q, p), q, p)
			}
		}
	case "delete":
		for _, a := range alts(args[0], t) {
			mc := a.v.(MapC)
			if mc.addr == 0 {
				continue
			}
			mv := st.h.Get(mc.addr).(*MapVal)
			n := &MapVal{}
			for _, e := range mv.ents {
				g := t.And(a.g, j.equal(st, e.key, args[1]))
				e.present = t.And(e.present, t.Not(g))
				if !e.present.isFalse() {
					n.ents = append(n.ents, e)
				}
			}
			st.h.Set(mc.addr, n)
		}
		r = Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case MapC:
			if x.addr != 0 {
				st.h.Set(x.addr, &MapVal{})
			}
		case SliceC:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				j.storeAt(st.h, x.base+int64(i*x.esz), j.zero(et))
			}
		}
		r = Tuple{}
	case "close":
		c := j.concOn()
		c.yield(st, &chanOp{kind: "close", ch: c.channel(args[0])})
		r = Tuple{}
	case "print", "println":
		r = Tuple{}
	case "ssa:wrapnilchk":
		r = args[0]
	case "recover":
		r = IfaceC{}
	default:
		panic(unsupported("builtin " + b.Name()))
	}
	if st.pc.isFalse() {
		return nil, nil, nil, false
	}
	return st.h, st.pc, r, true
}

func (j *Job) appendBuiltin(st *State, dst, src Value, et types.Type) Value {
	ds := j.liveAlts(st.pc, dst)
	ss := j.liveAlts(st.pc, src)
	single := len(ds) == 1 && len(ss) == 1
	var r Value
	type wr struct {
		addr int64
		g    *Term
		v    Value
	}
	var writes []wr
	for i := len(ds) - 1; i >= 0; i-- {
		for k := len(ss) - 1; k >= 0; k-- {
			d := ds[i].v.(SliceC)
			g := j.t.And(ds[i].g, ss[k].g)
			if single {
				g = j.t.True
			}
			if g.isFalse() {
				continue
			}
			var vals []Value
			if s, ok := ss[k].v.(StrC); ok {
				for q := 0; q < len(s.s); q++ {
					vals = append(vals, j.t.Int(int64(s.s[q])))
				}
			} else {
				s := ss[k].v.(SliceC)
				for q := 0; q < s.len; q++ {
					vals = append(vals, j.loadAt(st.h, s.base+int64(q*s.esz), et))
				}
			}
			n := d.len + len(vals)
			var q SliceC
			switch {
			case len(vals) == 0:
				q = d
			case n <= d.cap:
				q = SliceC{base: d.base, len: n, cap: d.cap, esz: d.esz}
				for x, v := range vals {
					writes = append(writes, wr{d.base + int64((d.len+x)*d.esz), g, v})
				}
			default:
				nc := d.cap * 2
				if d.cap > 256 {
					nc = d.cap + (d.cap+768)/4
				}
				if n > nc {
					nc = n
				}
				base := j.alloc(nc*d.esz + 1)
				for x := 0; x < d.len; x++ {
					j.storeAt(st.h, base+int64(x*d.esz), j.loadAt(st.h, d.base+int64(x*d.esz), et))
				}
				for x, v := range vals {
					j.storeAt(st.h, base+int64((d.len+x)*d.esz), v)
				}
				z := j.zero(et)
				for x := n; x < nc; x++ {
					j.storeAt(st.h, base+int64(x*d.esz), z)
				}
				q = SliceC{base: base, len: n, cap: nc, esz: d.esz}
			}
			if r == nil {
				r = q
			} else {
				r = j.merge(g, q, r)
			}
		}
	}
	for _, w := range writes {
		if w.g.isTrue() {
			j.storeAt(st.h, w.addr, w.v)
		} else {
			j.storeAt(st.h, w.addr, j.merge(w.g, w.v, j.loadAt(st.h, w.addr, et)))
		}
	}
	if r == nil {
		st.pc = j.t.False
		return dst
	}
	return r
}
