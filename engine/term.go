package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term language: hash-consed, normalised on construction.

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
	SFP
)

type Op uint8

const (
	OConst   Op = iota // number (c) or bool (name "true"/"false")
	OVar               // name
	ONot               // bool
	OAnd               // n-ary
	OOr                // n-ary
	OIff               // binary
	OLt0               // args[0] < 0   (real)
	OLe0               // args[0] <= 0
	OEq0               // args[0] == 0
	OSum               // c + sum cf[i]*args[i]
	OMul               // product of atoms (sorted, repeated for powers), len>=2
	ODiv               // args[0]/args[1] real, divisor non-constant
	OIte               // cond, a, b
	OIDiv              // floor division of int by positive constant c
	OIMod              // euclidean modulus by positive constant c
	OToReal            // int -> real
	OFloor             // real -> int floor
	OUF                // uninterpreted function name(args) real
	OSqrt              // real, argument assumed >= 0
	OMax               // n-ary maximum (real)
	OFPConst           // 64-bit pattern in bits
	OFPOp              // name = smt operator; args FP/Bool mixed
	OIDivT             // int truncated division by a term (rare)
	OIModT
)

type Term struct {
	id   int32
	op   Op
	sort Sort
	args []*Term
	c    *big.Rat
	cf   []*big.Rat
	name string
	bits uint64
	lo   *big.Int // int range, nil = unknown
	hi   *big.Int
	size int32 // capped dag depth-ish
}

type Store struct {
	tab   map[string]*Term
	n     int32
	True  *Term
	False *Term
	vars  []*Term
	sb    strings.Builder
	iz    map[*big.Rat]int
}

var ratZero = new(big.Rat)
var ratOne = big.NewRat(1, 1)
var ratMinus = big.NewRat(-1, 1)

func NewStore() *Store {
	s := &Store{tab: map[string]*Term{}}
	s.True = s.mk(&Term{op: OConst, sort: SBool, name: "true"})
	s.False = s.mk(&Term{op: OConst, sort: SBool, name: "false"})
	return s
}

func (s *Store) key(t *Term) string {
	b := make([]byte, 0, 64)
	b = append(b, byte(t.op), byte(t.sort))
	put := func(x int32) { b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }
	for _, a := range t.args {
		put(a.id)
	}
	if t.name != "" {
		b = append(b, '|')
		b = append(b, t.name...)
	}
	if t.op == OFPConst {
		put(int32(t.bits))
		put(int32(t.bits >> 32))
	}
	if t.c != nil {
		b = append(b, ';')
		b = append(b, t.c.Num().Text(62)...)
		if !t.c.IsInt() {
			b = append(b, '/')
			b = append(b, t.c.Denom().Text(62)...)
		}
	}
	for _, c := range t.cf {
		b = append(b, ',')
		b = append(b, c.Num().Text(62)...)
		if !c.IsInt() {
			b = append(b, '/')
			b = append(b, c.Denom().Text(62)...)
		}
	}
	return string(b)
}

func (s *Store) mk(t *Term) *Term {
	k := s.key(t)
	if o, ok := s.tab[k]; ok {
		return o
	}
	t.id = s.n
	s.n++
	s.tab[k] = t
	if t.sort == SInt {
		s.rangeOf(t)
	}
	return t
}

func (s *Store) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}

func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.name == "true" }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.name == "false" }
func (t *Term) isConst() bool { return t.op == OConst }

func (s *Store) Num(sort Sort, r *big.Rat) *Term {
	return s.mk(&Term{op: OConst, sort: sort, c: r})
}
func (s *Store) Int(i int64) *Term { return s.Num(SInt, new(big.Rat).SetInt64(i)) }
func (s *Store) BigInt(i *big.Int) *Term {
	return s.Num(SInt, new(big.Rat).SetInt(i))
}
func (s *Store) Real(r *big.Rat) *Term { return s.Num(SReal, r) }

// Var creates (or returns) a variable.
func (s *Store) Var(sort Sort, name string, lo, hi *big.Int) *Term {
	t := &Term{op: OVar, sort: sort, name: name}
	k := s.key(t)
	if o, ok := s.tab[k]; ok {
		return o
	}
	t.lo, t.hi = lo, hi
	t = s.mk(t)
	s.vars = append(s.vars, t)
	return t
}

func (s *Store) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return s.False
	case a.isFalse():
		return s.True
	case a.op == ONot:
		return a.args[0]
	}
	return s.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (s *Store) flat(op Op, in []*Term, out []*Term) []*Term {
	for _, a := range in {
		if a.op == op {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func dedup(ts []*Term) []*Term {
	sortTerms(ts)
	o := ts[:0]
	for i, t := range ts {
		if i > 0 && ts[i-1] == t {
			continue
		}
		o = append(o, t)
	}
	return o
}

func (s *Store) And(in ...*Term) *Term {
	l := s.flat(OAnd, in, nil)
	o := l[:0:0]
	for _, a := range l {
		if a.isFalse() {
			return s.False
		}
		if !a.isTrue() {
			o = append(o, a)
		}
	}
	o = dedup(o)
	if len(o) == 0 {
		return s.True
	}
	if len(o) == 1 {
		return o[0]
	}
	set := make(map[*Term]bool, len(o))
	for _, a := range o {
		set[a] = true
	}
	for _, a := range o {
		if a.op == ONot && set[a.args[0]] {
			return s.False
		}
	}
	// simplify disjunctions under the other conjuncts
	changed := false
	for i, a := range o {
		if a.op == OOr {
			keep := make([]*Term, 0, len(a.args))
			absorbed := false
			for _, d := range a.args {
				if set[d] {
					absorbed = true
					break
				}
				if set[s.Not(d)] {
					continue
				}
				keep = append(keep, d)
			}
			if absorbed {
				o[i] = s.True
				changed = true
			} else if len(keep) != len(a.args) {
				o[i] = s.Or(keep...)
				changed = true
			}
		} else if a.op == ONot && a.args[0].op == OAnd {
			// not(and ...) == or(not...)
			keep := make([]*Term, 0, len(a.args[0].args))
			absorbed := false
			for _, d := range a.args[0].args {
				if set[s.Not(d)] {
					absorbed = true
					break
				}
				if set[d] {
					continue
				}
				keep = append(keep, d)
			}
			if absorbed {
				o[i] = s.True
				changed = true
			} else if len(keep) != len(a.args[0].args) {
				o[i] = s.Not(s.And(keep...))
				changed = true
			}
		}
	}
	if changed {
		return s.And(o...)
	}
	return s.mk(&Term{op: OAnd, sort: SBool, args: append([]*Term(nil), o...)})
}

func (s *Store) Or(in ...*Term) *Term {
	// or(x...) = not(and(not x...)) but with local simplifications
	l := s.flat(OOr, in, nil)
	o := l[:0:0]
	for _, a := range l {
		if a.isTrue() {
			return s.True
		}
		if !a.isFalse() {
			o = append(o, a)
		}
	}
	o = dedup(o)
	if len(o) == 0 {
		return s.False
	}
	if len(o) == 1 {
		return o[0]
	}
	set := make(map[*Term]bool, len(o))
	for _, a := range o {
		set[a] = true
	}
	for _, a := range o {
		if a.op == ONot && set[a.args[0]] {
			return s.True
		}
	}
	changed := false
	for i, a := range o {
		if a.op == OAnd {
			keep := make([]*Term, 0, len(a.args))
			absorbed := false
			for _, d := range a.args {
				if set[d] {
					absorbed = true
					break
				}
				if set[s.Not(d)] {
					continue
				}
				keep = append(keep, d)
			}
			if absorbed {
				o[i] = s.False
				changed = true
			} else if len(keep) != len(a.args) {
				o[i] = s.And(keep...)
				changed = true
			}
		}
	}
	if changed {
		return s.Or(o...)
	}
	// (a and b) or (a and not b) => a, for pairs
	if len(o) == 2 && o[0].op == OAnd && o[1].op == OAnd {
		common, ra, rb := splitCommon(o[0].args, o[1].args)
		if len(common) > 0 {
			r := s.Or(s.And(ra...), s.And(rb...))
			return s.And(append(common, r)...)
		}
	}
	return s.mk(&Term{op: OOr, sort: SBool, args: append([]*Term(nil), o...)})
}

func splitCommon(a, b []*Term) (common, ra, rb []*Term) {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			common = append(common, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			ra = append(ra, a[i])
			i++
		default:
			rb = append(rb, b[j])
			j++
		}
	}
	ra = append(ra, a[i:]...)
	rb = append(rb, b[j:]...)
	return
}

func (s *Store) conj(t *Term) []*Term {
	if t.isTrue() {
		return nil
	}
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (s *Store) Implies(a, b *Term) *Term { return s.Or(s.Not(a), b) }

func (s *Store) Iff(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a.isFalse() {
		return s.Not(b)
	}
	if b.isFalse() {
		return s.Not(a)
	}
	neg := false
	if a.op == ONot {
		a = a.args[0]
		neg = !neg
	}
	if b.op == ONot {
		b = b.args[0]
		neg = !neg
	}
	if a == b {
		return s.Bool(!neg)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := s.mk(&Term{op: OIff, sort: SBool, args: []*Term{a, b}})
	if neg {
		return s.Not(t)
	}
	return t
}

// ---------- linear sums ----------

type lin struct {
	c  *big.Rat
	at []*Term
	cf []*big.Rat
}

func (s *Store) linOf(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{c: t.c}
	case OSum:
		return lin{c: t.c, at: t.args, cf: t.cf}
	}
	return lin{c: ratZero, at: []*Term{t}, cf: []*big.Rat{ratOne}}
}

func (s *Store) fromLin(sort Sort, l lin) *Term {
	if len(l.at) == 0 {
		return s.Num(sort, l.c)
	}
	if len(l.at) == 1 && l.c.Sign() == 0 && l.cf[0].Cmp(ratOne) == 0 {
		return l.at[0]
	}
	return s.mk(&Term{op: OSum, sort: sort, c: l.c, args: l.at, cf: l.cf})
}

// a + k*b
func addLin(a lin, b lin, k *big.Rat) lin {
	r := lin{}
	r.c = new(big.Rat).Mul(b.c, k)
	r.c.Add(r.c, a.c)
	i, j := 0, 0
	one := k.Cmp(ratOne) == 0
	sc := func(x *big.Rat) *big.Rat {
		if one {
			return x
		}
		return new(big.Rat).Mul(x, k)
	}
	n := len(a.at) + len(b.at)
	r.at = make([]*Term, 0, n)
	r.cf = make([]*big.Rat, 0, n)
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j >= len(b.at) || (i < len(a.at) && a.at[i].id < b.at[j].id):
			r.at = append(r.at, a.at[i])
			r.cf = append(r.cf, a.cf[i])
			i++
		case i >= len(a.at) || b.at[j].id < a.at[i].id:
			r.at = append(r.at, b.at[j])
			r.cf = append(r.cf, sc(b.cf[j]))
			j++
		default:
			v := new(big.Rat).Mul(b.cf[j], k)
			v.Add(v, a.cf[i])
			if v.Sign() != 0 {
				r.at = append(r.at, a.at[i])
				r.cf = append(r.cf, v)
			}
			i++
			j++
		}
	}
	return r
}

func (s *Store) Add(a, b *Term) *Term {
	return s.fromLin(a.sort, addLin(s.linOf(a), s.linOf(b), ratOne))
}
func (s *Store) Sub(a, b *Term) *Term {
	return s.fromLin(a.sort, addLin(s.linOf(a), s.linOf(b), ratMinus))
}
func (s *Store) Scale(a *Term, k *big.Rat) *Term {
	if k.Cmp(ratOne) == 0 {
		return a
	}
	if k.Sign() == 0 {
		return s.Num(a.sort, ratZero)
	}
	l := s.linOf(a)
	r := lin{c: new(big.Rat).Mul(l.c, k), at: l.at}
	r.cf = make([]*big.Rat, len(l.cf))
	for i := range l.cf {
		r.cf[i] = new(big.Rat).Mul(l.cf[i], k)
	}
	return s.fromLin(a.sort, r)
}
func (s *Store) Neg(a *Term) *Term { return s.Scale(a, ratMinus) }

func factors(t *Term) []*Term {
	if t.op == OMul {
		return t.args
	}
	return []*Term{t}
}

func (s *Store) monomial(sort Sort, a, b *Term) *Term {
	f := append(append([]*Term{}, factors(a)...), factors(b)...)
	// x * (n/x) = n   (special values are tracked outside the real term)
	for i, q := range f {
		if q.op != ODiv {
			continue
		}
		for j, x := range f {
			if j != i && x == q.args[1] {
				r := q.args[0]
				for k, y := range f {
					if k != i && k != j {
						r = s.Mul(r, y)
					}
				}
				return r
			}
		}
	}
	sortTerms(f)
	// sqrt(v)*sqrt(v) => v   (v>=0 by construction of OSqrt)
	for i := 0; i+1 < len(f); i++ {
		if f[i] == f[i+1] && f[i].op == OSqrt {
			rest := append(append([]*Term{}, f[:i]...), f[i+2:]...)
			r := f[i].args[0]
			for _, x := range rest {
				r = s.Mul(r, x)
			}
			return r
		}
	}
	return s.mk(&Term{op: OMul, sort: sort, args: f})
}

const maxExpand = 600

func (s *Store) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return s.Scale(b, a.c)
	}
	if b.op == OConst {
		return s.Scale(a, b.c)
	}
	la, lb := s.linOf(a), s.linOf(b)
	na, nb := len(la.at), len(lb.at)
	if na*nb > maxExpand {
		// opaque product; normalise signs/scales
		ka, kb := leading(la), leading(lb)
		pa := s.opaque(s.Scale(a, new(big.Rat).Inv(ka)))
		pb := s.opaque(s.Scale(b, new(big.Rat).Inv(kb)))
		return s.Scale(s.monomial(a.sort, pa, pb), new(big.Rat).Mul(ka, kb))
	}
	// if conditions: ite with a constant-zero branch etc. are left alone
	res := lin{c: new(big.Rat).Mul(la.c, lb.c)}
	res = addLin(res, lin{c: ratZero, at: lb.at, cf: lb.cf}, la.c)
	if la.c.Sign() == 0 {
		res = lin{c: ratZero}
	}
	if lb.c.Sign() != 0 {
		res = addLin(res, lin{c: ratZero, at: la.at, cf: la.cf}, lb.c)
	}
	acc := s.fromLin(a.sort, res)
	type mt struct {
		t *Term
		k *big.Rat
	}
	var parts []mt
	for i := range la.at {
		for j := range lb.at {
			parts = append(parts, mt{s.monomial(a.sort, la.at[i], lb.at[j]), new(big.Rat).Mul(la.cf[i], lb.cf[j])})
		}
	}
	// combine
	sum := map[*Term]*big.Rat{}
	var extra []mt
	for _, p := range parts {
		if p.t.op == OSum || p.t.op == OConst {
			extra = append(extra, p)
			continue
		}
		if o, ok := sum[p.t]; ok {
			o.Add(o, p.k)
		} else {
			sum[p.t] = new(big.Rat).Set(p.k)
		}
	}
	var keys []*Term
	for t, k := range sum {
		if k.Sign() != 0 {
			keys = append(keys, t)
		}
	}
	sortTerms(keys)
	l := lin{c: ratZero}
	for _, k := range keys {
		l.at = append(l.at, k)
		l.cf = append(l.cf, sum[k])
	}
	r := addLin(s.linOf(acc), l, ratOne)
	for _, e := range extra {
		r = addLin(r, s.linOf(e.t), e.k)
	}
	return s.fromLin(a.sort, r)
}

// opaque wraps a sum so that it is a single atom in products.
func (s *Store) opaque(t *Term) *Term {
	return t // OMul args may be sums; handled by printer and evaluator
}

func leading(l lin) *big.Rat {
	if len(l.cf) > 0 {
		return l.cf[0]
	}
	if l.c.Sign() != 0 {
		return l.c
	}
	return ratOne
}

// Div: real division; caller guarantees (by kind tracking) that d != 0 matters elsewhere.
func (s *Store) Div(n, d *Term) *Term {
	if d.op == OConst {
		if d.c.Sign() == 0 {
			return s.Num(SReal, ratZero)
		}
		return s.Scale(n, new(big.Rat).Inv(d.c))
	}
	if n.op == OConst && n.c.Sign() == 0 {
		return n
	}
	ln, ld := s.linOf(n), s.linOf(d)
	kn, kd := leading(ln), leading(ld)
	n1 := s.Scale(n, new(big.Rat).Inv(kn))
	d1 := s.Scale(d, new(big.Rat).Inv(kd))
	k := new(big.Rat).Quo(kn, kd)
	if n1 == d1 {
		return s.Num(SReal, k)
	}
	// n a monomial containing d as a factor
	if n1.op == OMul {
		for i, f := range n1.args {
			if f == d1 {
				rest := append(append([]*Term{}, n1.args[:i]...), n1.args[i+1:]...)
				r := rest[0]
				for _, x := range rest[1:] {
					r = s.monomial(SReal, r, x)
				}
				return s.Scale(r, k)
			}
		}
	}
	return s.Scale(s.mk(&Term{op: ODiv, sort: SReal, args: []*Term{n1, d1}}), k)
}

func (s *Store) Sqrt(a *Term) *Term {
	if a.op == OConst && a.c.Sign() >= 0 {
		n := new(big.Int).Sqrt(a.c.Num())
		d := new(big.Int).Sqrt(a.c.Denom())
		if new(big.Int).Mul(n, n).Cmp(a.c.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(a.c.Denom()) == 0 {
			return s.Num(SReal, new(big.Rat).SetFrac(n, d))
		}
	}
	// sqrt(x*x) = |x|
	if a.op == OMul && len(a.args) == 2 && a.args[0] == a.args[1] {
		x := a.args[0]
		return s.Ite(s.Lt0(x), s.Neg(x), x)
	}
	return s.mk(&Term{op: OSqrt, sort: SReal, args: []*Term{a}})
}

func (s *Store) UF(name string, args ...*Term) *Term {
	return s.mk(&Term{op: OUF, sort: SReal, name: name, args: args})
}

// ---------- ite ----------

func (s *Store) Ite(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if c.op == ONot {
		return s.Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
		return s.mk(&Term{op: OIte, sort: SBool, args: []*Term{c, a, b}})
	}
	if a.sort == SReal && (c.op == OLt0 || c.op == OLe0) {
		if d := s.Sub(a, b); d.op != OConst {
			if n, sg := s.normCmp(d); n == c.args[0] {
				if sg < 0 {
					return s.Max(a, b)
				}
				return s.Neg(s.Max(s.Neg(a), s.Neg(b)))
			}
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == SFP {
		return s.mk(&Term{op: OIte, sort: SFP, args: []*Term{c, a, b}})
	}
	// ite(c1, x, ite(c2, x, y)) => ite(c1 or c2, x, y)
	if b.op == OIte && b.args[1] == a {
		return s.Ite(s.Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return s.Ite(s.And(s.Not(c), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return s.Ite(s.And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return s.Ite(s.And(c, s.Not(a.args[0])), a.args[2], b)
	}
	la, lb := s.linOf(a), s.linOf(b)
	// pull out the common summands
	if len(la.at)+len(lb.at) > 1 {
		var com lin
		com.c = ratZero
		ra, rb := lin{c: la.c}, lin{c: lb.c}
		i, j := 0, 0
		for i < len(la.at) || j < len(lb.at) {
			switch {
			case j >= len(lb.at) || (i < len(la.at) && la.at[i].id < lb.at[j].id):
				ra.at = append(ra.at, la.at[i])
				ra.cf = append(ra.cf, la.cf[i])
				i++
			case i >= len(la.at) || lb.at[j].id < la.at[i].id:
				rb.at = append(rb.at, lb.at[j])
				rb.cf = append(rb.cf, lb.cf[j])
				j++
			default:
				if la.cf[i].Cmp(lb.cf[j]) == 0 {
					com.at = append(com.at, la.at[i])
					com.cf = append(com.cf, la.cf[i])
				} else {
					ra.at = append(ra.at, la.at[i])
					ra.cf = append(ra.cf, la.cf[i])
					rb.at = append(rb.at, lb.at[j])
					rb.cf = append(rb.cf, lb.cf[j])
				}
				i++
				j++
			}
		}
		if len(com.at) > 0 {
			x := s.Ite(c, s.fromLin(a.sort, ra), s.fromLin(a.sort, rb))
			return s.Add(s.fromLin(a.sort, com), x)
		}
	}
	// scale normalisation (reals)
	if a.sort == SReal {
		var k *big.Rat
		if len(la.at) > 0 {
			k = la.cf[0]
		} else if len(lb.at) > 0 {
			k = lb.cf[0]
		}
		if k != nil && k.Cmp(ratOne) != 0 {
			inv := new(big.Rat).Inv(k)
			return s.Scale(s.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, s.Scale(a, inv), s.Scale(b, inv)}}), k)
		}
	}
	return s.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---------- maximum ----------

// maxParts writes t as the maximum of several terms.
func (s *Store) maxParts(t *Term) []*Term {
	if t.op == OMax {
		return t.args
	}
	if t.op != OSum {
		return []*Term{t}
	}
	at := -1
	for i, a := range t.args {
		if a.op == OMax && t.cf[i].Sign() > 0 {
			if at >= 0 {
				return []*Term{t}
			}
			at = i
		}
	}
	if at < 0 {
		return []*Term{t}
	}
	rest := s.Sub(t, s.Scale(t.args[at], t.cf[at]))
	var out []*Term
	for _, x := range t.args[at].args {
		out = append(out, s.Add(rest, s.Scale(x, t.cf[at])))
	}
	return out
}

// Max is the canonical maximum: flattened, without dominated arguments, with
// common summands and a positive factor pulled out.
func (s *Store) Max(a, b *Term) *Term {
	pa, pb := s.maxParts(a), s.maxParts(b)
	if len(pa)+len(pb) > 40 {
		pa, pb = []*Term{a}, []*Term{b}
	}
	var ps []*Term
next:
	for _, x := range append(append([]*Term(nil), pa...), pb...) {
		for i, y := range ps {
			if x == y {
				continue next
			}
			if d := s.Sub(x, y); d.op == OConst {
				if d.c.Sign() > 0 {
					ps[i] = x
				}
				continue next
			}
		}
		ps = append(ps, x)
	}
	if len(ps) == 1 {
		return ps[0]
	}
	// common summands
	l0 := s.linOf(ps[0])
	com := lin{c: new(big.Rat)}
	for i, at := range l0.at {
		same := true
		for _, p := range ps[1:] {
			l := s.linOf(p)
			k := sort.Search(len(l.at), func(q int) bool { return l.at[q].id >= at.id })
			if k >= len(l.at) || l.at[k] != at || l.cf[k].Cmp(l0.cf[i]) != 0 {
				same = false
				break
			}
		}
		if same {
			com.at = append(com.at, at)
			com.cf = append(com.cf, l0.cf[i])
		}
	}
	first := true
	for _, p := range ps {
		l := s.linOf(p)
		if first || l.c.Cmp(com.c) < 0 {
			com.c = l.c
			first = false
		}
	}
	cm := s.fromLin(SReal, com)
	var k *big.Rat
	for i := range ps {
		ps[i] = s.Sub(ps[i], cm)
		for _, c := range s.linOf(ps[i]).cf {
			if m := new(big.Rat).Abs(c); k == nil || m.Cmp(k) < 0 {
				k = m
			}
		}
	}
	inv := new(big.Rat).Inv(k)
	for i := range ps {
		ps[i] = s.Scale(ps[i], inv)
	}
	sortTerms(ps)
	m := s.mk(&Term{op: OMax, sort: SReal, args: ps})
	return s.Add(cm, s.Scale(m, k))
}

// ---------- comparisons ----------

// normSign scales t to have leading coefficient +1 (real) / coprime positive (int); returns sign.
func (s *Store) normCmp(t *Term) (*Term, int) {
	l := s.linOf(t)
	k := leading(l)
	sg := k.Sign()
	ab := new(big.Rat).Abs(k)
	if t.sort == SReal {
		inv := new(big.Rat).Inv(ab)
		if sg < 0 {
			inv.Neg(inv)
		}
		return s.Scale(t, inv), sg
	}
	// int: only flip the sign
	if sg < 0 {
		return s.Neg(t), sg
	}
	return t, sg
}

func iteConstTree(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	if t.op == OIte {
		return iteConstTree(t.args[1], budget) && iteConstTree(t.args[2], budget)
	}
	return false
}

// pushCmp pushes a comparison into an ite tree with constant leaves.
func (s *Store) pushCmp(t *Term, f func(*big.Rat) bool) *Term {
	l := s.linOf(t)
	if len(l.at) != 1 || l.at[0].op != OIte {
		return nil
	}
	bud := 40
	if !iteConstTree(l.at[0], &bud) {
		return nil
	}
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if x.op == OConst {
			v := new(big.Rat).Mul(x.c, l.cf[0])
			v.Add(v, l.c)
			return s.Bool(f(v))
		}
		if m, ok := memo[x]; ok {
			return m
		}
		r := s.Ite(x.args[0], rec(x.args[1]), rec(x.args[2]))
		memo[x] = r
		return r
	}
	return rec(l.at[0])
}

func (s *Store) Lt0(t *Term) *Term {
	if t.op == OConst {
		return s.Bool(t.c.Sign() < 0)
	}
	if t.sort == SInt {
		return s.Le0(s.Add(t, s.Int(1)))
	}
	if r := s.pushCmp(t, func(v *big.Rat) bool { return v.Sign() < 0 }); r != nil {
		return r
	}
	if r := s.intReal(t, OLt0); r != nil {
		return r
	}
	n, sg := s.normCmp(t)
	if sg > 0 {
		return s.mk(&Term{op: OLt0, sort: SBool, args: []*Term{n}})
	}
	// -n < 0  <=> n > 0 <=> not n <= 0
	return s.Not(s.mk(&Term{op: OLe0, sort: SBool, args: []*Term{n}}))
}

func (s *Store) Le0(t *Term) *Term {
	if t.op == OConst {
		return s.Bool(t.c.Sign() <= 0)
	}
	if t.sort == SInt {
		if t.hi != nil && t.hi.Sign() <= 0 {
			return s.True
		}
		if t.lo != nil && t.lo.Sign() > 0 {
			return s.False
		}
	}
	if r := s.pushCmp(t, func(v *big.Rat) bool { return v.Sign() <= 0 }); r != nil {
		return r
	}
	if r := s.intReal(t, OLe0); r != nil {
		return r
	}
	n, sg := s.normCmp(t)
	if sg > 0 {
		return s.mk(&Term{op: OLe0, sort: SBool, args: []*Term{n}})
	}
	if t.sort == SInt {
		// -n <= 0 <=> n >= 0 <=> not (n <= -1) <=> not(n+1 <= 0)
		return s.Not(s.mk(&Term{op: OLe0, sort: SBool, args: []*Term{s.Add(n, s.Int(1))}}))
	}
	return s.Not(s.mk(&Term{op: OLt0, sort: SBool, args: []*Term{n}}))
}

func (s *Store) Eq0(t *Term) *Term {
	if t.op == OConst {
		return s.Bool(t.c.Sign() == 0)
	}
	if t.sort == SInt {
		if (t.lo != nil && t.lo.Sign() > 0) || (t.hi != nil && t.hi.Sign() < 0) {
			return s.False
		}
	}
	if r := s.pushCmp(t, func(v *big.Rat) bool { return v.Sign() == 0 }); r != nil {
		return r
	}
	if r := s.intReal(t, OEq0); r != nil {
		return r
	}
	n, _ := s.normCmp(t)
	return s.mk(&Term{op: OEq0, sort: SBool, args: []*Term{n}})
}

// intReal: comparison on a real sum made only of to_real atoms with integer
// coefficients is turned into an integer comparison.
func (s *Store) intReal(t *Term, op Op) *Term {
	if t.sort != SReal {
		return nil
	}
	l := s.linOf(t)
	if len(l.at) == 0 || !l.c.IsInt() {
		return nil
	}
	for i, a := range l.at {
		if a.op != OToReal || !l.cf[i].IsInt() {
			return nil
		}
	}
	acc := s.BigInt(l.c.Num())
	for i, a := range l.at {
		acc = s.Add(acc, s.Scale(a.args[0], l.cf[i]))
	}
	switch op {
	case OLt0:
		return s.Lt0(acc)
	case OLe0:
		return s.Le0(acc)
	}
	return s.Eq0(acc)
}

func (s *Store) Lt(a, b *Term) *Term { return s.Lt0(s.Sub(a, b)) }
func (s *Store) Le(a, b *Term) *Term { return s.Le0(s.Sub(a, b)) }
func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.sort == SBool {
		return s.Iff(a, b)
	}
	return s.Eq0(s.Sub(a, b))
}

// ---------- ints ----------

func (s *Store) rangeOf(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.c.Num(), t.c.Num()
	case OSum:
		lo, hi := new(big.Rat).Set(t.c), new(big.Rat).Set(t.c)
		for i, a := range t.args {
			if a.lo == nil || a.hi == nil {
				return
			}
			x := new(big.Rat).Mul(t.cf[i], new(big.Rat).SetInt(a.lo))
			y := new(big.Rat).Mul(t.cf[i], new(big.Rat).SetInt(a.hi))
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
		}
		t.lo = new(big.Int).Div(lo.Num(), lo.Denom())
		t.hi = new(big.Int).Div(hi.Num(), hi.Denom())
	case OIte:
		a, b := t.args[1], t.args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = minBig(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxBig(a.hi, b.hi)
		}
	case OIDiv:
		if t.args[0].lo != nil && t.args[0].hi != nil {
			t.lo = floorDiv(t.args[0].lo, t.c.Num())
			t.hi = floorDiv(t.args[0].hi, t.c.Num())
		}
	case OIMod:
		t.lo = new(big.Int)
		t.hi = new(big.Int).Sub(t.c.Num(), big.NewInt(1))
	case OMul:
		lo, hi := big.NewInt(1), big.NewInt(1)
		for _, a := range t.args {
			if a.lo == nil || a.hi == nil {
				return
			}
			c := []*big.Int{new(big.Int).Mul(lo, a.lo), new(big.Int).Mul(lo, a.hi), new(big.Int).Mul(hi, a.lo), new(big.Int).Mul(hi, a.hi)}
			lo, hi = c[0], c[0]
			for _, x := range c[1:] {
				lo, hi = minBig(lo, x), maxBig(hi, x)
			}
		}
		t.lo, t.hi = lo, hi
	}
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// floor div/mod by positive constant
func (s *Store) IDiv(a *Term, k *big.Int) *Term {
	if a.op == OConst {
		return s.BigInt(floorDiv(a.c.Num(), k))
	}
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return s.BigInt(l)
		}
	}
	// (k*x + r)/k with every coefficient divisible
	l := s.linOf(a)
	var q lin
	q.c = ratZero
	rest := lin{c: l.c}
	for i, at := range l.at {
		if new(big.Int).Mod(l.cf[i].Num(), k).Sign() == 0 {
			q.at = append(q.at, at)
			q.cf = append(q.cf, new(big.Rat).SetInt(new(big.Int).Div(l.cf[i].Num(), k)))
		} else {
			rest.at = append(rest.at, at)
			rest.cf = append(rest.cf, l.cf[i])
		}
	}
	if len(q.at) > 0 {
		return s.Add(s.fromLin(SInt, q), s.IDiv(s.fromLin(SInt, rest), k))
	}
	// constants: pull out whole multiples
	cq := floorDiv(l.c.Num(), k)
	if cq.Sign() != 0 {
		rest.c = new(big.Rat).SetInt(new(big.Int).Sub(l.c.Num(), new(big.Int).Mul(cq, k)))
		return s.Add(s.BigInt(cq), s.IDiv(s.fromLin(SInt, rest), k))
	}
	if a.op == OIDiv {
		return s.IDiv(a.args[0], new(big.Int).Mul(a.c.Num(), k))
	}
	return s.mk(&Term{op: OIDiv, sort: SInt, args: []*Term{a}, c: new(big.Rat).SetInt(k)})
}

func (s *Store) IMod(a *Term, k *big.Int) *Term {
	// a - k*floor(a/k)
	if a.op == OConst {
		return s.BigInt(new(big.Int).Mod(a.c.Num(), k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return s.Sub(a, s.BigInt(new(big.Int).Mul(l, k)))
		}
	}
	l := s.linOf(a)
	rest := lin{c: new(big.Rat).SetInt(new(big.Int).Mod(l.c.Num(), k))}
	for i, at := range l.at {
		m := new(big.Int).Mod(l.cf[i].Num(), k)
		if m.Sign() != 0 {
			rest.at = append(rest.at, at)
			rest.cf = append(rest.cf, new(big.Rat).SetInt(m))
		}
	}
	r := s.fromLin(SInt, rest)
	if r.op == OConst {
		return s.BigInt(new(big.Int).Mod(r.c.Num(), k))
	}
	return s.mk(&Term{op: OIMod, sort: SInt, args: []*Term{r}, c: new(big.Rat).SetInt(k)})
}

// Go truncated division by nonzero constant
func (s *Store) QuoT(a *Term, k *big.Int) *Term {
	ak := new(big.Int).Abs(k)
	var q *Term
	if a.lo != nil && a.lo.Sign() >= 0 {
		q = s.IDiv(a, ak)
	} else if a.hi != nil && a.hi.Sign() <= 0 {
		q = s.Neg(s.IDiv(s.Neg(a), ak))
	} else {
		q = s.Ite(s.Lt0(a), s.Neg(s.IDiv(s.Neg(a), ak)), s.IDiv(a, ak))
	}
	if k.Sign() < 0 {
		return s.Neg(q)
	}
	return q
}
func (s *Store) RemT(a *Term, k *big.Int) *Term {
	ak := new(big.Int).Abs(k)
	if a.lo != nil && a.lo.Sign() >= 0 {
		return s.IMod(a, ak)
	}
	if a.hi != nil && a.hi.Sign() <= 0 {
		return s.Neg(s.IMod(s.Neg(a), ak))
	}
	return s.Ite(s.Lt0(a), s.Neg(s.IMod(s.Neg(a), ak)), s.IMod(a, ak))
}

// Wrap to w bits, signed or unsigned.
func (s *Store) Wrap(a *Term, w uint, signed bool) *Term {
	var lo, hi *big.Int
	one := big.NewInt(1)
	if signed {
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, w-1))
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, w-1), one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	}
	if a.lo != nil && a.hi != nil && a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 {
		return a
	}
	m := new(big.Int).Lsh(one, w)
	if a.op == OConst {
		v := new(big.Int).Mod(new(big.Int).Sub(a.c.Num(), lo), m)
		return s.BigInt(v.Add(v, lo))
	}
	return s.Add(s.IMod(s.Sub(a, s.BigInt(lo)), m), s.BigInt(lo))
}

func (s *Store) ToReal(a *Term) *Term {
	switch a.op {
	case OConst:
		return s.Num(SReal, a.c)
	case OSum:
		acc := s.Num(SReal, a.c)
		for i, x := range a.args {
			acc = s.Add(acc, s.Scale(s.ToReal(x), a.cf[i]))
		}
		return acc
	case OIte:
		return s.Ite(a.args[0], s.ToReal(a.args[1]), s.ToReal(a.args[2]))
	}
	return s.mk(&Term{op: OToReal, sort: SReal, args: []*Term{a}})
}

func ratFloor(r *big.Rat) *big.Int {
	return floorDiv(r.Num(), r.Denom())
}

func (s *Store) Floor(a *Term) *Term {
	if a.op == OConst {
		return s.BigInt(ratFloor(a.c))
	}
	if a.op == OToReal {
		return a.args[0]
	}
	// move the integer part out of the floor
	l := s.linOf(a)
	c0 := ratFloor(l.c)
	acc := s.BigInt(c0)
	rest := s.Real(new(big.Rat).Sub(l.c, new(big.Rat).SetInt(c0)))
	moved := c0.Sign() != 0
	for i, x := range l.at {
		if x.op == OToReal && l.cf[i].IsInt() {
			acc = s.Add(acc, s.Scale(x.args[0], l.cf[i]))
			moved = true
		} else {
			rest = s.Add(rest, s.Scale(x, l.cf[i]))
		}
	}
	if moved {
		return s.Add(acc, s.Floor(rest))
	}
	return s.mk(&Term{op: OFloor, sort: SInt, args: []*Term{a}})
}

// ---------- FP ----------

func (s *Store) FPConst(bits uint64) *Term {
	return s.mk(&Term{op: OFPConst, sort: SFP, bits: bits})
}
func (s *Store) FPOp(sort Sort, name string, args ...*Term) *Term {
	return s.mk(&Term{op: OFPOp, sort: sort, name: name, args: args})
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var sb strings.Builder
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return t.name
		}
		return t.c.RatString()
	case OVar:
		return t.name
	case OSum:
		sb.WriteString("(")
		if t.c.Sign() != 0 {
			sb.WriteString(t.c.RatString())
		}
		for i, a := range t.args {
			sb.WriteString(" + ")
			if t.cf[i].Cmp(ratOne) != 0 {
				sb.WriteString(t.cf[i].RatString() + "*")
			}
			sb.WriteString(a.str(d - 1))
		}
		sb.WriteString(")")
		return sb.String()
	}
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIff: "iff", OLt0: "lt0", OLe0: "le0", OEq0: "eq0", OMul: "mul", ODiv: "div", OIte: "ite", OIDiv: "idiv", OIMod: "imod", OToReal: "real", OFloor: "floor", OSqrt: "sqrt", OMax: "max", OUF: "uf", OFPOp: "fp", OFPConst: "fpc"}
	sb.WriteString("(" + names[t.op] + t.name)
	for _, a := range t.args {
		sb.WriteString(" " + a.str(d-1))
	}
	if t.c != nil {
		sb.WriteString(" ;" + t.c.RatString())
	}
	sb.WriteString(")")
	return sb.String()
}
