package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Values. Scalars: *Term (bool, ints), Flt (floats). Pointer-like values are
// concrete (PtrC, SliceC, IfaceC, StrC, FuncC, MapC, ChanC) or a Union of them.

type Value interface{}

// Flt: either an exact extended real (V plus special flags, nil = false) or,
// in FP mode, an IEEE-754 term F.
type Flt struct {
	V               *Term
	Nan, PInf, NInf *Term
	F               *Term
}

type PtrC struct {
	addr int64 // 0 = nil
}
type SliceC struct {
	base     int64 // address of element 0; 0 with nil=true
	len, cap int
	esz      int
	isNil    bool
}
type IfaceC struct {
	typ types.Type // nil = nil interface
	val Value
}
type StrC struct{ s string }

type FuncC struct {
	fn   *ssa.Function // nil = nil func
	bind []Value
	id   int64 // closure identity
	bi   *ssa.Builtin
}
type MapC struct{ addr int64 } // 0 = nil; cell at addr holds *MapVal
type ChanC struct{ id int64 }

type MapEnt struct {
	key, val Value
	present  *Term
}
type MapVal struct{ ents []MapEnt }

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type Tuple []Value

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

// IterV: range iterator over a map or string
type IterV struct {
	mv  Value
	str string
	pos *int
	ism bool
	ent []MapEnt
}

func alts(v Value, t *Store) []Alt {
	if u, ok := v.(*Union); ok {
		return u.alts
	}
	return []Alt{{t.True, v}}
}

func sameConc(a, b Value) bool {
	switch x := a.(type) {
	case PtrC:
		y, ok := b.(PtrC)
		return ok && x == y
	case SliceC:
		y, ok := b.(SliceC)
		return ok && x == y
	case StrC:
		y, ok := b.(StrC)
		return ok && x == y
	case MapC:
		y, ok := b.(MapC)
		return ok && x == y
	case ChanC:
		y, ok := b.(ChanC)
		return ok && x == y
	case FuncC:
		y, ok := b.(FuncC)
		return ok && x.fn == y.fn && x.id == y.id && x.bi == y.bi
	}
	return false
}

func (j *Job) mergeFlag(c, a, b *Term) *Term {
	if a == nil && b == nil {
		return nil
	}
	if a == nil {
		a = j.t.False
	}
	if b == nil {
		b = j.t.False
	}
	r := j.t.Ite(c, a, b)
	if r.isFalse() {
		return nil
	}
	return r
}

// merge returns c ? a : b
func (j *Job) merge(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case nil:
		return b // undefined on that path
	case *Term:
		y, ok := b.(*Term)
		if b == nil {
			return a
		}
		if !ok {
			return j.mismatch(a, b)
		}
		return j.t.Ite(c, x, y)
	case Flt:
		if b == nil {
			return a
		}
		y, ok := b.(Flt)
		if !ok {
			return j.mismatch(a, b)
		}
		if x.F != nil {
			return Flt{F: j.t.Ite(c, x.F, y.F)}
		}
		if x == y {
			return x
		}
		return Flt{V: j.t.Ite(c, x.V, y.V), Nan: j.mergeFlag(c, x.Nan, y.Nan), PInf: j.mergeFlag(c, x.PInf, y.PInf), NInf: j.mergeFlag(c, x.NInf, y.NInf)}
	case *StructV:
		if b == nil {
			return a
		}
		y := b.(*StructV)
		if x == y {
			return x
		}
		r := &StructV{f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = j.merge(c, x.f[i], y.f[i])
		}
		return r
	case *ArrayV:
		if b == nil {
			return a
		}
		y := b.(*ArrayV)
		if x == y {
			return x
		}
		r := &ArrayV{e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = j.merge(c, x.e[i], y.e[i])
		}
		return r
	case Tuple:
		if b == nil {
			return a
		}
		y := b.(Tuple)
		r := make(Tuple, len(x))
		for i := range x {
			r[i] = j.merge(c, x[i], y[i])
		}
		return r
	case *MapVal:
		if b == nil {
			return a
		}
		y := b.(*MapVal)
		return j.mergeMap(c, x, y)
	case *IterV:
		if b == nil || a == b {
			return a
		}
		panic(unsupported("merge of range iterators"))
	}
	if b == nil {
		return a
	}
	// pointer-like
	if sameConc(a, b) {
		return a
	}
	return j.mergeUnion(c, a, b)
}

func (j *Job) mergeMap(c *Term, x, y *MapVal) *MapVal {
	if x == y {
		return x
	}
	n := 0
	for n < len(x.ents) && n < len(y.ents) && j.sameKey(x.ents[n].key, y.ents[n].key) {
		n++
	}
	r := &MapVal{}
	for i := 0; i < n; i++ {
		r.ents = append(r.ents, MapEnt{x.ents[i].key, j.merge(c, x.ents[i].val, y.ents[i].val), j.t.Ite(c, x.ents[i].present, y.ents[i].present)})
	}
	for _, e := range x.ents[n:] {
		r.ents = append(r.ents, MapEnt{e.key, e.val, j.t.And(c, e.present)})
	}
	for _, e := range y.ents[n:] {
		r.ents = append(r.ents, MapEnt{e.key, e.val, j.t.And(j.t.Not(c), e.present)})
	}
	return r
}

func (j *Job) sameKey(a, b Value) bool {
	if sameConc(a, b) {
		return true
	}
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if ok && ok2 {
		return x == y
	}
	xs, ok := a.(*StructV)
	ys, ok2 := b.(*StructV)
	if ok && ok2 && len(xs.f) == len(ys.f) {
		for i := range xs.f {
			if !j.sameKey(xs.f[i], ys.f[i]) {
				return false
			}
		}
		return true
	}
	xf, ok := a.(Flt)
	yf, ok2 := b.(Flt)
	if ok && ok2 {
		return xf == yf
	}
	return false
}

func (j *Job) mergeUnion(c *Term, a, b Value) Value {
	var out []Alt
	add := func(g *Term, v Value) {
		if g.isFalse() {
			return
		}
		for i := range out {
			o := &out[i]
			if sameConc(o.v, v) {
				o.g = j.t.Or(o.g, g)
				return
			}
			// interfaces with the same dynamic type: merge payloads
			x, ok1 := o.v.(IfaceC)
			y, ok2 := v.(IfaceC)
			if ok1 && ok2 {
				if x.typ == nil && y.typ == nil {
					o.g = j.t.Or(o.g, g)
					return
				}
				if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
					o.v = IfaceC{x.typ, j.merge(g, y.val, x.val)}
					o.g = j.t.Or(o.g, g)
					return
				}
			}
		}
		out = append(out, Alt{g, v})
	}
	nc := j.t.Not(c)
	for _, x := range alts(a, j.t) {
		add(j.t.And(c, x.g), x.v)
	}
	for _, x := range alts(b, j.t) {
		add(j.t.And(nc, x.g), x.v)
	}
	if len(out) == 1 {
		return out[0].v
	}
	if len(out) > 400 {
		panic(unsupported("union too large"))
	}
	return &Union{out}
}

func (j *Job) mismatch(a, b Value) Value {
	panic(unsupported(fmt.Sprintf("merge of %T and %T", a, b)))
}

// ---------- persistent heap ----------

const hbits = 4
const hw = 1 << hbits

type hnode struct {
	owner *int
	kids  [hw]*hnode
	vals  *[hw]Value
}

type Heap struct {
	root  *hnode
	depth uint // levels
	own   *int
	trk   *Conc // records accesses in concurrent harnesses
}

func NewHeap() *Heap {
	o := new(int)
	return &Heap{root: &hnode{owner: o}, depth: 7, own: o}
}

// Fork returns a copy; both become copy-on-write.
func (h *Heap) Fork() *Heap {
	h.own = new(int)
	return &Heap{root: h.root, depth: h.depth, own: new(int)}
}

func (h *Heap) Get(a int64) Value {
	if h.trk != nil {
		h.trk.access(a, false)
	}
	n := h.root
	for l := h.depth - 1; l > 0; l-- {
		n = n.kids[(a>>(hbits*l))&(hw-1)]
		if n == nil {
			return nil
		}
	}
	if n.vals == nil {
		return nil
	}
	return n.vals[a&(hw-1)]
}

func (n *hnode) clone(own *int) *hnode {
	if n.owner == own {
		return n
	}
	c := &hnode{owner: own, kids: n.kids}
	if n.vals != nil {
		v := *n.vals
		c.vals = &v
	}
	return c
}

func (h *Heap) Set(a int64, v Value) {
	if h.trk != nil {
		h.trk.access(a, true)
	}
	h.root = h.root.clone(h.own)
	n := h.root
	for l := h.depth - 1; l > 0; l-- {
		i := (a >> (hbits * l)) & (hw - 1)
		k := n.kids[i]
		if k == nil {
			k = &hnode{owner: h.own}
		} else {
			k = k.clone(h.own)
		}
		n.kids[i] = k
		n = k
	}
	if n.vals == nil {
		n.vals = new([hw]Value)
	}
	n.vals[a&(hw-1)] = v
}

// MergeHeaps: c ? a : b
func (j *Job) MergeHeaps(c *Term, a, b *Heap) *Heap {
	own := new(int)
	var rec func(x, y *hnode) *hnode
	rec = func(x, y *hnode) *hnode {
		if x == y || y == nil {
			return x
		}
		if x == nil {
			return y
		}
		r := &hnode{owner: own}
		for i := range x.kids {
			if x.kids[i] != nil || y.kids[i] != nil {
				r.kids[i] = rec(x.kids[i], y.kids[i])
			}
		}
		if x.vals != nil || y.vals != nil {
			r.vals = new([hw]Value)
			for i := 0; i < hw; i++ {
				var p, q Value
				if x.vals != nil {
					p = x.vals[i]
				}
				if y.vals != nil {
					q = y.vals[i]
				}
				r.vals[i] = j.merge(c, p, q)
			}
		}
		return r
	}
	return &Heap{root: rec(a.root, b.root), depth: a.depth, own: own}
}
