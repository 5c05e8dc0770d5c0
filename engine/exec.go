package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

type stopJob struct{ msg string }

// Obligation: pc && !cond must be unsatisfiable.
type Obligation struct {
	label  string
	kind   string // assert, panic, unwind
	bad    *Term  // satisfiable => violated
	strong *Term  // a strictly violated variant with margin (may be nil)
	inSym  int
	status string // proved, violated, undecided
	how    string
	model  map[string]string
}

type Observation struct {
	label string
	v     Flt
}

// Job executes one harness instance (fixed configuration choices).
type Job struct {
	lemmas      []*Term // negations of obligations proved so far
	eng         *Engine
	t           *Store
	fp          bool
	fpRng       map[*Term]fpRange
	choices     []int
	ranges      [][2]int
	chNames     []string
	obl         []*Obligation
	obs         []Observation
	reach       []*Term
	nextAddr    int64
	nextID      int64
	globals     map[*ssa.Global]int64
	feas        *Solver
	feasMemo    map[*Term]Res
	funcs       map[*ssa.Function]bool
	steps       int64
	forks       int64
	merges      int64
	deadline    time.Time
	pos         token.Pos
	callStk     []string
	inputs      []*Term
	witness     []*evaluator
	assumes     int
	noPanic     bool
	depth       int
	strs        map[string]string
	conc        *Conc
	opaqueN     int
	notes       map[string]bool
	intrin      map[string]bool
	sink        **Term // inside sym.Panics: the condition under which the callee panics
	maxStep     int64
	satFeas     int
	panicChecks int
	quickN      int
	path        *pathCtl
}

type State struct {
	h     *Heap
	pc    *Term
	env   []Value
	blk   *ssa.BasicBlock
	iters []int32
	def   []deferred
	res   Value
}

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
}

func (j *Job) note(s string) { j.notes[s] = true }

func (j *Job) checkDeadline() {
	if time.Now().After(j.deadline) {
		panic(stopJob{"time budget exhausted"})
	}
}

// feasible asks whether c is satisfiable (Unknown counts as feasible).
func (j *Job) feasible(c *Term) bool {
	if c.isFalse() {
		return false
	}
	if c.isTrue() {
		return true
	}
	if r, ok := j.feasMemo[c]; ok {
		return r != Unsat
	}
	j.checkDeadline()
	if j.witnessed(c) {
		j.feasMemo[c] = Sat
		return true
	}
	r := Unknown
	if !j.fp {
		r = j.quick(c)
	}
	if r == Unknown {
		var m map[string]string
		if r, m = j.feas.Check(j.inputs, c); r == Sat {
			j.addWitness(m)
		}
	} else {
		j.quickN++
	}
	j.feasMemo[c] = r
	return r != Unsat
}

// check registers a possible runtime panic under pc; returns the pc on which execution continues.
func (j *Job) check(pc *Term, bad *Term, what string) *Term {
	if bad.isFalse() {
		return pc
	}
	b := j.t.And(pc, bad)
	if b.isFalse() || !j.feasible(b) {
		j.panicChecks++
		return pc
	}
	if j.sink != nil {
		*j.sink = j.t.Or(*j.sink, b)
		return j.t.And(pc, j.t.Not(bad))
	}
	j.obl = append(j.obl, &Obligation{label: what + " at " + j.where(), kind: "panic", bad: b})
	return j.t.And(pc, j.t.Not(bad))
}

func (j *Job) where() string {
	p := j.eng.prog.Fset.Position(j.pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---------- function execution ----------

func (j *Job) position(fi *fnInfo, a, b *State) int {
	la, lb := fi.loops[a.blk.Index], fi.loops[b.blk.Index]
	for k := 0; k < len(la) && k < len(lb); k++ {
		if la[k] != lb[k] {
			break
		}
		if a.iters[k] != b.iters[k] {
			return int(a.iters[k]) - int(b.iters[k])
		}
	}
	return fi.order[a.blk.Index] - fi.order[b.blk.Index]
}

func (j *Job) mergeStates(a, b *State, live bitset) *State {
	t := j.t
	j.merges++
	_, ra, rb := splitCommon(t.conj(a.pc), t.conj(b.pc))
	var g *Term
	// a complementary literal discriminates
	inB := map[*Term]bool{}
	for _, x := range rb {
		inB[x] = true
	}
	for _, x := range ra {
		if inB[t.Not(x)] {
			g = x
			break
		}
	}
	if g == nil {
		ga, gb := t.And(ra...), t.And(rb...)
		if len(t.conj(gb)) < len(t.conj(ga)) {
			g = t.Not(gb)
		} else {
			g = ga
		}
	}
	m := &State{blk: a.blk, iters: a.iters}
	m.pc = t.Or(a.pc, b.pc)
	m.h = j.MergeHeaps(g, a.h, b.h)
	m.env = make([]Value, len(a.env))
	for i := range a.env {
		if live == nil || live.has(i) {
			m.env[i] = j.merge(g, a.env[i], b.env[i])
		}
	}
	if len(a.def) != len(b.def) {
		panic(unsupported("merge of different defer stacks"))
	}
	m.def = a.def
	if a.res != nil || b.res != nil {
		m.res = j.merge(g, a.res, b.res)
	}
	return m
}

// runFunc executes fn to completion from (h, pc); ok=false if every path died.
func (j *Job) runFunc(fn *ssa.Function, args, bind []Value, h *Heap, pc *Term) (*Heap, *Term, Value, bool) {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + fn.String()))
	}
	j.funcs[fn] = true
	j.depth++
	if j.depth > 200 {
		panic(unsupported("recursion too deep in " + fn.String()))
	}
	defer func() { j.depth-- }()
	fi := infoOf(fn)
	st := &State{h: h, pc: pc, env: make([]Value, fi.nreg), blk: fn.Blocks[0]}
	for i, p := range fn.Params {
		st.env[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[fi.reg[p]] = bind[i]
	}
	st.iters = make([]int32, len(fi.loops[0]))
	work := []*State{st}
	var exit *State
	for len(work) > 0 {
		// pick the earliest position
		k := 0
		for i := 1; i < len(work); i++ {
			if j.position(fi, work[i], work[k]) < 0 {
				k = i
			}
		}
		cur := work[k]
		work[k] = work[len(work)-1]
		work = work[:len(work)-1]
		// merge all at the same position
		for i := 0; i < len(work); {
			if work[i].blk == cur.blk && eqIters(work[i].iters, cur.iters) {
				cur = j.mergeStates(cur, work[i], fi.livein[cur.blk.Index])
				work[i] = work[len(work)-1]
				work = work[:len(work)-1]
			} else {
				i++
			}
		}
		next, done := j.runBlock(fi, cur)
		if done != nil {
			if exit == nil {
				exit = done
			} else {
				exit = j.mergeStates(exit, done, bitset(make([]uint64, len(fi.livein[0]))))
			}
		}
		work = append(work, next...)
	}
	if exit == nil {
		return nil, nil, nil, false
	}
	return exit.h, exit.pc, exit.res, true
}

func eqIters(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const maxIter = 3000

// edge moves st from its block to the k-th successor.
func (j *Job) edge(fi *fnInfo, st *State, k int) *State {
	from := st.blk
	to := from.Succs[k]
	// predecessor index
	pi := -1
	occ := 0
	for q := 0; q < k; q++ {
		if from.Succs[q] == to {
			occ++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	var tmp []Value
	var regs []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		tmp = append(tmp, j.val(fi, st, ph.Edges[pi]))
		regs = append(regs, fi.reg[ph])
	}
	for i, r := range regs {
		st.env[r] = tmp[i]
	}
	lf, lt := fi.loops[from.Index], fi.loops[to.Index]
	it := make([]int32, len(lt))
	for q := range lt {
		if q < len(lf) && lf[q] == lt[q] {
			it[q] = st.iters[q]
			if lt[q] == to {
				it[q]++
				if it[q] > maxIter {
					if p := to.Instrs[0].Pos(); p.IsValid() {
						j.pos = p
					}
					j.obl = append(j.obl, &Obligation{label: "loop runs more than 3000 times at " + j.where(), kind: "unwind", bad: st.pc})
					panic(unsupported("unwinding bound exceeded in " + fi.fn.String()))
				}
			}
		} else {
			break
		}
	}
	st.iters = it
	st.blk = to
	return st
}

func (st *State) fork() *State {
	n := &State{h: st.h.Fork(), pc: st.pc, blk: st.blk, iters: st.iters, def: st.def, res: st.res}
	n.env = append([]Value(nil), st.env...)
	return n
}

func (j *Job) runBlock(fi *fnInfo, st *State) (next []*State, done *State) {
	for {
		b := st.blk
		for _, in := range b.Instrs {
			j.steps++
			if j.steps&0xfff == 0 {
				j.checkDeadline()
			}
			if p := in.Pos(); p.IsValid() {
				j.pos = p
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				j.edge(fi, st, 0)
				return []*State{st}, nil
			case *ssa.If:
				c := j.val(fi, st, x.Cond).(*Term)
				if !c.isConst() {
					if j.t.And(st.pc, c).isFalse() {
						c = j.t.False
					} else if j.t.And(st.pc, j.t.Not(c)).isFalse() {
						c = j.t.True
					}
				}
				if c.isTrue() {
					return []*State{j.edge(fi, st, 0)}, nil
				}
				if c.isFalse() {
					return []*State{j.edge(fi, st, 1)}, nil
				}
				pt, pf := j.t.And(st.pc, c), j.t.And(st.pc, j.t.Not(c))
				if j.path != nil {
					if j.path.decide(2, func(k int) bool {
						if k == 0 {
							return j.feasible(pt)
						}
						return j.feasible(pf)
					}) == 0 {
						st.pc = pt
						return []*State{j.edge(fi, st, 0)}, nil
					}
					st.pc = pf
					return []*State{j.edge(fi, st, 1)}, nil
				}
				ft := j.feasible(pt)
				ff := true
				if ft {
					ff = j.feasible(pf)
				}
				if !ft {
					return []*State{j.edge(fi, st, 1)}, nil
				}
				if !ff {
					return []*State{j.edge(fi, st, 0)}, nil
				}
				j.forks++
				st2 := st.fork()
				st.pc, st2.pc = pt, pf
				return []*State{j.edge(fi, st, 0), j.edge(fi, st2, 1)}, nil
			case *ssa.Return:
				var rs Tuple
				for _, r := range x.Results {
					rs = append(rs, j.val(fi, st, r))
				}
				if len(rs) == 1 {
					st.res = rs[0]
				} else if len(rs) > 1 {
					st.res = rs
				}
				return nil, st
			case *ssa.Panic:
				j.check(st.pc, j.t.True, "explicit panic")
				return nil, nil
			case *ssa.RunDefers:
				for i := len(st.def) - 1; i >= 0; i-- {
					d := st.def[i]
					h, pc, _, ok := j.callValue(d.fn, d.call, d.args, st.h, st.pc)
					if !ok {
						return nil, nil
					}
					st.h, st.pc = h, pc
				}
				st.def = nil
			case *ssa.Defer:
				fnv, args := j.prepareCall(fi, st, &x.Call)
				st.def = append(append([]deferred{}, st.def...), deferred{&x.Call, args, fnv})
			case *ssa.Call:
				fnv, args := j.prepareCall(fi, st, &x.Call)
				savePos := j.pos
				h, pc, res, ok := j.callValue(fnv, &x.Call, args, st.h, st.pc)
				j.pos = savePos
				if !ok {
					return nil, nil
				}
				st.h, st.pc = h, pc
				st.env[fi.reg[x]] = res
			default:
				if !j.simple(fi, st, in) {
					return nil, nil
				}
			}
			if st.pc.isFalse() {
				return nil, nil
			}
		}
		panic(unsupported("block without terminator"))
	}
}

// prepareCall evaluates the callee and the arguments.
func (j *Job) prepareCall(fi *fnInfo, st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fnv Value
	if c.IsInvoke() {
		fnv = j.val(fi, st, c.Value) // interface
	} else {
		fnv = j.val(fi, st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, j.val(fi, st, a))
	}
	return fnv, args
}

func (j *Job) callValue(fnv Value, c *ssa.CallCommon, args []Value, h *Heap, pc *Term) (*Heap, *Term, Value, bool) {
	as := alts(fnv, j.t)
	if len(as) == 1 {
		return j.callConc(as[0].v, c, args, h, pc)
	}
	if j.path != nil {
		k := j.path.decide(len(as), func(k int) bool { return j.feasible(j.t.And(pc, as[k].g)) })
		return j.callConc(as[k].v, c, args, h, j.t.And(pc, as[k].g))
	}
	// split on the callee
	var acc *State
	for _, a := range as {
		p := j.t.And(pc, a.g)
		if !j.feasible(p) {
			continue
		}
		nh := h.Fork()
		h2, pc2, r, ok := j.callConc(a.v, c, args, nh, p)
		if !ok {
			continue
		}
		s := &State{h: h2, pc: pc2, res: r}
		if acc == nil {
			acc = s
		} else {
			acc = j.mergeStates(acc, s, nil)
		}
	}
	if acc == nil {
		return nil, nil, nil, false
	}
	return acc.h, acc.pc, acc.res, true
}

func (j *Job) callConc(fv Value, c *ssa.CallCommon, args []Value, h *Heap, pc *Term) (*Heap, *Term, Value, bool) {
	if c != nil && c.IsInvoke() {
		ic := fv.(IfaceC)
		if ic.typ == nil {
			j.check(pc, j.t.True, "nil interface method call")
			return nil, nil, nil, false
		}
		fn := j.eng.lookupMethod(ic.typ, c.Method)
		if fn == nil {
			panic(unsupported("method lookup " + c.Method.String()))
		}
		return j.call(fn, append([]Value{ic.val}, args...), nil, h, pc)
	}
	f := fv.(FuncC)
	if f.bi != nil {
		return j.builtin(f.bi, c, args, h, pc)
	}
	if f.fn == nil {
		j.check(pc, j.t.True, "nil function call")
		return nil, nil, nil, false
	}
	return j.call(f.fn, args, f.bind, h, pc)
}

func (j *Job) call(fn *ssa.Function, args, bind []Value, h *Heap, pc *Term) (*Heap, *Term, Value, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		st := &State{h: h, pc: pc}
		r, ok := f(j, st, fn, args)
		if !strings.Contains(name, "zzverif") {
			j.intrin[name] = true
		}
		if !ok || st.pc.isFalse() {
			return nil, nil, nil, false
		}
		return st.h, st.pc, r, true
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && j.depth > 0 {
		return h, pc, nil, true
	}
	j.callStk = append(j.callStk, name)
	defer func() { j.callStk = j.callStk[:len(j.callStk)-1] }()
	return j.runFunc(fn, args, bind, h, pc)
}

// ---------- values ----------

func (j *Job) val(fi *fnInfo, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return j.constVal(x)
	case *ssa.Function:
		return FuncC{fn: x}
	case *ssa.Builtin:
		return FuncC{bi: x}
	case *ssa.Global:
		return PtrC{j.globalAddr(x)}
	}
	r := st.env[fi.reg[v]]
	if r == nil {
		panic(unsupported("undefined register " + v.Name() + " in " + fi.fn.String()))
	}
	return r
}

func (j *Job) globalAddr(g *ssa.Global) int64 {
	if a, ok := j.globals[g]; ok {
		return a
	}
	panic(unsupported("global of a package that was not initialised: " + g.String()))
}

func (j *Job) alloc(n int) int64 {
	a := j.nextAddr
	j.nextAddr += int64(n)
	if j.nextAddr >= 1<<(hbits*7) {
		panic(unsupported("heap exhausted"))
	}
	return a
}

func elemOfChan(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func intInfo(t types.Type) (w uint, signed bool, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (j *Job) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return j.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return j.t.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return StrC{constant.StringVal(c.Value)}
			}
			return StrC{c.Value.ExactString()}
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return j.t.BigInt(bi)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return j.fconst(f)
		}
	}
	if tp, ok := c.Type().(*types.TypeParam); ok {
		panic(unsupported("const of type param " + tp.String()))
	}
	panic(unsupported("constant " + c.String()))
}

func (j *Job) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return j.t.False
		case u.Info()&types.IsString != 0:
			return StrC{""}
		case u.Info()&types.IsInteger != 0:
			return j.t.Int(0)
		case u.Info()&types.IsFloat != 0:
			return j.fconst(0)
		case u.Kind() == types.UnsafePointer:
			return PtrC{0}
		case u.Kind() == types.UntypedNil:
			return IfaceC{}
		}
	case *types.Pointer:
		return PtrC{0}
	case *types.Slice:
		return SliceC{isNil: true, esz: cells(u.Elem())}
	case *types.Map:
		return MapC{0}
	case *types.Chan:
		return ChanC{0}
	case *types.Signature:
		return FuncC{}
	case *types.Interface:
		return IfaceC{}
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, j.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		r := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, j.zero(u.Elem()))
		}
		return r
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, j.zero(u.At(i).Type()))
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

// store / load flattened
func (j *Job) storeAt(h *Heap, a int64, v Value) int64 {
	switch x := v.(type) {
	case *StructV:
		if len(x.f) == 0 {
			return a + 1
		}
		for _, f := range x.f {
			a = j.storeAt(h, a, f)
		}
		return a
	case *ArrayV:
		if len(x.e) == 0 {
			return a + 1
		}
		for _, f := range x.e {
			a = j.storeAt(h, a, f)
		}
		return a
	}
	h.Set(a, v)
	return a + 1
}

func (j *Job) loadAt(h *Heap, a int64, t types.Type) Value {
	v, _ := j.loadAt2(h, a, t)
	return v
}

func (j *Job) loadAt2(h *Heap, a int64, t types.Type) (Value, int64) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := &StructV{}
		if u.NumFields() == 0 {
			return r, a + 1
		}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, a = j.loadAt2(h, a, u.Field(i).Type())
			r.f = append(r.f, v)
		}
		return r, a
	case *types.Array:
		r := &ArrayV{}
		if u.Len() == 0 {
			return r, a + 1
		}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, a = j.loadAt2(h, a, u.Elem())
			r.e = append(r.e, v)
		}
		return r, a
	}
	v := h.Get(a)
	if v == nil {
		return j.zero(t), a + 1
	}
	return v, a + 1
}

// guardOK says whether guard g is possible under pc (cheap).
func (j *Job) guardOK(pc, g *Term) bool {
	return !j.t.And(pc, g).isFalse()
}

// live alternatives under pc
func (j *Job) liveAlts(pc *Term, v Value) []Alt {
	as := alts(v, j.t)
	if len(as) == 1 {
		return as
	}
	var out []Alt
	for _, a := range as {
		if j.guardOK(pc, a.g) {
			out = append(out, a)
		}
	}
	if len(out) > 1 && len(out) <= 64 {
		// use the solver to drop impossible alternatives
		var o2 []Alt
		for _, a := range out {
			if j.feasible(j.t.And(pc, a.g)) {
				o2 = append(o2, a)
			}
		}
		out = o2
	}
	return out
}

func (j *Job) deref(st *State, p Value) []Alt {
	as := j.liveAlts(st.pc, p)
	var out []Alt
	bad := j.t.False
	for _, a := range as {
		if a.v.(PtrC).addr == 0 {
			g := a.g
			if len(as) == 1 {
				g = j.t.True
			}
			bad = j.t.Or(bad, g)
			continue
		}
		out = append(out, a)
	}
	st.pc = j.check(st.pc, bad, "nil pointer dereference")
	return out
}

func (j *Job) load(st *State, p Value, t types.Type) Value {
	as := j.deref(st, p)
	if len(as) == 0 {
		st.pc = j.t.False
		return j.zero(t)
	}
	r := j.loadAt(st.h, as[len(as)-1].v.(PtrC).addr, t)
	for i := len(as) - 2; i >= 0; i-- {
		r = j.merge(as[i].g, j.loadAt(st.h, as[i].v.(PtrC).addr, t), r)
	}
	return r
}

func (j *Job) store(st *State, p Value, v Value, t types.Type) {
	as := j.deref(st, p)
	if len(as) == 1 {
		j.storeAt(st.h, as[0].v.(PtrC).addr, v)
		return
	}
	for _, a := range as {
		ad := a.v.(PtrC).addr
		old := j.loadAt(st.h, ad, t)
		j.storeAt(st.h, ad, j.merge(a.g, v, old))
	}
}

// mapAlts applies f to each alternative and merges.
func (j *Job) mapAlts(st *State, v Value, f func(Value) Value) Value {
	as := alts(v, j.t)
	if len(as) == 1 {
		return f(as[0].v)
	}
	var out Value
	for i := len(as) - 1; i >= 0; i-- {
		x := f(as[i].v)
		if out == nil {
			out = x
		} else {
			out = j.merge(as[i].g, x, out)
		}
	}
	return out
}

func (j *Job) constInt(v Value) (int64, bool) {
	t := v.(*Term)
	if t.op == OConst {
		return t.c.Num().Int64(), true
	}
	return 0, false
}

// enumInt enumerates the possible values of an int term under pc (bounded).
func (j *Job) enumInt(pc *Term, v *Term, what string) []Alt {
	if v.op == OConst {
		return []Alt{{j.t.True, v}}
	}
	if v.lo != nil && v.hi != nil {
		d := new(big.Int).Sub(v.hi, v.lo)
		if d.IsInt64() && d.Int64() <= 300 {
			var out []Alt
			for k := int64(0); k <= d.Int64(); k++ {
				c := j.t.BigInt(new(big.Int).Add(v.lo, big.NewInt(k)))
				g := j.t.Eq(v, c)
				if j.guardOK(pc, g) && j.feasible(j.t.And(pc, g)) {
					out = append(out, Alt{g, c})
				}
			}
			return out
		}
	}
	// model-driven
	var out []Alt
	rest := pc
	for n := 0; n < 64; n++ {
		nv := j.t.Var(SInt, fmt.Sprintf("enum!%d", v.id), nil, nil)
		r, m := j.feas.Check([]*Term{nv}, rest, j.t.Eq(nv, v))
		if r == Unsat {
			return out
		}
		if r != Sat {
			break
		}
		q, ok := parseNum(m[nv.name])
		if !ok {
			break
		}
		c := j.t.Num(SInt, q)
		g := j.t.Eq(v, c)
		out = append(out, Alt{g, c})
		rest = j.t.And(rest, j.t.Not(g))
	}
	panic(unsupported("cannot enumerate " + what))
}

func (j *Job) simple(fi *fnInfo, st *State, in ssa.Instruction) bool {
	set := func(v ssa.Value, x Value) { st.env[fi.reg[v]] = x }
	get := func(v ssa.Value) Value { return j.val(fi, st, v) }
	t := j.t
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		a := j.alloc(cells(et))
		j.storeAt(st.h, a, j.zero(et))
		set(x, PtrC{a})
	case *ssa.Store:
		v := get(x.Val)
		j.store(st, get(x.Addr), v, x.Val.Type())
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			r := j.recvOp(st, get(x.X), x.CommaOk)
			if st.pc.isFalse() {
				return false
			}
			set(x, r)
			break
		}
		set(x, j.unop(fi, st, x))
	case *ssa.Send:
		c := j.concOn()
		c.yield(st, &chanOp{kind: "send", ch: c.channel(get(x.Chan)), val: get(x.X)})
	case *ssa.Select:
		set(x, j.selectOp(fi, st, x))
	case *ssa.Go:
		j.goStmt(fi, st, x)
	case *ssa.MakeChan:
		n, ok := j.constInt(get(x.Size))
		if !ok || n < 0 || n > 4096 {
			panic(unsupported("channel capacity"))
		}
		set(x, j.concOn().makeChan(int(n), j.zero(elemOfChan(x.Type()))))
	case *ssa.BinOp:
		set(x, j.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Y.Type(), x.Type()))
	case *ssa.ChangeType:
		set(x, get(x.X))
	case *ssa.ChangeInterface:
		set(x, get(x.X))
	case *ssa.Convert:
		set(x, j.convert(st, get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, j.convert(st, get(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		set(x, IfaceC{x.X.Type(), get(x.X)})
	case *ssa.Extract:
		tp := get(x.Tuple).(Tuple)
		set(x, tp[x.Index])
	case *ssa.Field:
		set(x, get(x.X).(*StructV).f[x.Field])
	case *ssa.FieldAddr:
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := int64(fieldOff(stt, x.Field))
		p := get(x.X)
		as := j.deref(st, p)
		if len(as) == 0 {
			return false
		}
		var r Value
		for i := len(as) - 1; i >= 0; i-- {
			q := PtrC{as[i].v.(PtrC).addr + off}
			if r == nil {
				r = q
			} else {
				r = j.merge(as[i].g, q, r)
			}
		}
		set(x, r)
	case *ssa.IndexAddr:
		r, ok := j.indexAddr(st, get(x.X), get(x.Index).(*Term), x.X.Type())
		if !ok {
			return false
		}
		set(x, r)
	case *ssa.Index:
		idx := get(x.Index).(*Term)
		if isStr(x.X.Type()) {
			r, ok := j.indexStr(st, get(x.X), idx)
			if !ok {
				return false
			}
			set(x, r)
			break
		}
		arr := get(x.X).(*ArrayV)
		bad := t.Or(t.Lt0(idx), t.Le(t.Int(int64(len(arr.e))), idx))
		st.pc = j.check(st.pc, bad, "index out of range")
		if st.pc.isFalse() {
			return false
		}
		var r Value
		for i := len(arr.e) - 1; i >= 0; i-- {
			g := t.Eq(idx, t.Int(int64(i)))
			if r == nil {
				r = arr.e[i]
			} else {
				r = j.merge(g, arr.e[i], r)
			}
		}
		set(x, r)
	case *ssa.Slice:
		r, ok := j.slice(st, fi, x)
		if !ok {
			return false
		}
		set(x, r)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := get(x.Len).(*Term), get(x.Cap).(*Term)
		bad := t.Or(t.Lt0(ln), t.Lt(cp, ln))
		st.pc = j.check(st.pc, bad, "makeslice: len out of range")
		if st.pc.isFalse() {
			return false
		}
		esz := cells(et)
		var r Value
		ls := j.enumInt(st.pc, ln, "slice length")
		z := j.zero(et)
		for i := len(ls) - 1; i >= 0; i-- {
			n, _ := j.constInt(ls[i].v)
			c := n
			if k, ok := j.constInt(cp); ok {
				c = k
			}
			if c > 1<<22 {
				panic(unsupported("huge make"))
			}
			base := j.alloc(int(c)*esz + 1)
			for k := int64(0); k < c; k++ {
				j.storeAt(st.h, base+k*int64(esz), z)
			}
			s := SliceC{base: base, len: int(n), cap: int(c), esz: esz}
			if r == nil {
				r = s
			} else {
				r = j.merge(ls[i].g, s, r)
			}
		}
		if r == nil {
			return false
		}
		set(x, r)
	case *ssa.MakeClosure:
		j.nextID++
		f := FuncC{fn: x.Fn.(*ssa.Function), id: j.nextID}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, get(b))
		}
		set(x, f)
	case *ssa.MakeMap:
		a := j.alloc(1)
		st.h.Set(a, &MapVal{})
		set(x, MapC{a})
	case *ssa.MapUpdate:
		return j.mapUpdate(st, get(x.Map), get(x.Key), get(x.Value))
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			r, ok := j.indexStr(st, get(x.X), get(x.Index).(*Term))
			if !ok {
				return false
			}
			set(x, r)
			break
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		v, ok := j.mapLookup(st, get(x.X), get(x.Index), vt)
		if x.CommaOk {
			set(x, Tuple{v, ok})
		} else {
			set(x, v)
		}
	case *ssa.Range:
		v := get(x.X)
		if s, ok := v.(StrC); ok {
			p := 0
			set(x, &IterV{str: s.s, pos: &p})
			break
		}
		m, ok := v.(MapC)
		if !ok {
			panic(unsupported("range over union map"))
		}
		it := &IterV{ism: true, pos: new(int)}
		if m.addr != 0 {
			mv := st.h.Get(m.addr).(*MapVal)
			for _, e := range mv.ents {
				if e.present.isTrue() {
					it.ent = append(it.ent, e)
				} else if !e.present.isFalse() {
					panic(unsupported("range over map with symbolic keys"))
				}
			}
		}
		j.note("map iteration explored in insertion order only")
		set(x, it)
	case *ssa.Next:
		it := get(x.Iter).(*IterV)
		p := *it.pos
		n := &IterV{ism: it.ism, ent: it.ent, str: it.str, pos: new(int)}
		tp := x.Type().(*types.Tuple)
		if it.ism {
			if p >= len(it.ent) {
				set(x, Tuple{t.False, j.zeroOrNil(tp.At(1).Type()), j.zeroOrNil(tp.At(2).Type())})
			} else {
				set(x, Tuple{t.True, it.ent[p].key, it.ent[p].val})
			}
			*n.pos = p + 1
		} else {
			if p >= len(it.str) {
				set(x, Tuple{t.False, t.Int(0), t.Int(0)})
			} else {
				for i, r := range it.str[p:] {
					_ = i
					set(x, Tuple{t.True, t.Int(int64(p)), t.Int(int64(r))})
					*n.pos = p + len(string(r))
					break
				}
			}
		}
		st.env[fi.reg[x.Iter]] = n
	case *ssa.TypeAssert:
		r, ok := j.typeAssert(st, x, get(x.X))
		if !ok {
			return false
		}
		set(x, r)
	case *ssa.SliceToArrayPointer:
		s := get(x.X).(SliceC)
		set(x, PtrC{s.base})
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fi.fn)))
	}
	return true
}

func (j *Job) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return j.t.Int(0)
	}
	return j.zero(t)
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (j *Job) indexStr(st *State, v Value, idx *Term) (Value, bool) {
	s, ok := v.(StrC)
	if !ok {
		panic(unsupported("index of symbolic string"))
	}
	bad := j.t.Or(j.t.Lt0(idx), j.t.Le(j.t.Int(int64(len(s.s))), idx))
	st.pc = j.check(st.pc, bad, "string index out of range")
	if st.pc.isFalse() {
		return nil, false
	}
	k, ok := j.constInt(idx)
	if !ok {
		panic(unsupported("symbolic string index"))
	}
	return j.t.Int(int64(s.s[k])), true
}

func (j *Job) indexAddr(st *State, v Value, idx *Term, typ types.Type) (Value, bool) {
	t := j.t
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := int(at.Len())
		es := cells(at.Elem())
		v = j.mapAlts(st, v, func(x Value) Value {
			return SliceC{base: x.(PtrC).addr, len: n, cap: n, esz: es}
		})
	}
	as := j.liveAlts(st.pc, v)
	bad := t.False
	var r Value
	for i := len(as) - 1; i >= 0; i-- {
		s := as[i].v.(SliceC)
		g := as[i].g
		if len(as) == 1 {
			g = t.True
		}
		oob := t.Or(t.Lt0(idx), t.Le(t.Int(int64(s.len)), idx))
		bad = t.Or(bad, t.And(g, oob))
		var q Value
		if k, ok := j.constInt(idx); ok {
			if k < 0 || k >= int64(s.len) {
				continue
			}
			q = PtrC{s.base + k*int64(s.esz)}
		} else {
			for k := s.len - 1; k >= 0; k-- {
				e := t.Eq(idx, t.Int(int64(k)))
				if !j.guardOK(st.pc, e) {
					continue
				}
				p := PtrC{s.base + int64(k*s.esz)}
				if q == nil {
					q = p
				} else {
					q = j.merge(e, p, q)
				}
			}
			if q == nil {
				continue
			}
		}
		if r == nil {
			r = q
		} else {
			r = j.merge(g, q, r)
		}
	}
	st.pc = j.check(st.pc, bad, "index out of range")
	if r == nil || st.pc.isFalse() {
		return nil, false
	}
	return r, true
}

func (j *Job) slice(st *State, fi *fnInfo, x *ssa.Slice) (Value, bool) {
	t := j.t
	v := j.val(fi, st, x.X)
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = j.val(fi, st, x.Low).(*Term)
	}
	if x.High != nil {
		hi = j.val(fi, st, x.High).(*Term)
	}
	if x.Max != nil {
		mx = j.val(fi, st, x.Max).(*Term)
	}
	if isStr(x.X.Type()) {
		s, ok := v.(StrC)
		if !ok {
			return j.mapAlts(st, v, func(a Value) Value {
				l, h := int64(0), int64(len(a.(StrC).s))
				if lo != nil {
					l, _ = j.constInt(lo)
				}
				if hi != nil {
					h, _ = j.constInt(hi)
				}
				if l > h || h > int64(len(a.(StrC).s)) {
					panic(unsupported("slice of symbolic string"))
				}
				return StrC{a.(StrC).s[l:h]}
			}), true
		}
		l, h := int64(0), int64(len(s.s))
		if lo != nil {
			l, ok = j.constInt(lo)
			if !ok {
				panic(unsupported("symbolic string slice"))
			}
		}
		if hi != nil {
			h, ok = j.constInt(hi)
			if !ok {
				panic(unsupported("symbolic string slice"))
			}
		}
		if l < 0 || h < l || h > int64(len(s.s)) {
			j.check(st.pc, t.True, "slice bounds out of range")
			return nil, false
		}
		return StrC{s.s[l:h]}, true
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := int(at.Len())
		es := cells(at.Elem())
		v = j.mapAlts(st, v, func(x Value) Value {
			return SliceC{base: x.(PtrC).addr, len: n, cap: n, esz: es}
		})
	}
	as := j.liveAlts(st.pc, v)
	bad := t.False
	var r Value
	for i := len(as) - 1; i >= 0; i-- {
		s := as[i].v.(SliceC)
		g := as[i].g
		if len(as) == 1 {
			g = t.True
		}
		l, h, m := t.Int(0), t.Int(int64(s.len)), t.Int(int64(s.cap))
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		if mx != nil {
			m = mx
		}
		oob := t.Or(t.Lt0(l), t.Lt(h, l), t.Lt(m, h), t.Lt(t.Int(int64(s.cap)), m))
		bad = t.Or(bad, t.And(g, oob))
		pc := t.And(st.pc, g, t.Not(oob))
		if pc.isFalse() {
			continue
		}
		for _, la := range j.enumInt(pc, l, "slice low") {
			for _, ha := range j.enumInt(t.And(pc, la.g), h, "slice high") {
				lk, _ := j.constInt(la.v)
				hk, _ := j.constInt(ha.v)
				mk, ok := j.constInt(m)
				if !ok {
					panic(unsupported("symbolic slice max"))
				}
				if lk < 0 || hk < lk || hk > mk {
					continue
				}
				q := SliceC{base: s.base + lk*int64(s.esz), len: int(hk - lk), cap: int(mk - lk), esz: s.esz}
				if s.isNil {
					q = SliceC{isNil: true, esz: s.esz}
				}
				if r == nil {
					r = q
				} else {
					r = j.merge(t.And(g, la.g, ha.g), q, r)
				}
			}
		}
	}
	st.pc = j.check(st.pc, bad, "slice bounds out of range")
	if r == nil || st.pc.isFalse() {
		return nil, false
	}
	return r, true
}

func (j *Job) typeAssert(st *State, x *ssa.TypeAssert, v Value) (Value, bool) {
	t := j.t
	as := alts(v, t)
	okT := t.False
	var r Value
	for i := len(as) - 1; i >= 0; i-- {
		ic := as[i].v.(IfaceC)
		match := false
		if ic.typ != nil {
			if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				match = types.Implements(ic.typ, it)
			} else {
				match = types.Identical(ic.typ, x.AssertedType)
			}
		}
		if !match {
			continue
		}
		okT = t.Or(okT, as[i].g)
		var q Value
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			q = ic
		} else {
			q = ic.val
		}
		if r == nil {
			r = q
		} else {
			r = j.merge(as[i].g, q, r)
		}
	}
	if r == nil {
		r = j.zero(x.AssertedType)
	} else if x.CommaOk && !okT.isTrue() {
		r = j.merge(okT, r, j.zero(x.AssertedType))
	}
	if x.CommaOk {
		return Tuple{r, okT}, true
	}
	st.pc = j.check(st.pc, t.Not(okT), "interface conversion")
	if st.pc.isFalse() {
		return nil, false
	}
	return r, true
}

// ---------- equality ----------

func (j *Job) equal(st *State, a, b Value) *Term {
	t := j.t
	switch x := a.(type) {
	case *Term:
		return t.Eq(x, b.(*Term))
	case Flt:
		return j.fcmp(token.EQL, x, b.(Flt))
	case *StructV:
		r := t.True
		y := b.(*StructV)
		for i := range x.f {
			r = t.And(r, j.equal(st, x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		r := t.True
		y := b.(*ArrayV)
		for i := range x.e {
			r = t.And(r, j.equal(st, x.e[i], y.e[i]))
		}
		return r
	}
	r := t.False
	for _, p := range alts(a, t) {
		for _, q := range alts(b, t) {
			g := t.And(p.g, q.g)
			if g.isFalse() {
				continue
			}
			r = t.Or(r, t.And(g, j.equalC(st, p.v, q.v)))
		}
	}
	return r
}

func (j *Job) equalC(st *State, a, b Value) *Term {
	t := j.t
	switch x := a.(type) {
	case PtrC:
		return t.Bool(x == b.(PtrC))
	case StrC:
		return t.Bool(x == b.(StrC))
	case MapC:
		return t.Bool(x == b.(MapC))
	case ChanC:
		return t.Bool(x == b.(ChanC))
	case SliceC:
		y := b.(SliceC)
		return t.Bool(x.isNil && y.isNil)
	case FuncC:
		y := b.(FuncC)
		return t.Bool(x.fn == nil && y.fn == nil)
	case IfaceC:
		y, ok := b.(IfaceC)
		if !ok {
			panic(unsupported("mixed interface comparison"))
		}
		if x.typ == nil || y.typ == nil {
			return t.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return t.False
		}
		return j.equal(st, x.val, y.val)
	}
	panic(unsupported(fmt.Sprintf("equality of %T", a)))
}

// ---------- maps ----------

func (j *Job) mapLookup(st *State, m, key Value, vt types.Type) (Value, *Term) {
	t := j.t
	res := Value(nil)
	ok := t.False
	as := alts(m, t)
	for i := len(as) - 1; i >= 0; i-- {
		mc := as[i].v.(MapC)
		v := j.zero(vt)
		k := t.False
		if mc.addr != 0 {
			mv := st.h.Get(mc.addr).(*MapVal)
			for _, e := range mv.ents {
				g := t.And(e.present, j.equal(st, e.key, key))
				if g.isFalse() {
					continue
				}
				v = j.merge(g, e.val, v)
				k = t.Or(k, g)
			}
		}
		if res == nil {
			res, ok = v, k
		} else {
			res = j.merge(as[i].g, v, res)
			ok = t.Ite(as[i].g, k, ok)
		}
	}
	return res, ok
}

func (j *Job) mapUpdate(st *State, m, key, val Value) bool {
	t := j.t
	as := alts(m, t)
	bad := t.False
	for _, a := range as {
		mc := a.v.(MapC)
		if mc.addr == 0 {
			bad = t.Or(bad, a.g)
			continue
		}
		mv := st.h.Get(mc.addr).(*MapVal)
		n := &MapVal{ents: append([]MapEnt(nil), mv.ents...)}
		absent := t.True
		for i := range n.ents {
			e := &n.ents[i]
			eq := t.And(a.g, e.present, j.equal(st, e.key, key))
			if eq.isFalse() {
				continue
			}
			e.val = j.merge(eq, val, e.val)
			absent = t.And(absent, t.Not(eq))
		}
		g := t.And(absent, a.g)
		if !g.isFalse() {
			n.ents = append(n.ents, MapEnt{key, val, g})
		}
		st.h.Set(mc.addr, n)
	}
	st.pc = j.check(st.pc, bad, "assignment to entry in nil map")
	return !st.pc.isFalse()
}

// ---------- operators ----------

func (j *Job) unop(fi *fnInfo, st *State, x *ssa.UnOp) Value {
	v := j.val(fi, st, x.X)
	switch x.Op {
	case token.MUL:
		return j.load(st, v, x.Type())
	case token.NOT:
		return j.t.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(Flt); ok {
			return j.fneg(f)
		}
		w, sg, _ := intInfo(x.Type())
		return j.t.Wrap(j.t.Neg(v.(*Term)), w, sg)
	case token.XOR:
		w, sg, _ := intInfo(x.Type())
		if sg {
			return j.t.Sub(j.t.Int(-1), v.(*Term))
		}
		return j.t.Wrap(j.t.Sub(j.t.Int(-1), v.(*Term)), w, sg)
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (j *Job) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type) Value {
	t := j.t
	switch op {
	case token.EQL:
		return j.eqTyped(st, a, b, ta, tb)
	case token.NEQ:
		return t.Not(j.eqTyped(st, a, b, ta, tb))
	}
	if x, ok := a.(Flt); ok {
		y := b.(Flt)
		switch op {
		case token.ADD:
			return j.fadd(x, y)
		case token.SUB:
			return j.fadd(x, j.fneg(y))
		case token.MUL:
			return j.fmul(x, y)
		case token.QUO:
			return j.fdiv(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return j.fcmp(op, x, y)
		}
	}
	if isStr(ta) {
		return j.mapAlts(st, a, func(p Value) Value {
			return j.mapAlts(st, b, func(q Value) Value {
				s, u := p.(StrC).s, q.(StrC).s
				switch op {
				case token.ADD:
					return StrC{s + u}
				case token.LSS:
					return t.Bool(s < u)
				case token.LEQ:
					return t.Bool(s <= u)
				case token.GTR:
					return t.Bool(s > u)
				case token.GEQ:
					return t.Bool(s >= u)
				}
				panic(unsupported("string op"))
			})
		})
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return t.And(x, y)
		case token.OR, token.LOR:
			return t.Or(x, y)
		}
	}
	w, sg, _ := intInfo(ta)
	switch op {
	case token.ADD:
		return t.Wrap(t.Add(x, y), w, sg)
	case token.SUB:
		return t.Wrap(t.Sub(x, y), w, sg)
	case token.MUL:
		return t.Wrap(t.Mul(x, y), w, sg)
	case token.LSS:
		return t.Lt(x, y)
	case token.LEQ:
		return t.Le(x, y)
	case token.GTR:
		return t.Lt(y, x)
	case token.GEQ:
		return t.Le(y, x)
	case token.QUO, token.REM:
		st.pc = j.check(st.pc, t.Eq0(y), "integer divide by zero")
		if st.pc.isFalse() {
			return t.Int(0)
		}
		ys := j.enumInt(st.pc, y, "divisor")
		var r Value
		for i := len(ys) - 1; i >= 0; i-- {
			k := ys[i].v.(*Term).c.Num()
			if k.Sign() == 0 {
				continue
			}
			var q *Term
			if op == token.QUO {
				q = t.Wrap(t.QuoT(x, k), w, sg)
			} else {
				q = t.RemT(x, k)
			}
			if r == nil {
				r = q
			} else {
				r = j.merge(ys[i].g, q, r)
			}
		}
		return r
	case token.SHL, token.SHR:
		k, ok := j.constInt(y)
		if !ok {
			panic(unsupported("symbolic shift"))
		}
		if op == token.SHL {
			if k >= int64(w) {
				return t.Int(0)
			}
			return t.Wrap(t.Scale(x, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))), w, sg)
		}
		if k > 70 {
			k = 70
		}
		return t.IDiv(x, new(big.Int).Lsh(big.NewInt(1), uint(k)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.op == OConst && y.op == OConst {
			p, q := x.c.Num(), y.c.Num()
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(p, q)
			case token.OR:
				r.Or(p, q)
			case token.XOR:
				r.Xor(p, q)
			case token.AND_NOT:
				r.AndNot(p, q)
			}
			return t.Wrap(t.BigInt(r), w, sg)
		}
		if op == token.AND {
			// mask with 2^k-1
			for _, pr := range [][2]*Term{{x, y}, {y, x}} {
				if pr[1].op == OConst {
					m := new(big.Int).Add(pr[1].c.Num(), big.NewInt(1))
					if m.Sign() > 0 && new(big.Int).And(m, pr[1].c.Num()).Sign() == 0 {
						return t.IMod(pr[0], m)
					}
					if pr[1].c.Sign() == 0 {
						return t.Int(0)
					}
				}
			}
		}
		panic(unsupported("symbolic bit operation " + op.String()))
	}
	panic(unsupported("binop " + op.String()))
}

func (j *Job) eqTyped(st *State, a, b Value, ta, tb types.Type) *Term {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		if bb, ok := tb.Underlying().(*types.Basic); !ok || bb.Kind() != types.UntypedNil {
			b = IfaceC{tb, b}
		}
	}
	if ib && !ia {
		if bb, ok := ta.Underlying().(*types.Basic); !ok || bb.Kind() != types.UntypedNil {
			a = IfaceC{ta, a}
		}
	}
	return j.equal(st, a, b)
}

func (j *Job) convert(st *State, v Value, from, to types.Type) Value {
	t := j.t
	ff, tf := isFloat(from), isFloat(to)
	wf, sf, fi := intInfo(from)
	wt, stt, ti := intInfo(to)
	_ = wf
	_ = sf
	switch {
	case fi && ti:
		return t.Wrap(v.(*Term), wt, stt)
	case fi && tf:
		x := v.(*Term)
		return j.fromInt(x)
	case ff && tf:
		return v
	case ff && ti:
		return j.toInt(st, v.(Flt), wt, stt)
	}
	if isStr(to) {
		if isStr(from) {
			return v
		}
		if fi {
			if k, ok := j.constInt(v); ok {
				return StrC{string(rune(k))}
			}
		}
		if s, ok := v.(SliceC); ok {
			et := from.Underlying().(*types.Slice).Elem()
			var b []byte
			var rs []rune
			isb := cellsIsByte(et)
			for i := 0; i < s.len; i++ {
				k, ok := j.constInt(j.loadAt(st.h, s.base+int64(i*s.esz), et))
				if !ok {
					panic(unsupported("symbolic bytes to string"))
				}
				if isb {
					b = append(b, byte(k))
				} else {
					rs = append(rs, rune(k))
				}
			}
			if isb {
				return StrC{string(b)}
			}
			return StrC{string(rs)}
		}
	}
	if isStr(from) {
		if s, ok := v.(StrC); ok {
			if sl, ok := to.Underlying().(*types.Slice); ok {
				var vals []int64
				if cellsIsByte(sl.Elem()) {
					for _, b := range []byte(s.s) {
						vals = append(vals, int64(b))
					}
				} else {
					for _, r := range s.s {
						vals = append(vals, int64(r))
					}
				}
				base := j.alloc(len(vals) + 1)
				for i, x := range vals {
					st.h.Set(base+int64(i), t.Int(x))
				}
				return SliceC{base: base, len: len(vals), cap: len(vals), esz: 1}
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func cellsIsByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var _ = math.Pi
var _ = os.Args
