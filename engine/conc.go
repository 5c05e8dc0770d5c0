package main

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency: harnesses with the suffix _Conc run their goroutines as
// coroutines in lock-step. A goroutine runs to its next operation on a channel
// (or lock); there the scheduler picks one of the possible operations, and
// every choice is a decision of the path explorer, so that all schedules are
// covered. Two schedules that give every goroutine the same history lead to the
// same state and are explored once; this needs goroutines to share memory only
// in an ordered way, which is checked with vector clocks (label "data race").

func isConc(fn *ssa.Function) bool { return strings.HasSuffix(fn.Name(), "_Conc") }

type killed struct{}
type needAll struct{ why string }
type deadPath struct{}

type vclock []int

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type selCase struct {
	ch   int64
	send bool
	val  Value
}

type chanOp struct {
	kind string // send, recv, close, select, settle, len, lock, rlock, unlock, runlock, wgadd, wgwait
	ch   int64
	val  Value
	n    int64
	sel  []selCase
	nb   bool // select with default
	// result
	res   Value
	ok    bool
	which int
	crash string
}

type gor struct {
	id, idx int // idx: index among siblings' order of creation
	name    string
	resume  chan bool
	op      *chanOp
	done    bool
	dead    bool
	err     interface{}
	callStk []string
	depth   int
	hist    uint64
	vc      vclock
	kids    int
	chans   int
	where   string
}

type chanMsg struct {
	v    Value
	vc   vclock
	hist uint64
}

type chanState struct {
	name   uint64
	cap    int
	buf    []chanMsg
	closed bool
	cvc    vclock
	chist  uint64
	zero   Value
	sends  int
	recvVC []vclock
	ends   [2]endUse // latest use of the sending and of the receiving end
}

type endUse struct{ g, clk int }

type lockState struct {
	w  bool
	r  int
	n  int64
	vc vclock
	h  uint64
}

type shadowCell struct {
	wg, wc int
	reads  map[int]int
}

type Conc struct {
	visited map[uint64]bool
	states  int
	all     bool   // explore every schedule; otherwise one, while that is enough
	why     string // why every schedule has to be explored
	// per path
	j      *Job
	gs     []*gor
	cur    *gor
	back   chan *gor
	chans  []*chanState
	locks  map[int64]*lockState
	pc     *Term
	heap   *Heap
	run    []*gor
	shadow map[int64]*shadowCell
	raced  bool
}

func mix(h uint64, xs ...interface{}) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d", h)
	for _, x := range xs {
		fmt.Fprintf(f, "|%v", x)
	}
	return f.Sum64()
}

// trySchedule runs one schedule; again says that all have to be explored.
func (j *Job) trySchedule(fn *ssa.Function, heap *Heap) (pc *Term, ok, again bool) {
	defer func() {
		if r := recover(); r != nil {
			n, is := r.(needAll)
			if !is {
				panic(r)
			}
			j.path.conc.why, again = n.why, true
		}
	}()
	pc, ok = j.runSchedule(fn, heap)
	return
}

func (j *Job) runSchedule(fn *ssa.Function, heap *Heap) (pcOut *Term, okOut bool) {
	c := j.path.conc
	c.j = j
	c.gs, c.cur, c.chans, c.run = nil, nil, nil, nil
	c.locks = map[int64]*lockState{}
	c.shadow = map[int64]*shadowCell{}
	c.back = make(chan *gor)
	c.pc = j.t.True
	c.heap = heap
	c.raced = false
	heap.trk = c
	j.conc = c
	main := c.spawn(nil, fn, nil, nil)
	end := j.t.False
	defer func() {
		// stop what is still parked
		for _, g := range c.gs {
			if !g.done {
				g.resume <- false
				<-c.back
			}
		}
		c.cur = nil
		heap.trk = nil
	}()
	for {
		for len(c.run) > 0 {
			g := c.run[0]
			c.run = c.run[1:]
			c.step(g)
			if g.err != nil {
				panic(g.err)
			}
			if g.dead {
				return nil, false
			}
			if g == main && g.done {
				end = c.pc
			}
		}
		j.checkDeadline()
		tr := c.transitions()
		if len(tr) == 0 && main.done {
			return end, true
		}
		if len(tr) == 0 {
			var w []string
			for _, g := range c.gs {
				if !g.done {
					w = append(w, g.where+" ("+g.op.kind+")")
				}
			}
			j.obl = append(j.obl, &Obligation{label: "deadlock: every goroutine waits: " + strings.Join(w, ", "), kind: "panic", bad: c.pc})
			return nil, false
		}
		if !c.all {
			c.states++
			tr[0]()
			continue
		}
		p := j.path
		if len(p.taken) >= len(p.prefix) {
			k := c.key()
			if c.visited[k] {
				p.pruned++
				return nil, false
			}
			c.visited[k] = true
			c.states++
		}
		k := 0
		if len(tr) > 1 {
			c.cur = nil
			k = p.decide(len(tr), func(int) bool { return true })
		}
		tr[k]()
	}
}

func (c *Conc) key() uint64 {
	h := uint64(0)
	for _, g := range c.gs {
		h += mix(g.hist, g.name, g.done)
	}
	for _, cs := range c.chans {
		x := mix(cs.name, cs.closed, cs.chist)
		for _, m := range cs.buf {
			x = mix(x, m.hist)
		}
		h += x
	}
	for a, l := range c.locks {
		h += mix(uint64(a), l.w, l.r, l.n, l.h)
	}
	return h
}

// step lets g run to its next operation or its end.
func (c *Conc) step(g *gor) {
	j := c.j
	c.cur = g
	j.callStk, j.depth = g.callStk, g.depth
	g.resume <- true
	<-c.back
	g.callStk, g.depth = j.callStk, j.depth
	c.cur = nil
}

func (c *Conc) spawn(parent *gor, fn *ssa.Function, args, bind []Value) *gor {
	j := c.j
	g := &gor{id: len(c.gs), resume: make(chan bool), name: "main", hist: 14695981039346656037}
	if parent != nil {
		g.name = fmt.Sprintf("%s.%d", parent.name, parent.kids)
		parent.kids++
		parent.hist = mix(parent.hist, "go", g.name)
		g.hist = mix(parent.hist, "new")
		g.vc = append(vclock(nil), parent.vc...)
		c.tick(parent)
	}
	c.tick(g)
	c.gs = append(c.gs, g)
	c.run = append(c.run, g)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(deadPath); ok {
					g.dead = true
				} else if _, ok := r.(killed); !ok {
					if re, ok := r.(runtime.Error); ok {
						r = fmt.Sprint(re)
					}
					g.err = r
				}
			}
			g.done = true
			c.back <- g
		}()
		if !<-g.resume {
			panic(killed{})
		}
		_, pc, _, ok := j.call(fn, args, bind, c.heap, c.pc)
		if !ok {
			g.dead = true
			return
		}
		c.pc = pc
		g.hist = mix(g.hist, "end")
	}()
	return g
}

func (c *Conc) tick(g *gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

// yield parks the running goroutine at op until the scheduler has executed it.
func (c *Conc) yield(st *State, op *chanOp) *chanOp {
	g := c.cur
	g.op = op
	g.where = c.j.where()
	pos := c.j.pos
	c.pc = st.pc
	if !c.all {
		c.determinate(g, op)
	}
	c.back <- g
	if !<-g.resume {
		panic(killed{})
	}
	c.j.pos = pos
	st.pc = c.pc
	g.op = nil
	if op.crash != "" {
		c.j.obl = append(c.j.obl, &Obligation{label: op.crash + " at " + g.where, kind: "panic", bad: c.pc})
		panic(deadPath{})
	}
	return op
}

// determinate checks that the order of the operations does not depend on the
// schedule: each end of a channel is used by goroutines one after the other, in
// an order that the program itself enforces, and nothing depends on timing.
// Then no operation ever disables or overtakes another one it conflicts with, so
// that all schedules perform the same operations with the same results (there is
// one Mazurkiewicz trace) and one of them stands for all. Otherwise the
// exploration starts again with every schedule.
func (c *Conc) determinate(g *gor, op *chanOp) {
	end := 0
	switch op.kind {
	case "settle":
		return
	case "send", "close":
	case "recv":
		end = 1
	case "select":
		if len(op.sel) == 1 && !op.nb {
			op.ch = op.sel[0].ch
			if !op.sel[0].send {
				end = 1
			}
			break
		}
		panic(needAll{"select at " + g.where})
	default:
		panic(needAll{op.kind + " at " + g.where})
	}
	if op.ch == 0 {
		return
	}
	cs := c.chans[op.ch-1]
	u := cs.ends[end]
	if u.clk > 0 && u.g != g.id && g.vc.at(u.g) < u.clk {
		panic(needAll{"one end of a channel used by several goroutines at " + g.where})
	}
	cs.ends[end] = endUse{g.id, g.vc.at(g.id)}
}

func (j *Job) concOn() *Conc {
	if j.conc == nil || j.conc.cur == nil {
		panic(unsupported("goroutines and channels outside a _Conc harness"))
	}
	return j.conc
}

func (c *Conc) channel(v Value) int64 {
	ch, ok := v.(ChanC)
	if !ok {
		panic(unsupported("operation on one of several channels"))
	}
	return ch.id
}

func (c *Conc) makeChan(capacity int, zero Value) Value {
	g := c.cur
	c.chans = append(c.chans, &chanState{name: mix(0, g.name, g.chans), cap: capacity, zero: zero})
	g.chans++
	g.hist = mix(g.hist, "make", capacity)
	return ChanC{int64(len(c.chans))}
}

func (c *Conc) done(g *gor, what ...interface{}) {
	g.hist = mix(g.hist, what...)
	c.tick(g)
	c.run = append(c.run, g)
}

// rendezvous and buffered transfers of one send and one receive
func (c *Conc) transitions() (out []func()) {
	// waiting returns the ways g can take part on channel ch
	type part struct {
		g  *gor
		si int // index of the select case, -1 for a plain operation
		v  Value
	}
	parts := func(ch int64, send bool) (ps []part) {
		for _, g := range c.gs {
			if g.done || g.op == nil {
				continue
			}
			switch {
			case g.op.kind == "send" && send && g.op.ch == ch:
				ps = append(ps, part{g, -1, g.op.val})
			case g.op.kind == "recv" && !send && g.op.ch == ch:
				ps = append(ps, part{g, -1, nil})
			case g.op.kind == "select":
				for i, s := range g.op.sel {
					if s.ch == ch && s.send == send {
						ps = append(ps, part{g, i, s.val})
					}
				}
			}
		}
		return
	}
	finish := func(p part, kind string, cs *chanState, hist uint64) {
		p.g.op.which = p.si
		c.done(p.g, kind, cs.name, hist, p.si)
	}
	for ci := range c.chans {
		ch, cs := int64(ci+1), c.chans[ci]
		snd, rcv := parts(ch, true), parts(ch, false)
		for _, s := range snd {
			s := s
			if cs.closed {
				out = append(out, func() {
					s.g.op.crash = "send on closed channel"
					finish(s, "crash", cs, cs.chist)
				})
				continue
			}
			if cs.cap > 0 {
				if len(cs.buf) < cs.cap {
					out = append(out, func() {
						if k := cs.sends - cs.cap; k >= 0 {
							s.g.vc = s.g.vc.join(cs.recvVC[k])
						}
						cs.sends++
						cs.buf = append(cs.buf[:len(cs.buf):len(cs.buf)], chanMsg{s.v, append(vclock(nil), s.g.vc...), s.g.hist})
						finish(s, "send", cs, 0)
					})
				}
				continue
			}
			for _, r := range rcv {
				r := r
				if r.g == s.g {
					continue
				}
				out = append(out, func() {
					hs, hr := s.g.hist, r.g.hist
					s.g.vc = s.g.vc.join(r.g.vc)
					r.g.vc = r.g.vc.join(s.g.vc)
					r.g.op.res, r.g.op.ok = s.v, true
					finish(s, "send", cs, hr)
					finish(r, "recv", cs, hs)
				})
			}
		}
		for _, r := range rcv {
			r := r
			switch {
			case len(cs.buf) > 0:
				out = append(out, func() {
					m := cs.buf[0]
					cs.buf = cs.buf[1:]
					r.g.vc = r.g.vc.join(m.vc)
					cs.recvVC = append(cs.recvVC, append(vclock(nil), r.g.vc...))
					r.g.op.res, r.g.op.ok = m.v, true
					finish(r, "recv", cs, m.hist)
				})
			case cs.closed:
				out = append(out, func() {
					r.g.vc = r.g.vc.join(cs.cvc)
					r.g.op.res, r.g.op.ok = cs.zero, false
					finish(r, "recv closed", cs, cs.chist)
				})
			}
		}
	}
	for _, g := range c.gs {
		if g.done || g.op == nil {
			continue
		}
		g := g
		op := g.op
		switch op.kind {
		case "close":
			out = append(out, func() {
				switch {
				case op.ch == 0:
					op.crash = "close of nil channel"
				case c.chans[op.ch-1].closed:
					op.crash = "close of closed channel"
				default:
					cs := c.chans[op.ch-1]
					cs.closed, cs.chist, cs.cvc = true, g.hist, append(vclock(nil), g.vc...)
				}
				c.done(g, "close", op.ch == 0)
			})
		case "select":
			if op.nb {
				out = append(out, func() {
					op.which = -1
					c.done(g, "default")
				})
			}
		case "len":
			out = append(out, func() {
				n := 0
				if op.ch > 0 {
					n = len(c.chans[op.ch-1].buf)
				}
				op.n = int64(n)
				c.done(g, "len", n)
			})
		case "lock", "rlock":
			l := c.lock(op.n)
			if !l.w && (op.kind == "rlock" || l.r == 0) {
				out = append(out, func() {
					if op.kind == "lock" {
						l.w = true
					} else {
						l.r++
					}
					g.vc = g.vc.join(l.vc)
					l.h = mix(l.h, g.hist)
					c.done(g, op.kind, l.h)
				})
			}
		case "unlock", "runlock":
			l := c.lock(op.n)
			out = append(out, func() {
				if op.kind == "unlock" && !l.w || op.kind == "runlock" && l.r == 0 {
					op.crash = "unlock of unlocked mutex"
				} else if op.kind == "unlock" {
					l.w = false
				} else {
					l.r--
				}
				l.vc = append(vclock(nil), l.vc...).join(g.vc)
				l.h = mix(l.h, g.hist)
				c.done(g, op.kind, l.h)
			})
		case "wgadd":
			l := c.lock(op.n)
			out = append(out, func() {
				d, _ := c.j.constInt(op.val)
				l.n += d
				if l.n < 0 {
					op.crash = "negative WaitGroup counter"
				}
				l.vc = append(vclock(nil), l.vc...).join(g.vc)
				l.h += mix(g.hist, "wg")
				c.done(g, "wgadd", d)
			})
		case "wgwait":
			l := c.lock(op.n)
			if l.n == 0 {
				out = append(out, func() {
					g.vc = g.vc.join(l.vc)
					c.done(g, "wgwait", l.h)
				})
			}
		}
	}
	if len(out) == 0 {
		for _, g := range c.gs {
			g := g
			if !g.done && g.op != nil && g.op.kind == "settle" {
				return []func(){func() {
					for _, o := range c.gs {
						if !o.done && o != g {
							g.op.n++
						}
						g.vc = g.vc.join(o.vc)
					}
					c.done(g, "settle", g.op.n)
				}}
			}
		}
	}
	return out
}

func (c *Conc) lock(a int64) *lockState {
	l := c.locks[a]
	if l == nil {
		l = &lockState{}
		c.locks[a] = l
	}
	return l
}

func (c *Conc) chanLen(j *Job, st *State, ch ChanC, what string) Value {
	if ch.id == 0 {
		return j.t.Int(0)
	}
	j.concOn()
	if what == "cap" {
		return j.t.Int(int64(c.chans[ch.id-1].cap))
	}
	return j.t.Int(c.yield(st, &chanOp{kind: "len", ch: ch.id}).n)
}

// access checks that conflicting accesses to a cell are ordered.
func (c *Conc) access(a int64, write bool) {
	g := c.cur
	if g == nil || c.raced {
		return
	}
	s := c.shadow[a]
	if s == nil {
		s = &shadowCell{wg: -1, reads: map[int]int{}}
		c.shadow[a] = s
	}
	bad := s.wg >= 0 && s.wg != g.id && g.vc.at(s.wg) < s.wc
	if write {
		for r, k := range s.reads {
			if r != g.id && g.vc.at(r) < k {
				bad = true
			}
		}
		s.wg, s.wc = g.id, g.vc.at(g.id)
		s.reads = map[int]int{}
	} else {
		s.reads[g.id] = g.vc.at(g.id)
	}
	if bad {
		c.raced = true
		c.j.obl = append(c.j.obl, &Obligation{label: "data race at " + c.j.where(), kind: "race", bad: c.pc})
	}
}

func (j *Job) recvOp(st *State, ch Value, commaOk bool) Value {
	c := j.concOn()
	op := c.yield(st, &chanOp{kind: "recv", ch: c.channel(ch)})
	if commaOk {
		return Tuple{op.res, j.t.Bool(op.ok)}
	}
	return op.res
}

func (j *Job) selectOp(fi *fnInfo, st *State, x *ssa.Select) Value {
	c := j.concOn()
	op := &chanOp{kind: "select", nb: !x.Blocking}
	for _, s := range x.States {
		sc := selCase{ch: c.channel(j.val(fi, st, s.Chan)), send: s.Send != nil}
		if sc.send {
			sc.val = j.val(fi, st, s.Send)
		}
		op.sel = append(op.sel, sc)
	}
	c.yield(st, op)
	out := Tuple{j.t.Int(int64(op.which)), j.t.Bool(op.ok)}
	for i, s := range x.States {
		if s.Send != nil {
			continue
		}
		var v Value
		if i == op.which {
			v = op.res
		} else {
			v = j.zero(elemOfChan(s.Chan.Type()))
		}
		out = append(out, v)
	}
	return out
}

func (j *Job) goStmt(fi *fnInfo, st *State, x *ssa.Go) {
	c := j.concOn()
	fnv, args := j.prepareCall(fi, st, &x.Call)
	if x.Call.IsInvoke() {
		ic, ok := fnv.(IfaceC)
		if !ok || ic.typ == nil {
			panic(unsupported("go statement on an interface"))
		}
		c.spawn(c.cur, j.eng.lookupMethod(ic.typ, x.Call.Method), append([]Value{ic.val}, args...), nil)
		return
	}
	f, ok := fnv.(FuncC)
	if !ok || f.fn == nil {
		panic(unsupported("go statement on an unknown function"))
	}
	c.spawn(c.cur, f.fn, args, f.bind)
}

// settle waits until nothing else can happen and returns the number of
// goroutines that have not ended.
func (j *Job) settle(st *State) Value {
	return j.t.Int(j.concOn().yield(st, &chanOp{kind: "settle"}).n)
}

// syncOp models the operations of package sync in concurrent harnesses.
func syncOp(kind string) intrinsic {
	return func(j *Job, st *State, fn *ssa.Function, a []Value) (Value, bool) {
		if j.conc == nil || j.conc.cur == nil {
			if kind == "wgadd" || kind == "wgdone" || kind == "wgwait" {
				panic(unsupported("sync.WaitGroup outside a _Conc harness"))
			}
			return Tuple{}, true
		}
		p, ok := a[0].(PtrC)
		if !ok || p.addr == 0 {
			panic(unsupported("lock behind a symbolic pointer"))
		}
		op := &chanOp{kind: kind, n: p.addr}
		switch kind {
		case "wgadd":
			op.val = a[1]
		case "wgdone":
			op.kind, op.val = "wgadd", j.t.Int(-1)
		}
		j.conc.yield(st, op)
		return Tuple{}, true
	}
}
