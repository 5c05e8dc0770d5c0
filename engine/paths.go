package main

import (
	"golang.org/x/tools/go/ssa"
)

// Path mode: the harness is executed once per feasible path (depth-first over
// recorded branch decisions) instead of merging states. Used where merged
// heaps would grow too large and for concurrent code, where scheduling choices
// are decisions as well.

type pathCtl struct {
	prefix []int
	taken  []int
	work   [][]int
	paths  int
	pruned int
	conc   *Conc
}

// decide takes the next decision; alternatives that are possible are queued.
func (p *pathCtl) decide(n int, possible func(int) bool) (pick int) {
	if p.conc != nil && p.conc.cur != nil {
		g := p.conc.cur
		defer func() { g.hist = mix(g.hist, "branch", pick) }()
	}
	if k := len(p.taken); k < len(p.prefix) {
		p.taken = append(p.taken, p.prefix[k])
		return p.prefix[k]
	}
	first := -1
	for k := 0; k < n; k++ {
		if first >= 0 || k < n-1 {
			if !possible(k) {
				continue
			}
		}
		if first < 0 {
			first = k
		} else {
			p.work = append(p.work, append(append([]int(nil), p.taken...), k))
		}
	}
	p.taken = append(p.taken, first)
	return first
}

func (j *Job) runPaths(fn *ssa.Function, heap *Heap, res *JobResult) (*Term, bool) {
	p := &pathCtl{work: [][]int{nil}}
	j.path = p
	if isConc(fn) {
		p.conc = &Conc{visited: map[uint64]bool{}}
	}
	var wit *Term
	var keep []Observation
	addr, id := j.nextAddr, j.nextID
	start := len(j.obl)
	var ranges [][2]int
	var names []string
	defer func() { j.ranges, j.chNames = ranges, names }()
	for len(p.work) > 0 {
		j.checkDeadline()
		p.prefix = p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		p.taken = nil
		j.ranges, j.chNames, j.obs = nil, nil, nil
		j.nextAddr, j.nextID = addr, id
		j.callStk, j.depth = nil, 0
		from := len(j.obl)
		h := heap.Fork()
		var pc *Term
		var ok bool
		if p.conc != nil {
			var again bool
			if pc, ok, again = j.trySchedule(fn, h); again {
				p.conc.all = true
				p.work = [][]int{nil}
				p.paths, wit, keep = 0, nil, nil
				j.obl = j.obl[:start]
				continue
			}
		} else {
			_, pc, _, ok = j.runFunc(fn, nil, nil, h, j.t.True)
		}
		if len(j.ranges) > len(ranges) {
			ranges, names = j.ranges, j.chNames
		}
		p.paths++
		if ok && wit == nil {
			wit, keep = pc, j.obs
		}
		j.batch(from)
	}
	j.obs = keep
	if wit == nil {
		return j.t.False, false
	}
	return wit, true
}

// batch decides the obligations of one path with one query.
func (j *Job) batch(from int) {
	var bads []*Term
	for _, o := range j.obl[from:] {
		if !o.bad.isFalse() {
			bads = append(bads, o.bad)
		}
	}
	how := "simplifier, on one path"
	if len(bads) > 0 {
		r := Unknown
		if len(bads) == 1 && !j.fp {
			r = j.quick(bads[0])
		}
		if r != Unsat {
			r, _ = j.feas.Check(nil, j.t.Or(bads...))
		}
		if r != Unsat {
			return
		}
		how = "linear+UF abstraction, all obligations of one path in one query"
	}
	for _, o := range j.obl[from:] {
		o.status, o.how = "proved", how
	}
}
