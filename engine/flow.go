package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Per-function static information: register numbers, weak topological order,
// loop nests and liveness.

type fnInfo struct {
	fn     *ssa.Function
	reg    map[ssa.Value]int
	nreg   int
	order  []int               // block index -> wto position
	loops  [][]*ssa.BasicBlock // block index -> enclosing loop heads, outermost first
	livein []bitset            // block index -> live registers at block entry (incl. phis)
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << (uint(i) & 63) }

var fnInfos sync.Map
var fnMu sync.Mutex

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.wto()
	fi.liveness()
	fnInfos.Store(fn, fi)
	return fi
}

// Bourdoncle's weak topological ordering.
func (fi *fnInfo) wto() {
	n := len(fi.fn.Blocks)
	fi.order = make([]int, n)
	fi.loops = make([][]*ssa.BasicBlock, n)
	dfn := make([]int, n)
	num := 0
	var stack []*ssa.BasicBlock
	type elem struct {
		b    *ssa.BasicBlock
		comp []*elem // nil if vertex only
		head bool
	}
	const inf = 1 << 30
	var visit func(v *ssa.BasicBlock, part *[]*elem) int
	component := func(v *ssa.BasicBlock) []*elem {
		var part []*elem
		for _, s := range v.Succs {
			if dfn[s.Index] == 0 {
				visit(s, &part)
			}
		}
		return part
	}
	visit = func(v *ssa.BasicBlock, part *[]*elem) int {
		stack = append(stack, v)
		num++
		dfn[v.Index] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v.Index] {
			dfn[v.Index] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e.Index] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				c := component(v)
				*part = append([]*elem{{b: v, comp: c, head: true}}, *part...)
			} else {
				*part = append([]*elem{{b: v}}, *part...)
			}
		}
		return head
	}
	var top []*elem
	visit(fi.fn.Blocks[0], &top)
	pos := 0
	var walk func(es []*elem, loops []*ssa.BasicBlock)
	walk = func(es []*elem, loops []*ssa.BasicBlock) {
		for _, e := range es {
			l := loops
			if e.head {
				l = append(append([]*ssa.BasicBlock{}, loops...), e.b)
			}
			fi.order[e.b.Index] = pos
			pos++
			fi.loops[e.b.Index] = l
			if e.head {
				walk(e.comp, l)
			}
		}
	}
	walk(top, nil)
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	w := (fi.nreg + 63) / 64
	fi.livein = make([]bitset, n)
	for i := range fi.livein {
		fi.livein[i] = make(bitset, w)
	}
	var ops [20]*ssa.Value
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			live := make(bitset, w)
			for _, s := range b.Succs {
				sl := fi.livein[s.Index]
				for k := range live {
					live[k] |= sl[k]
				}
			}
			// remove phis of successors defined there, add their operands
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// phi registers are assigned on the edge
					live.clr(fi.reg[ph])
				}
			}
			for _, s := range b.Succs {
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if r, ok := fi.reg[ph.Edges[pi]]; ok {
								live.set(r)
							}
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					live.clr(fi.reg[v])
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if r, ok := fi.reg[*o]; ok {
						live.set(r)
					}
				}
			}
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					live.set(fi.reg[ph])
				}
			}
			old := fi.livein[bi]
			for k := range live {
				if live[k]|old[k] != old[k] {
					changed = true
				}
				old[k] |= live[k]
			}
		}
	}
}

// cells returns the number of heap cells of a type.
var cellCache sync.Map

func cells(t types.Type) int {
	if v, ok := cellCache.Load(t); ok {
		return v.(int)
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += cells(u.Field(i).Type())
		}
		if n == 0 {
			n = 1
		}
	case *types.Array:
		n = int(u.Len()) * cells(u.Elem())
		if n == 0 {
			n = 1
		}
	}
	cellCache.Store(t, n)
	return n
}

func fieldOff(st *types.Struct, idx int) int {
	o := 0
	for i := 0; i < idx; i++ {
		o += cells(st.Field(i).Type())
	}
	return o
}
