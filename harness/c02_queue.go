package zzverif

import (
	"github.com/idoall/stockindicator/container/queue"
	"github.com/idoall/stockindicator/zzverif/sym"
)

// C02_FIFO: every sequence of enqueue/dequeue/empty operations of the given
// length behaves like a first-in-first-out list; values come back unchanged.
func C02_FIFO() {
	steps := sym.Tier(7, 9)
	q := queue.New()
	var ref []int64
	for k := 0; k < steps; k++ {
		sym.Assert(q.Empty() == (len(ref) == 0), "Empty exactly when nothing is held")
		op := sym.Range("op", 0, 1)
		if op == 0 {
			x := sym.Int("x", k, -1<<63, 1<<63-1)
			q.Enqueue(x)
			ref = append(ref, x)
		} else if len(ref) > 0 {
			v, ok := q.Dequeue().(int64)
			sym.Assert(ok, "a dequeued value keeps its type")
			sym.Assert(v == ref[0], "values leave in arrival order")
			ref = ref[1:]
		}
	}
	for len(ref) > 0 {
		v, ok := q.Dequeue().(int64)
		sym.Assert(ok, "a dequeued value keeps its type")
		sym.Assert(v == ref[0], "values leave in arrival order")
		ref = ref[1:]
	}
	sym.Assert(q.Empty(), "empty after draining")
}

// C02_Symbolic: the operations themselves are symbolic too.
func C02_Symbolic() {
	steps := sym.Tier(5, 7)
	q := queue.New()
	ref := make([]float64, steps)
	head, tail := 0, 0
	for k := 0; k < steps; k++ {
		x := sym.Float("x", k)
		if sym.Bool("push", k) {
			q.Enqueue(x)
			for i := 0; i < steps; i++ {
				if i == tail {
					ref[i] = x
				}
			}
			tail++
		} else if head < tail {
			v, ok := q.Dequeue().(float64)
			sym.Assert(ok, "a dequeued value keeps its type")
			sym.Assert(v == ref[head], "values leave in arrival order")
			head++
		}
		sym.Assert(q.Empty() == (head == tail), "Empty exactly when nothing is held")
	}
}

// C02_Underflow: dequeuing an empty queue panics, and only then.
func C02_Underflow() {
	n := sym.Range("n", 0, 3)
	q := queue.New()
	for i := 0; i < n; i++ {
		q.Enqueue(sym.Float("x", i))
	}
	for i := 0; i < n; i++ {
		q.Dequeue()
	}
	sym.Assert(sym.Panics(func() { q.Dequeue() }), "dequeuing an empty queue panics")
}

// C02_Kinds: values of any kind, nil and equal neighbours included, come back as they are.
func C02_Kinds() {
	n := sym.Tier(3, 4)
	q := queue.New()
	x := sym.Float("x", 0)
	kinds := []interface{}{nil, x, false, "", 0, error(nil)}
	var ref []interface{}
	for i := 0; i < n; i++ {
		v := kinds[sym.Range("kind", 0, len(kinds)-1)]
		q.Enqueue(v)
		ref = append(ref, v)
	}
	for i := 0; i < n; i++ {
		sym.Assert(!q.Empty(), "not empty while a value is held")
		got := q.Dequeue()
		switch w := ref[i].(type) {
		case nil:
			sym.Assert(got == nil, "nil comes back")
		case float64:
			f, ok := got.(float64)
			sym.Assert(ok && f == w, "a number comes back")
		case bool:
			f, ok := got.(bool)
			sym.Assert(ok && f == w, "a flag comes back")
		case string:
			f, ok := got.(string)
			sym.Assert(ok && f == w, "a text comes back")
		case int:
			f, ok := got.(int)
			sym.Assert(ok && f == w, "an int comes back")
		}
	}
	sym.Assert(q.Empty(), "empty after draining")
}

// C02_Deep: a long queue keeps its order.
func C02_Deep() {
	n := sym.Tier(70, 300)
	q := queue.New()
	v := ints("x", n)
	for i := 0; i < n; i++ {
		q.Enqueue(v[i])
	}
	for i := 0; i < n/2; i++ {
		g, ok := q.Dequeue().(int64)
		sym.Assert(ok && g == v[i], "values leave in arrival order")
	}
	for i := 0; i < n; i++ {
		q.Enqueue(v[i])
	}
	for i := n / 2; i < 2*n; i++ {
		g, ok := q.Dequeue().(int64)
		sym.Assert(ok && g == v[i%n], "values leave in arrival order")
	}
	sym.Assert(q.Empty(), "empty after draining")
}

func ints(name string, n int) []int64 {
	v := make([]int64, n)
	for i := 0; i < n; i++ {
		v[i] = sym.Int(name, i, -1<<63, 1<<63-1)
	}
	return v
}
