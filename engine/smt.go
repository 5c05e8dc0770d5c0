package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver is one SMT process. abstract=true: nonlinear products/quotients are
// uninterpreted functions plus sound linear lemmas (unsat is still a proof).
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	done     map[*Term]bool
	declared map[string]bool
	abstract bool
	st       *Store
	timeout  int
	queries  int
	elapsed  time.Duration
	lines    chan string
	dead     bool
	log      *os.File
	bin      []string
	hard     time.Duration
	fresh    bool // every query from scratch: the bit-blasting tactics are not incremental
}

func NewSolver(st *Store, abstract bool, bin []string, timeoutMs int) (*Solver, error) {
	s := &Solver{abstract: abstract, st: st, bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.done = map[*Term]bool{}
	s.declared = map[string]bool{}
	s.dead = false
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.lines = make(chan string, 1000)
	go func(r *bufio.Reader, ch chan string) {
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}(s.out, s.lines)
	if d := os.Getenv("SYMGO_SMTLOG"); d != "" && s.log == nil {
		s.log, _ = os.CreateTemp(d, "q*.smt2")
	}
	s.options()
	return nil
}

func (s *Solver) options() {
	if strings.Contains(s.bin[0], "cvc5") {
		s.send("(set-option :produce-models true)\n(set-logic ALL)\n")
	} else {
		s.send("(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 40)\n")
		if s.timeout > 0 {
			s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		}
	}
	if s.abstract {
		s.send("(declare-fun umul (Real Real) Real)\n(declare-fun udiv (Real Real) Real)\n(declare-fun imul (Int Int) Int)\n(declare-fun usqrt (Real) Real)\n")
	}
}

func onlyFP(a, b []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.sort != SFP && t.sort != SBool {
			return false
		}
		for _, x := range t.args {
			if !f(x) {
				return false
			}
		}
		return true
	}
	for _, t := range append(append([]*Term{}, a...), b...) {
		if !f(t) {
			return false
		}
	}
	return true
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
	if s.log != nil {
		s.log.Close()
	}
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func smtRat(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var x string
	if real {
		if a.IsInt() {
			x = a.Num().String() + ".0"
		} else {
			x = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		x = a.Num().String()
	}
	if neg {
		return "(- " + x + ")"
	}
	return x
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return t.name
		}
		return smtRat(t.c, t.sort == SReal)
	case OVar:
		return "|" + t.name + "|"
	case OFPConst:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.bits)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SReal:
		return "Real"
	}
	return "(_ FloatingPoint 11 53)"
}

// emit defines t and its dependencies (iteratively, post-order).
func (s *Solver) emit(root *Term) {
	if s.done[root] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{root, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if s.done[f.t] {
			stack = stack[:len(stack)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !s.done[a] {
				stack = append(stack, fr{a, 0})
			}
			continue
		}
		s.define(f.t)
		s.done[f.t] = true
		stack = stack[:len(stack)-1]
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.op == OFPConst {
		return
	}
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const %s %s)\n", t.ref(), sortName(t.sort)))
		if t.sort == SInt {
			if t.lo != nil {
				s.send(fmt.Sprintf("(assert (<= %s %s))\n", smtRat(new(big.Rat).SetInt(t.lo), false), t.ref()))
			}
			if t.hi != nil {
				s.send(fmt.Sprintf("(assert (>= %s %s))\n", smtRat(new(big.Rat).SetInt(t.hi), false), t.ref()))
			}
		}
		return
	}
	var sb strings.Builder
	n := func(op string, args ...string) {
		sb.WriteString("(" + op)
		for _, a := range args {
			sb.WriteString(" " + a)
		}
		sb.WriteString(")")
	}
	refs := make([]string, len(t.args))
	for i, a := range t.args {
		refs[i] = a.ref()
	}
	lemma := ""
	real := t.sort == SReal
	switch t.op {
	case ONot:
		n("not", refs...)
	case OAnd:
		n("and", refs...)
	case OOr:
		n("or", refs...)
	case OIff:
		n("=", refs...)
	case OLt0, OLe0, OEq0:
		z := "0"
		if t.args[0].sort == SReal {
			z = "0.0"
		}
		n(map[Op]string{OLt0: "<", OLe0: "<=", OEq0: "="}[t.op], refs[0], z)
	case OSum:
		sb.WriteString("(+")
		if t.c.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + smtRat(t.c, real))
		}
		for i := range t.args {
			if t.cf[i].Cmp(ratOne) == 0 {
				sb.WriteString(" " + refs[i])
			} else {
				sb.WriteString(" (* " + smtRat(t.cf[i], real) + " " + refs[i] + ")")
			}
		}
		sb.WriteString(")")
	case OMul:
		if s.abstract {
			f := "umul"
			z := "0.0"
			if !real {
				f = "imul"
				z = "0"
			}
			acc := refs[len(refs)-1]
			for i := len(refs) - 2; i >= 0; i-- {
				m := fmt.Sprintf("(%s %s %s)", f, refs[i], acc)
				lemma += fmt.Sprintf("(assert (let ((a %s) (b %s) (m %s)) (and (= (= m %s) (or (= a %s) (= b %s))) (= (> m %s) (or (and (> a %s) (> b %s)) (and (< a %s) (< b %s)))))))\n", refs[i], acc, m, z, z, z, z, z, z, z, z)
				acc = m
			}
			sb.WriteString(acc)
		} else {
			n("*", refs...)
		}
	case ODiv:
		if s.abstract {
			n("udiv", refs...)
			lemma = fmt.Sprintf("(assert (let ((n %s) (d %s) (q %s)) (and (=> (> d 0.0) (and (= (> q 0.0) (> n 0.0)) (= (= q 0.0) (= n 0.0)) (= (> q 1.0) (> n d)) (= (= q 1.0) (= n d)) (= (< q (- 1.0)) (< n (- d))) (= (= q (- 1.0)) (= n (- d))))) (=> (< d 0.0) (and (= (> q 0.0) (< n 0.0)) (= (= q 0.0) (= n 0.0)) (= (> q 1.0) (< n d)) (= (= q 1.0) (= n d)) (= (< q (- 1.0)) (> n (- d))) (= (= q (- 1.0)) (= n (- d))))))))\n", refs[0], refs[1], t.ref())
		} else {
			n("/", refs...)
		}
	case OIte:
		n("ite", refs...)
	case OIDiv:
		n("div", refs[0], t.c.Num().String())
	case OIMod:
		n("mod", refs[0], t.c.Num().String())
	case OToReal:
		n("to_real", refs...)
	case OFloor:
		s.send(fmt.Sprintf("(declare-const %[1]s Int)\n(assert (and (<= (to_real %[1]s) %[2]s) (< %[2]s (+ (to_real %[1]s) 1.0))))\n", t.ref(), refs[0]))
		return
	case OSqrt:
		if s.abstract {
			n("usqrt", refs...)
			lemma = fmt.Sprintf("(assert (let ((v %s) (r %s)) (=> (>= v 0.0) (and (>= r 0.0) (= (= r 0.0) (= v 0.0)) (= (> r 1.0) (> v 1.0))))))\n", refs[0], t.ref())
		} else {
			s.send(fmt.Sprintf("(declare-const %s Real)\n(assert (=> (>= %s 0.0) (and (>= %s 0.0) (= (* %s %s) %s))))\n", t.ref(), refs[0], t.ref(), t.ref(), t.ref(), refs[0]))
			return
		}
	case OMax:
		s.send(fmt.Sprintf("(declare-const %s Real)\n", t.ref()))
		eqs := ""
		for _, r := range refs {
			s.send(fmt.Sprintf("(assert (>= %s %s))\n", t.ref(), r))
			eqs += fmt.Sprintf(" (= %s %s)", t.ref(), r)
		}
		s.send("(assert (or" + eqs + "))\n")
		return
	case OUF:
		key := fmt.Sprintf("uf_%s_%d", t.name, len(t.args))
		if !s.declared[key] {
			s.declared[key] = true
			s.send("(declare-fun " + key + " (" + strings.Repeat("Real ", len(t.args)) + ") Real)\n")
		}
		n(key, refs...)
		x, r := refs[0], t.ref()
		switch t.name {
		case "atan":
			lemma = fmt.Sprintf("(assert (and (= (> %[2]s 0.0) (> %[1]s 0.0)) (= (= %[2]s 0.0) (= %[1]s 0.0)) (< %[2]s 1.5707963267948967) (> %[2]s (- 1.5707963267948967)) (=> (> %[1]s 0.0) (<= %[2]s %[1]s)) (=> (< %[1]s 0.0) (>= %[2]s %[1]s))))\n", x, r)
		case "log", "log10":
			lemma = fmt.Sprintf("(assert (=> (> %[1]s 0.0) (and (= (> %[2]s 0.0) (> %[1]s 1.0)) (= (= %[2]s 0.0) (= %[1]s 1.0)))))\n", x, r)
		case "exp":
			lemma = fmt.Sprintf("(assert (and (> %[2]s 0.0) (= (> %[2]s 1.0) (> %[1]s 0.0)) (= (= %[2]s 1.0) (= %[1]s 0.0))))\n", x, r)
		}
	case OFPOp:
		n(t.name, refs...)
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.sort), sb.String()))
	if lemma != "" {
		s.send(lemma)
	}
}

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Check asks whether the conjunction is satisfiable; if vars != nil and sat, returns the model.
func (s *Solver) Check(vars []*Term, conj ...*Term) (Res, map[string]string) {
	if s.dead {
		s.restart()
	}
	t0 := time.Now()
	defer func() { s.elapsed += time.Since(t0); s.queries++ }()
	if s.fresh {
		s.send("(reset)\n")
		s.done, s.declared = map[*Term]bool{}, map[string]bool{}
		s.options()
		if onlyFP(conj, vars) {
			s.send("(set-logic QF_FP)\n")
		}
	}
	for _, c := range conj {
		s.emit(c)
	}
	for _, v := range vars {
		s.emit(v)
	}
	if !s.fresh {
		s.send("(push 1)\n")
	}
	for _, c := range conj {
		s.send("(assert " + c.ref() + ")\n")
	}
	s.send("(check-sat)\n(echo \"--\")\n")
	s.w.Flush()
	res := Unknown
	hard := s.hard
	if hard == 0 {
		hard = time.Duration(s.timeout)*time.Millisecond*2 + 2*time.Second
	}
	timer := time.NewTimer(hard)
	defer timer.Stop()
	read := func() (string, bool) {
		select {
		case l, ok := <-s.lines:
			return l, ok
		case <-timer.C:
			return "", false
		}
	}
	bad := false
	for {
		l, ok := read()
		if !ok {
			s.kill()
			return Unknown, nil
		}
		l = strings.Trim(l, "\"")
		if l == "--" {
			break
		}
		switch {
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		case strings.HasPrefix(l, "(error"):
			bad = true
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
		}
	}
	if bad {
		res = Unknown
	}
	var model map[string]string
	if res == Sat && len(vars) == 0 {
		model = map[string]string{}
	}
	if res == Sat && len(vars) > 0 {
		model = map[string]string{}
		if len(vars) > 0 {
			s.send("(get-value (")
			for _, v := range vars {
				s.send(v.ref() + " ")
			}
			s.send("))\n(echo \"--\")\n")
			s.w.Flush()
			var sb strings.Builder
			for {
				l, ok := read()
				if !ok {
					s.kill()
					return res, nil
				}
				if strings.Trim(l, "\"") == "--" {
					break
				}
				sb.WriteString(l + "\n")
			}
			parseModel(sb.String(), model)
		}
	}
	if !s.fresh {
		s.send("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) kill() {
	s.dead = true
	s.in.Close()
	s.cmd.Process.Kill()
	go func(ch chan string) {
		for range ch {
		}
	}(s.lines)
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.start()
}

// ---------- s-expressions ----------

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) []*sx {
	var stack [][]*sx
	cur := []*sx{}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(':
			stack = append(stack, cur)
			cur = []*sx{}
			i++
		case c == ')':
			if len(stack) == 0 {
				return cur
			}
			n := &sx{list: cur}
			if n.list == nil {
				n.list = []*sx{}
			}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case c == '|':
			k := strings.IndexByte(s[i+1:], '|')
			if k < 0 {
				return cur
			}
			cur = append(cur, &sx{atom: s[i+1 : i+1+k]})
			i += k + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			k := i
			for k < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[k])) {
				k++
			}
			cur = append(cur, &sx{atom: s[i:k]})
			i = k
		}
	}
	return cur
}

func parseModel(out string, m map[string]string) {
	for _, e := range parseSx(out) {
		for _, p := range e.list {
			if len(p.list) == 2 {
				m[p.list[0].atom] = sxString(p.list[1])
			}
		}
	}
}

func sxString(e *sx) string {
	if e.list == nil {
		return e.atom
	}
	var p []string
	for _, x := range e.list {
		p = append(p, sxString(x))
	}
	return "(" + strings.Join(p, " ") + ")"
}

// parseNum turns a solver numeral into a rational; ok=false if not numeric.
func parseNum(s string) (*big.Rat, bool) {
	e := parseSx(s)
	if len(e) == 0 {
		return nil, false
	}
	return sxNum(e[0])
}

func sxNum(e *sx) (*big.Rat, bool) {
	if e.list == nil {
		a := strings.TrimSuffix(e.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		return r, ok
	}
	if len(e.list) == 0 {
		return nil, false
	}
	switch e.list[0].atom {
	case "-":
		if len(e.list) == 2 {
			r, ok := sxNum(e.list[1])
			if !ok {
				return nil, false
			}
			return new(big.Rat).Neg(r), true
		}
	case "/":
		a, ok := sxNum(e.list[1])
		b, ok2 := sxNum(e.list[2])
		if ok && ok2 && b.Sign() != 0 {
			return new(big.Rat).Quo(a, b), true
		}
	}
	return nil, false
}
