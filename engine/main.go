package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type JobResult struct {
	harness  string
	choices  []int
	names    []string
	err      string
	j        *Job
	obl      []*Obligation
	proved   int
	violated []*Obligation
	undec    []*Obligation
	byHow    map[string]int
	witness  string // "ok", "none", text
	tracesOK int
	traceBad string
	queries  int
	solver   time.Duration
	sample   map[string]interface{}
	wall     time.Duration
	replay   []string
	nconf    int
}

var (
	fProp    = flag.String("property", "", "property id")
	fTier    = flag.String("tier", "", "quick or thorough")
	fOnly    = flag.String("only", "", "regexp on harness names")
	fVerbose = flag.Bool("v", false, "verbose")
	fRepo    = flag.String("repo", "/repo", "")
	fVerif   = flag.String("verif", "/verif", "")
	fWorkers = flag.Int("workers", 8, "")
	fBudget  = flag.Int("budget", 0, "seconds for the whole check")
	fZ3      = flag.String("z3", "z3-new", "solver binary")
	fChoice  = flag.String("choices", "", "run only this configuration, e.g. 3,2")
)

type KnownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`   // regexp on the obligation label
	Choices  string `json:"choices"` // regexp on the configuration
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func main() {
	debug.SetGCPercent(200)
	flag.Parse()
	// the repository's toolchain, also for the standard library's source
	os.Setenv("PATH", "/usr/lib/go-1.22/bin:/usr/local/bin:"+os.Getenv("PATH"))
	os.Unsetenv("GOROOT")
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier == "" {
		*fTier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	e := &Engine{repo: *fRepo, verif: *fVerif, tier: *fTier, seed: seed, verbose: *fVerbose, z3: []string{*fZ3, "-in"}}
	os.Exit(e.check(*fProp))
}

type replayer struct {
	bin   string
	err   error
	ready chan struct{}
	dir   string
	mu    sync.Mutex
	n     int
	race  string
	build func(bin string, flags ...string) error
}

// startReplayer compiles the harness natively against the repository's working tree.
func (e *Engine) startReplayer(names []string) *replayer {
	r := &replayer{ready: make(chan struct{})}
	dir, err := os.MkdirTemp("", "symgo")
	if err != nil {
		r.err = err
		close(r.ready)
		return r
	}
	r.dir = dir
	go func() {
		defer close(r.ready)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\n\t\"" + modPath + "/zzverif\"\n\t\"" + modPath + "/zzverif/sym\"\n)\n\nvar table = map[string]func(){\n")
		for _, n := range names {
			sb.WriteString(fmt.Sprintf("\t%q: zzverif.%s,\n", n, n))
		}
		sb.WriteString("}\n\nfunc main() {\n\tin := sym.Load(os.Args[1])\n\tsym.Run(table[in.Harness])\n\tb, _ := json.Marshal(&sym.Out)\n\tos.Stdout.Write(append([]byte(\"\\nREPORT \"), append(b, '\\n')...))\n}\n")
		mainf := filepath.Join(dir, "main.go")
		if r.err = os.WriteFile(mainf, []byte(sb.String()), 0o644); r.err != nil {
			return
		}
		ov := map[string]map[string]string{"Replace": {}}
		for k, v := range e.overlay {
			ov["Replace"][k] = v
		}
		ov["Replace"][filepath.Join(e.repo, "zzverif/replay/main.go")] = mainf
		b, _ := json.Marshal(ov)
		ovf := filepath.Join(dir, "overlay.json")
		if r.err = os.WriteFile(ovf, b, 0o644); r.err != nil {
			return
		}
		r.bin = filepath.Join(dir, "replay")
		r.build = func(bin string, flags ...string) error {
			cmd := exec.Command("/usr/lib/go-1.22/bin/go", append(append([]string{"build"}, flags...), "-overlay", ovf, "-o", bin, "./zzverif/replay")...)
			cmd.Dir = e.repo
			cmd.Env = append(goEnv(), "CGO_ENABLED=1", "GOCACHE=/root/.cache/go-build") // as /opt/vp/env.sh, to share its build cache
			if out, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("native build of the harness failed: %v\n%s", err, out)
			}
			return nil
		}
		r.err = r.build(r.bin)
	}()
	return r
}

type Report struct {
	Failed  []string          `json:"failed"`
	Assume  bool              `json:"assume_failed"`
	Panic   string            `json:"panic"`
	Done    bool              `json:"done"`
	Observe map[string]string `json:"observe"`
	Details map[string]string `json:"details"`
}

type ReplayInput struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Choices []int             `json:"choices"`
	Vals    map[string]string `json:"vals"`
	Decimal map[string]string `json:"decimal,omitempty"`
	Label   string            `json:"label,omitempty"`
	Result  *Report           `json:"native_result,omitempty"`
}

func (r *replayer) run(in *ReplayInput) (*Report, error) {
	<-r.ready
	if r.err != nil {
		return nil, r.err
	}
	r.mu.Lock()
	r.n++
	f := filepath.Join(r.dir, fmt.Sprintf("in%d.json", r.n))
	r.mu.Unlock()
	b, _ := json.Marshal(in)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	bin := r.bin
	if strings.HasPrefix(in.Label, "data race") {
		r.mu.Lock()
		if r.race == "" {
			r.race = r.bin + ".race"
			if err := r.build(r.race, "-race"); err != nil {
				r.race, r.err = "", err
			}
		}
		bin = r.race
		r.mu.Unlock()
		if r.err != nil {
			return nil, r.err
		}
	}
	cmd := exec.Command("timeout", "-k", "2", "20", bin, f)
	cmd.Env = append(os.Environ(), "TZ=UTC", "GORACE=halt_on_error=1")
	out, err := cmd.CombinedOutput()
	i := strings.LastIndex(string(out), "\nREPORT ")
	if i < 0 {
		msg := string(out)
		if k := strings.Index(msg, "\n\n"); k > 0 {
			msg = msg[:k]
		}
		if k := strings.Index(msg, "WARNING: DATA RACE"); k >= 0 {
			msg = msg[k:]
		}
		if len(msg) > 300 {
			msg = msg[:300]
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 124 {
			msg = "native run did not terminate within 20 s"
		}
		return &Report{Panic: "process died: " + msg}, nil
	}
	rep := &Report{}
	if err := json.Unmarshal(out[i+8:], rep); err != nil {
		return nil, err
	}
	return rep, nil
}

func (e *Engine) check(prop string) int {
	start := time.Now()
	budget := *fBudget
	if budget == 0 {
		budget = 600
		if e.tier == "thorough" {
			budget = 3000
		}
	}
	deadline := start.Add(time.Duration(budget) * time.Second)
	if err := e.load(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if err := e.loadKnown(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	hs := e.harnesses(prop)
	if *fOnly != "" {
		re := regexp.MustCompile(*fOnly)
		var k []*ssa.Function
		for _, h := range hs {
			if re.MatchString(h.Name()) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	var names []string
	for _, h := range hs {
		names = append(names, h.Name())
	}
	rp := e.startReplayer(names)
	defer func() {
		if rp.dir != "" {
			os.RemoveAll(rp.dir)
		}
	}()

	// work queue over (harness, choices)
	type task struct {
		h       *ssa.Function
		choices []int
	}
	var mu sync.Mutex
	var queue []task
	for _, h := range hs {
		if *fChoice != "" {
			var c []int
			for _, x := range strings.Split(*fChoice, ",") {
				var v int
				fmt.Sscan(x, &v)
				c = append(c, v)
			}
			queue = append(queue, task{h, c})
		} else {
			queue = append(queue, task{h, nil})
		}
	}
	pending := len(queue)
	cond := sync.NewCond(&mu)
	var results []*JobResult
	stopAll := false
	nviol := 0
	nw := *fWorkers
	if nw > runtime.NumCPU() {
		nw = runtime.NumCPU()
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && pending > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					return
				}
				tk := queue[0]
				queue = queue[1:]
				stop := stopAll
				mu.Unlock()
				var r *JobResult
				if stop {
					r = &JobResult{harness: tk.h.Name(), choices: tk.choices, err: "skipped after a violation", byHow: map[string]int{}}
				} else if time.Now().After(deadline) {
					r = &JobResult{harness: tk.h.Name(), choices: tk.choices, err: "check time budget exhausted", byHow: map[string]int{}}
				} else {
					enq := func(c []int) {
						if *fChoice != "" {
							return
						}
						mu.Lock()
						queue = append(queue, task{tk.h, c})
						pending++
						cond.Broadcast()
						mu.Unlock()
					}
					r = e.runJob(tk.h, tk.choices, rp, deadline, enq)
				}
				mu.Lock()
				results = append(results, r)
				nviol += e.fresh(prop, r)
				if nviol >= 6 {
					stopAll = true
				}
				pending--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return e.report(prop, results, start)
}

func choiceStr(r *JobResult) string {
	var p []string
	for i, c := range r.choices {
		n := fmt.Sprint(i)
		if i < len(r.names) {
			n = r.names[i]
		}
		p = append(p, fmt.Sprintf("%s=%d", n, c))
	}
	return strings.Join(p, ",")
}

func (e *Engine) newJob(h *ssa.Function, choices []int, deadline time.Time) *Job {
	st := NewStore()
	j := &Job{eng: e, t: st, choices: append([]int(nil), choices...), nextAddr: 16, globals: map[*ssa.Global]int64{},
		feasMemo: map[*Term]Res{}, funcs: map[*ssa.Function]bool{}, notes: map[string]bool{}, intrin: map[string]bool{}, deadline: deadline}
	j.fp = strings.HasSuffix(strings.TrimSuffix(h.Name(), "_Paths"), "_FP")
	return j
}

func (j *Job) initPackages() *Heap {
	h := NewHeap()
	for _, p := range j.eng.initOrder {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				a := j.alloc(cells(et))
				j.globals[g] = a
				func() {
					defer func() { recover() }()
					j.storeAt(h, a, j.zero(et))
				}()
			}
		}
	}
	for _, p := range j.eng.initOrder {
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		func() {
			bak := h.Fork()
			d := j.depth
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsup); ok {
						h = bak
						j.depth = d
						if strings.HasPrefix(p.Pkg.Path(), modPath) {
							j.note("package initialiser not executed: " + p.Pkg.Path() + ": " + u.msg)
						}
						return
					}
					panic(r)
				}
			}()
			j.depth = 0
			h2, _, _, ok := j.initFunc(f, h)
			if ok {
				h = h2
			} else {
				h = bak
			}
		}()
	}
	j.funcs = map[*ssa.Function]bool{}
	j.obl = nil
	j.notes = map[string]bool{}
	j.steps, j.forks, j.merges = 0, 0, 0
	return h
}

func (j *Job) initFunc(f *ssa.Function, h *Heap) (*Heap, *Term, Value, bool) {
	return j.runFunc(f, nil, nil, h, j.t.True)
}

func (e *Engine) runJob(h *ssa.Function, choices []int, rp *replayer, deadline time.Time, enq func([]int)) (res *JobResult) {
	t0 := time.Now()
	res = &JobResult{harness: h.Name(), byHow: map[string]int{}}
	perJob := 150 * time.Second
	if e.tier == "thorough" {
		perJob = 900 * time.Second
	}
	dl := t0.Add(perJob)
	if deadline.Before(dl) {
		dl = deadline
	}
	j := e.newJob(h, choices, dl)
	res.j = j
	var err error
	feasMs := 3000
	if j.fp {
		feasMs = 400 // unknown counts as feasible
	}
	j.feas, err = NewSolver(j.t, !j.fp, e.z3, feasMs)
	if err != nil {
		res.err = err.Error()
		return
	}
	j.feas.fresh = j.fp
	defer j.feas.Close()
	enqueued := false
	siblings := func() {
		if enqueued {
			return
		}
		enqueued = true
		for i := len(choices); i < len(j.ranges); i++ {
			for v := j.ranges[i][0] + 1; v <= j.ranges[i][1]; v++ {
				enq(append(append([]int(nil), j.choices[:i]...), v))
			}
		}
	}
	defer func() {
		res.wall = time.Since(t0)
		res.choices = j.choices
		res.names = j.chNames
		if j.feas != nil {
			res.queries += j.feas.queries
			res.solver += j.feas.elapsed
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				res.err = "outside the encoder: " + x.msg + " at " + j.where() + " in " + strings.Join(tail(j.callStk, 3), " > ")
			case stopJob:
				res.err = x.msg
			case nil:
			default:
				res.err = fmt.Sprintf("engine error: %v at %s", r, j.where())
				if e.verbose {
					debug.PrintStack()
				}
			}
		}
		siblings()
	}()
	heap := j.initPackages()
	pc := j.execHarness(h, heap, res)
	siblings()
	if e.verbose {
		fmt.Printf("  %s %v executed in %.1fs: %d steps %d forks %d merges %d terms %d obligations %d feasibility queries\n", h.Name(), j.choices, time.Since(t0).Seconds(), j.steps, j.forks, j.merges, j.t.n, len(j.obl), j.feas.queries)
	}
	j.deadline = dl
	e.discharge(j, res, pc, rp)
	return
}

// execHarness runs the harness symbolically. Obligations collected before the
// encoder gives up are still decided.
func (j *Job) execHarness(h *ssa.Function, heap *Heap, res *JobResult) (pc *Term) {
	pc = j.t.False
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				res.err = "outside the encoder: " + x.msg + " at " + j.where() + " in " + strings.Join(tail(j.callStk, 3), " > ")
			case stopJob:
				res.err = x.msg
			default:
				res.err = fmt.Sprintf("engine error: %v at %s", r, j.where())
				if j.eng.verbose {
					debug.PrintStack()
				}
			}
			pc = j.t.False
		}
	}()
	j.deadline = time.Now().Add(time.Until(j.deadline) * 6 / 10)
	ok := false
	if strings.HasSuffix(h.Name(), "_Conc") || strings.HasSuffix(h.Name(), "_Paths") {
		pc, ok = j.runPaths(h, heap, res)
	} else {
		_, pc, _, ok = j.runFunc(h, nil, nil, heap, j.t.True)
	}
	if !ok {
		pc = j.t.False
	}
	return pc
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (j *Job) vals(model map[string]string) (map[string]float64, map[string]string, map[string]string, bool) {
	fv := map[string]float64{}
	sv := map[string]string{}
	dec := map[string]string{}
	for _, v := range j.inputs {
		s, ok := model[v.name]
		if !ok {
			fv[v.name] = 0
			continue
		}
		f, ok := modelFloat(s)
		if !ok {
			return nil, nil, nil, false
		}
		fv[v.name] = f
		switch v.sort {
		case SReal, SFP:
			sv[v.name] = fmt.Sprintf("%x", math.Float64bits(f))
			dec[v.name] = fmt.Sprint(f)
		case SInt:
			r, _ := parseNum(s)
			sv[v.name] = r.Num().String()
		case SBool:
			sv[v.name] = s
		}
	}
	return fv, sv, dec, true
}

// niceBounds restricts real inputs to a moderate range (model search only).
func (j *Job) niceBounds(lim int64) []*Term {
	var out []*Term
	for _, v := range j.inputs {
		if v.sort == SReal {
			l := j.t.Real(new(big.Rat).SetInt64(lim))
			out = append(out, j.t.Le(v, l), j.t.Le(j.t.Neg(l), v))
		}
	}
	return out
}

// dyadic forces real inputs onto a grid of multiples of 1/4.
func (j *Job) dyadic() []*Term {
	var out []*Term
	for i, v := range j.inputs {
		if v.sort == SReal {
			k := j.t.Var(SInt, fmt.Sprintf("grid!%d", i), big.NewInt(-4000), big.NewInt(4000))
			out = append(out, j.t.Eq(v, j.t.Scale(j.t.ToReal(k), big.NewRat(1, 4))))
		}
	}
	return out
}

func (e *Engine) discharge(j *Job, res *JobResult, pc *Term, rp *replayer) {
	res.obl = j.obl
	l1ms, l2ms := 20000, 30000
	if e.tier == "thorough" {
		l1ms, l2ms = 60000, 120000
	}
	s1, err := NewSolver(j.t, !j.fp, e.z3, l1ms)
	if err != nil {
		res.err = err.Error()
		return
	}
	s1.fresh = j.fp
	defer func() {
		res.queries += s1.queries
		res.solver += s1.elapsed
		s1.Close()
	}()
	var s2 *Solver
	exact := func() *Solver {
		if s2 == nil {
			if j.fp {
				l2ms = 1000
			}
			s2, _ = NewSolver(j.t, false, e.z3, l2ms)
			s2.fresh = j.fp
		}
		return s2
	}
	defer func() {
		if s2 != nil {
			res.queries += s2.queries
			res.solver += s2.elapsed
			s2.Close()
		}
	}()
	// vacuity guard and translator validation: a model of the end of the harness
	res.witness = "none"
	if !pc.isFalse() {
		e.witness(j, res, pc, s1, exact, rp)
	}
	seen := map[*Term]*Obligation{}
	fresh := 0
	res.choices, res.names = j.choices, j.chNames
	for _, o := range j.obl {
		if fresh >= 2 {
			o.status, o.how = "undecided", "not examined after two violations"
			res.undec = append(res.undec, o)
			continue
		}
		if o.status == "proved" {
			res.proved++
			res.byHow[o.how]++
			continue
		}
		if p, ok := seen[o.bad]; ok && p.status == "proved" {
			o.status, o.how = "proved", p.how
			res.proved++
			res.byHow["duplicate"]++
			continue
		}
		seen[o.bad] = o
		e.decide(j, res, o, s1, exact, rp)
		switch o.status {
		case "proved":
			res.proved++
			res.byHow[o.how]++
			if !strings.HasPrefix(o.how, "within") {
				j.lemmas = append(j.lemmas, j.t.Not(o.bad))
			}
		case "violated":
			res.violated = append(res.violated, o)
			fresh = e.fresh(*fProp, res)
		default:
			res.undec = append(res.undec, o)
			if e.verbose {
				fmt.Printf("    undecided %s: %s\n", o.label, o.how)
			}
		}
	}
}

func (e *Engine) decide(j *Job, res *JobResult, o *Obligation, s1 *Solver, exact func() *Solver, rp *replayer) {
	if time.Now().After(j.deadline) {
		o.status, o.how = "undecided", "time budget"
		return
	}
	name := "linear+UF abstraction"
	if j.fp {
		name = "IEEE-754 bit-precise"
	}
	var r Res
	var model map[string]string
	if j.fp {
		r, model = exact().Check(j.inputs, o.bad) // a short time first
	}
	if r == Unknown {
		if j.fp {
			// part of the inputs fixed, the solver decides the rest
			for round := 0; round < 14 && time.Now().Before(j.deadline); round++ {
				r, model = exact().Check(j.inputs, append(j.fpFixed(round, int64(e.seed)), o.bad)...)
				if r == Sat {
					break
				}
			}
		}
		if r != Sat {
			r, model = s1.Check(j.inputs, o.bad)
		}
	}
	if r == Unsat {
		o.status, o.how = "proved", name
		return
	}
	if n := len(j.lemmas); n > 0 && !j.fp {
		// what was proved before holds for every input and may be used
		if r2, _ := s1.Check(nil, append(append([]*Term{}, j.lemmas[max(0, n-24):]...), o.bad)...); r2 == Unsat {
			o.status, o.how = "proved", name+", with earlier obligations as lemmas"
			return
		}
	}
	tried := map[string]bool{}
	try := func(m map[string]string, how string) bool {
		if m == nil {
			return false
		}
		_, sv, dec, ok := j.vals(m)
		if !ok {
			return false
		}
		k := fmt.Sprint(sv)
		if tried[k] {
			return false
		}
		tried[k] = true
		if !j.fp {
			re := newRatEval(j, sv)
			if !re.holds(o.bad) {
				return false // rounding the model to float64 lost the violation
			}
		}
		in := &ReplayInput{Harness: res.harness, Tier: e.tier, Choices: j.choices, Vals: sv, Decimal: dec, Label: o.label}
		rep, err := rp.run(in)
		if err != nil {
			o.how = err.Error()
			return false
		}
		if e.verbose {
			fmt.Printf("    replay (%s) of %s: %+v %v\n", how, o.label, rep, dec)
		}
		if rep.Panic != "" || len(rep.Failed) > 0 {
			o.status, o.how = "violated", how
			in.Result = rep
			e.saveReplay(res, o, in)
			return true
		}
		return false
	}
	if j.fp {
		if r == Sat {
			if try(model, name) {
				return
			}
			o.status, o.how = "undecided", "model does not reproduce natively"
			return
		}
		o.status, o.how = "undecided", "solver returned unknown"
		return
	}
	target := o.bad
	if o.strong != nil {
		target = o.strong
	}
	// candidates from the abstraction, screened by evaluation
	if r == Sat {
		if _, m := s1.Check(j.inputs, append(j.niceBounds(1000), target)...); m != nil && try(m, name) {
			return
		}
		if m := model; m != nil && try(m, name) {
			return
		}
	}
	// case distinctions, each decided by the abstraction or as an identity of rational functions
	if nonlinear(o.bad, map[*Term]bool{}) {
		lim := 20 * time.Second
		if e.tier == "thorough" {
			lim = 120 * time.Second
		}
		xs, err := NewSolver(j.t, false, e.z3, 3000)
		if err == nil {
			p := &splitter{j: j, s1: s1, exact: xs, deadline: time.Now().Add(lim)}
			ok := p.prove(o.bad, nil)
			res.queries += xs.queries
			res.solver += xs.elapsed
			xs.Close()
			if ok {
				o.status, o.how = "proved", "case distinctions, each by linear abstraction, rational identity or nonlinear real arithmetic"
				return
			}
			if try(p.hit, "nonlinear real arithmetic") {
				return
			}
		}
	}
	// exact nonlinear decision
	s := exact()
	r2, m2 := s.Check(j.inputs, o.bad)
	if r2 == Unsat {
		o.status, o.how = "proved", "nonlinear real arithmetic"
		return
	}
	nl := "nonlinear real arithmetic"
	if _, m := s.Check(j.inputs, append(j.niceBounds(1000), target)...); try(m, nl) {
		return
	}
	if _, m := s.Check(j.inputs, append(append(j.niceBounds(1000), j.dyadic()...), target)...); try(m, nl) {
		return
	}
	if try(m2, nl) {
		return
	}
	// partially concretised inputs: the rest is still solved symbolically
	rng := rand.New(rand.NewSource(int64(e.seed)))
	for round := 0; round < 12; round++ {
		if time.Now().After(j.deadline) {
			break
		}
		cs := j.niceBounds(1000)
		free := 1 + rng.Intn(3)
		perm := rng.Perm(len(j.inputs))
		for k, ix := range perm {
			v := j.inputs[ix]
			if v.sort != SReal || k < free {
				continue
			}
			c := j.t.Real(big.NewRat(int64(rng.Intn(400)-100*(round%2)), 4))
			cs = append(cs, j.t.Eq(v, c))
		}
		if _, m := s.Check(j.inputs, append(cs, target)...); try(m, "nonlinear real arithmetic, part of the inputs fixed") {
			return
		}
	}
	if r2 == Sat {
		// is it only a rounding-sized deviation?
		if o.strong != nil {
			if r3, _ := s.Check(nil, append(j.niceBounds(1000), o.strong)...); r3 == Unsat {
				o.status, o.how = "proved", "within 1/64 for inputs up to 1000 (exact equality fails)"
				return
			}
		}
		o.status, o.how = "undecided", "solver model does not reproduce natively"
		return
	}
	o.status, o.how = "undecided", "solver returned unknown"
}

// witness: a model reaching the end of the harness, run natively and compared.
func (e *Engine) witness(j *Job, res *JobResult, pc *Term, s1 *Solver, exact func() *Solver, rp *replayer) {
	bounds := j.niceBounds(100)
	var m map[string]string
	var r Res
	if !j.fp {
		// spread the values so that witnesses are not all zero
		var spread []*Term
		rng := rand.New(rand.NewSource(int64(e.seed)))
		for _, v := range j.inputs {
			if v.sort == SReal {
				lo := int64(rng.Intn(60))
				spread = append(spread, j.t.Le(j.t.Real(big.NewRat(lo, 1)), v), j.t.Le(v, j.t.Real(big.NewRat(lo+30, 1))))
			}
		}
		r, m = s1.Check(j.inputs, append(append(bounds, spread...), pc)...)
		if r != Sat {
			r, m = s1.Check(j.inputs, append(bounds, pc)...)
		}
	}
	if r != Sat {
		r, m = s1.Check(j.inputs, pc)
	}
	if r == Unsat {
		res.witness = "unreachable"
		return
	}
	check := func(m map[string]string) bool {
		fv, sv, dec, ok := j.vals(m)
		if !ok {
			return false
		}
		if newEval(fv).ev(pc) == 0 && !j.fp {
			return false
		}
		in := &ReplayInput{Harness: res.harness, Tier: e.tier, Choices: j.choices, Vals: sv}
		rep, err := rp.run(in)
		if err != nil {
			res.traceBad = err.Error()
			return true
		}
		if rep.Assume {
			return false
		}
		res.witness = "ok"
		res.sample = map[string]interface{}{"harness": res.harness, "config": j.choices, "inputs": dec}
		if rep.Panic != "" || len(rep.Failed) > 0 {
			// will be found as a violation below
			return true
		}
		ev := newEval(fv)
		outs := map[string]float64{}
		good := true
		for _, o := range j.obs {
			x, ok := rep.Observe[o.label]
			if !ok {
				continue
			}
			var bits uint64
			fmt.Sscanf(x, "%x", &bits)
			nat := math.Float64frombits(bits)
			var mine float64
			if j.fp {
				mine = ev.ev(o.v.F)
			} else {
				switch {
				case o.v.Nan != nil && ev.ev(o.v.Nan) != 0:
					mine = math.NaN()
				case o.v.PInf != nil && ev.ev(o.v.PInf) != 0:
					mine = math.Inf(1)
				case o.v.NInf != nil && ev.ev(o.v.NInf) != 0:
					mine = math.Inf(-1)
				default:
					mine = ev.ev(o.v.V)
				}
			}
			if len(outs) < 6 {
				outs[o.label] = nat
			}
			if !(mine == nat || math.IsNaN(mine) && math.IsNaN(nat) || math.Abs(mine-nat) <= 1e-6*math.Max(1, math.Max(math.Abs(mine), math.Abs(nat)))) {
				good = false
				res.traceBad = fmt.Sprintf("engine predicts %s=%v, native run gives %v", o.label, mine, nat)
			}
		}
		fo := map[string]string{}
		for k, v := range outs {
			fo[k] = fmt.Sprint(v)
		}
		res.sample["native_outputs"] = fo
		if good {
			res.tracesOK++
		}
		return true
	}
	if m != nil && check(m) {
		return
	}
	if !j.fp {
		s := exact()
		old := s.timeout
		if _, m := s.Check(j.inputs, append(bounds, pc)...); m != nil && check(m) {
			return
		}
		s.timeout = old
		rng := rand.New(rand.NewSource(int64(e.seed)))
		for k := 0; k < 6; k++ {
			cs := append([]*Term{}, bounds...)
			for _, ix := range rng.Perm(len(j.inputs)) {
				v := j.inputs[ix]
				if v.sort == SReal && rng.Intn(3) > 0 {
					cs = append(cs, j.t.Eq(v, j.t.Real(big.NewRat(int64(rng.Intn(200)), 4))))
				}
			}
			if _, m := s.Check(j.inputs, append(cs, pc)...); m != nil && check(m) {
				return
			}
		}
	}
	if r == Sat {
		res.witness = "model not replayable"
	} else {
		res.witness = "unknown"
	}
}

var saveMu sync.Mutex
var saveN int

func (e *Engine) saveReplay(res *JobResult, o *Obligation, in *ReplayInput) {
	saveMu.Lock()
	defer saveMu.Unlock()
	saveN++
	dir := filepath.Join(e.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", res.harness, saveN))
	b, _ := json.MarshalIndent(in, "", " ")
	os.WriteFile(p, b, 0o644)
	o.model = map[string]string{"path": p, "detail": fmt.Sprint(in.Result.Failed, in.Result.Panic)}
}

func (e *Engine) loadKnown() error {
	b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var kf struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &kf); err != nil {
		return fmt.Errorf("known_findings.json: %v", err)
	}
	e.known = kf.Findings
	return nil
}

// fresh counts the violations that no known finding lists.
func (e *Engine) fresh(prop string, r *JobResult) int {
	n := 0
	for _, o := range r.violated {
		if matchKnown(e.known, prop, r.harness, o.label, choiceStr(r)) == nil {
			n++
		}
	}
	return n
}

func (e *Engine) report(prop string, results []*JobResult, start time.Time) int {
	sort.Slice(results, func(a, b int) bool {
		if results[a].harness != results[b].harness {
			return results[a].harness < results[b].harness
		}
		return fmt.Sprint(results[a].choices) < fmt.Sprint(results[b].choices)
	})
	type hs struct {
		Instances   int            `json:"instances"`
		Configs     []string       `json:"configurations"`
		Obligations int            `json:"obligations"`
		Proved      int            `json:"proved"`
		Violated    int            `json:"violated"`
		Undecided   int            `json:"undecided"`
		By          map[string]int `json:"proved_by"`
		PanicChecks int            `json:"panic_conditions_refuted"`
		Witness     int            `json:"reachability_witnesses"`
		Steps       int64          `json:"ssa_instructions"`
		Forks       int64          `json:"symbolic_branches"`
		Queries     int            `json:"solver_queries"`
		SolverS     float64        `json:"solver_seconds"`
		Quick       int            `json:"difference_logic_queries"`
		Paths       int            `json:"paths,omitempty"`
		Pruned      int            `json:"schedules_pruned_as_equivalent,omitempty"`
		Determinate int            `json:"instances_with_one_schedule_class,omitempty"`
		AllSched    int            `json:"instances_with_all_schedules_explored,omitempty"`
		SchedStates int            `json:"scheduling_points,omitempty"`
		Errors      []string       `json:"errors,omitempty"`
	}
	per := map[string]*hs{}
	funcs := map[string]bool{}
	notes := map[string]bool{}
	intr := map[string]bool{}
	var samples []interface{}
	states, trans, traces, oblig, proved, undec, queries, panics := int64(0), int64(0), 0, 0, 0, 0, 0, 0
	var solver time.Duration
	viol, errs := 0, 0
	var mismatches []string
	printedKF := map[string]bool{}
	lines := map[string]int{}
	say := func(kind, f string, a ...interface{}) {
		lines[kind]++
		if lines[kind] <= 12 || e.verbose {
			fmt.Printf(kind+" "+f, a...)
		}
	}
	var slow []string
	for _, r := range results {
		h := per[r.harness]
		if h == nil {
			h = &hs{By: map[string]int{}}
			per[r.harness] = h
		}
		h.Instances++
		cs := choiceStr(r)
		if len(h.Configs) < 60 {
			h.Configs = append(h.Configs, cs)
		}
		h.Obligations += len(r.obl)
		h.Proved += r.proved
		h.Violated += len(r.violated)
		h.Undecided += len(r.undec)
		h.Queries += r.queries
		if r.j != nil {
			h.Quick += r.j.quickN
			if r.j.path != nil {
				h.Paths += r.j.path.paths
				if r.j.path.conc != nil {
					h.Pruned += r.j.path.pruned
					h.SchedStates += r.j.path.conc.states
					if r.j.path.conc.all {
						h.AllSched++
					} else {
						h.Determinate++
					}
				}
			}
		}
		h.SolverS += r.solver.Seconds()
		for k, v := range r.byHow {
			h.By[k] += v
		}
		if r.err != "" {
			errs++
			h.Errors = append(h.Errors, cs+": "+r.err)
			say("INCONCLUSIVE", "%s %s: %s\n", r.harness, cs, r.err)
		}
		if r.j != nil {
			h.Steps += r.j.steps
			h.Forks += r.j.forks
			h.PanicChecks += r.j.panicChecks
			panics += r.j.panicChecks
			states += r.j.forks + r.j.merges + 1
			trans += r.j.steps
			for f := range r.j.funcs {
				if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !strings.Contains(f.Pkg.Pkg.Path(), "zzverif") {
					funcs[strings.ReplaceAll(f.String(), modPath+"/", "")] = true
				} else if f.Origin() != nil && strings.Contains(f.String(), modPath) && !strings.Contains(f.String(), "zzverif") {
					funcs[strings.ReplaceAll(f.String(), modPath+"/", "")] = true
				}
			}
			for n := range r.j.notes {
				notes[n] = true
			}
			for n := range r.j.intrin {
				intr[n] = true
			}
		}
		oblig += len(r.obl)
		proved += r.proved
		undec += len(r.undec)
		queries += r.queries
		solver += r.solver
		traces += r.tracesOK
		if r.witness == "ok" {
			h.Witness++
		} else if r.err == "" && len(r.violated) == 0 {
			say("NOTE", "%s %s: reachability witness: %s\n", r.harness, cs, r.witness)
		}
		if r.traceBad != "" {
			mismatches = append(mismatches, r.harness+" "+cs+": "+r.traceBad)
		}
		if r.sample != nil && len(samples) < 8 {
			r.sample["obligations"] = len(r.obl)
			r.sample["proved"] = r.proved
			samples = append(samples, r.sample)
		}
		for _, o := range r.undec {
			say("UNDECIDED", "%s %s [%s]: %s\n", r.harness, cs, o.label, o.how)
		}
		for _, o := range r.violated {
			if k := matchKnown(e.known, prop, r.harness, o.label, cs); k != nil {
				if !printedKF[k.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					printedKF[k.What] = true
				}
				continue
			}
			viol++
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, o.model["path"])
			fmt.Printf("  %s (%s) obligation %q, %s; native run: %s\n", r.harness, cs, o.label, o.how, o.model["detail"])
		}
		if r.wall > 20*time.Second {
			slow = append(slow, fmt.Sprintf("%s %s %.0fs", r.harness, cs, r.wall.Seconds()))
		}
	}
	for k, n := range lines {
		if n > 12 && !e.verbose {
			fmt.Printf("%s ... %d in all\n", k, n)
		}
	}
	for _, m := range mismatches {
		fmt.Println("TRANSLATION-MISMATCH", m)
	}
	if e.verbose && len(slow) > 0 {
		fmt.Println("slow:", slow)
	}
	keys := func(m map[string]bool) []string {
		var k []string
		for x := range m {
			k = append(k, x)
		}
		sort.Strings(k)
		return k
	}
	assumptions := []string{
		"within the stated bounds only (configurations listed per harness); sizes, periods and step counts outside them are not covered",
		"float64 arithmetic is interpreted over exact extended reals (finite/NaN/+Inf/-Inf tracked exactly, rounding and signed zero outside the claim) except in harnesses named _FP, which are bit-precise IEEE-754",
		"trusted: this SSA encoder, golang.org/x/tools/go/ssa, the SMT solver; intrinsics listed in coverage.intrinsics",
	}
	assumptions = append(assumptions, keys(notes)...)
	ev := map[string]interface{}{
		"property": prop, "tier": e.tier, "seed": e.seed, "level": "model_checking",
		"wall_s":      math.Round(time.Since(start).Seconds()*100) / 100,
		"violations":  viol,
		"assumptions": assumptions,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
			"obligations": oblig, "discharged": proved, "undecided": undec, "panic_conditions_refuted": panics,
			"solver": strings.Join(e.z3, " "), "solver_queries": queries, "solver_seconds": math.Round(solver.Seconds()*100) / 100,
			"functions_encoded": keys(funcs), "intrinsics": keys(intr), "harnesses": per,
			"translation_mismatches": mismatches, "inconclusive_instances": errs, "load_seconds": e.loadTime.Seconds(),
			"explanation": "states = symbolic states (forks and merges of the path-merging executor), transitions = SSA instructions executed symbolically, traces_validated_against_impl = solver models run natively whose observed outputs equal the engine's prediction",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %d instances, %d obligations: %d proved, %d undecided; %d violations; %d panic conditions refuted; %d native traces; %d queries, %.1fs solver, %.1fs wall\n",
		prop, len(results), oblig, proved, undec, viol, panics, traces, queries, solver.Seconds(), time.Since(start).Seconds())
	if viol > 0 {
		return 1
	}
	if proved == 0 && errs > 0 {
		return 2
	}
	return 0
}

func matchKnown(known []KnownFinding, prop, harness, label, cfg string) *KnownFinding {
	for i := range known {
		k := &known[i]
		if k.Status != "known" || k.Property != prop || k.Harness != harness {
			continue
		}
		if ok, _ := regexp.MatchString("^(?:"+k.Label+")$", label); !ok {
			continue
		}
		if k.Choices != "" {
			if ok, _ := regexp.MatchString("^(?:"+k.Choices+")$", cfg); !ok {
				continue
			}
		}
		return k
	}
	return nil
}
