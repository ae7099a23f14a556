package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Item struct {
	prefix []int32
	md     Model
}

// HState is the exploration state of one harness.
type HState struct {
	name      string
	rep       *replayer
	fn        *ssa.Function
	thorough  bool
	queue     []Item
	active    int
	started   bool
	paths     int64
	forks     int64
	steps     int64
	asserts   int64
	nodes     int64
	ends      map[string]int64
	incompl   map[string]int64
	reached   map[string]int64
	labels    []string
	viol      map[string][]*Violation
	nviol     int
	spent     time.Duration
	weight    float64
	stopped   string
	samples   []Sample
	maxLen    int
	covered   map[*Fn]bool
	firstRun  time.Time
	lastRun   time.Time
}

// Sample is a completed path kept for native validation.
type Sample struct {
	Harness string    `json:"harness"`
	Values  []NdValue `json:"values"`
	Reached []string  `json:"reached"`
	Sched   bool      `json:"-"`
}

type Explorer struct {
	L        *Loaded
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*HState
	deadline time.Time
	workers  int
	solver   string
	tmo      int
	queries  int64
	sat, uns int64
	unk      int64
	stime    time.Duration
	conc     struct {
		sync.Mutex
		k map[uint64]int32
		v []uint64
	}
	verbose bool
	fatal   string
	maxViol int
	only    []int32
}

type Worker struct {
	E            *Explorer
	H            *HState
	T            *Terms
	S            *Solver
	asserts      int64
	base         map[*ssa.Global]*Val
	inited       map[*ssa.Package]bool
	buildingBase bool
	verbose      bool
	pushed       []Item
}

func (w *Worker) push(alt []int32, md Model) { w.pushed = append(w.pushed, Item{alt, md}) }

func (w *Worker) concKey(v uint64) int32 {
	c := &w.E.conc
	c.Lock()
	defer c.Unlock()
	if k, ok := c.k[v]; ok {
		return k
	}
	c.v = append(c.v, v)
	k := int32(-len(c.v))
	c.k[v] = k
	return k
}

func (w *Worker) concVal(k int32) uint64 {
	c := &w.E.conc
	c.Lock()
	defer c.Unlock()
	return c.v[-k-1]
}

func newExplorer(L *Loaded, workers int, solver string, tmo int) *Explorer {
	e := &Explorer{L: L, workers: workers, solver: solver, tmo: tmo, maxViol: 4}
	e.cond = sync.NewCond(&e.mu)
	e.conc.k = map[uint64]int32{}
	return e
}

func (e *Explorer) add(f *ssa.Function, thorough bool, weight float64) *HState {
	h := &HState{name: f.Name(), fn: f, thorough: thorough, ends: map[string]int64{}, incompl: map[string]int64{},
		reached: map[string]int64{}, viol: map[string][]*Violation{}, weight: weight, covered: map[*Fn]bool{}}
	h.queue = []Item{{nil, Model{}}}
	h.labels = e.L.reachLabels(f)
	e.hs = append(e.hs, h)
	return h
}

func (e *Explorer) newMachine(w *Worker) *Machine {
	return &Machine{
		P: e.L.P, T: NewTerms(), S: w.S, W: w,
		pcFast: map[*Term]bool{}, memo: map[*Term]uint64{}, globals: map[*ssa.Global]*Val{},
		side: map[any]any{}, ndCount: map[string]int{}, reached: map[string]bool{}, covered: map[*Fn]bool{},
		pools: map[any]any{}, varints: map[string]varintVal{}, decChunk: map[*Term]decChunk{}, params: map[string]int{}, known: map[string]bool{},
		cfg: Cfg{maxSteps: 3000000},
	}
}

func (e *Explorer) run() {
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
}

// pick chooses the next item: the harness with the least time spent relative
// to its weight.
func (e *Explorer) pick() (*HState, Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.fatal != "" {
			e.cond.Broadcast()
			return nil, Item{}, false
		}
		if time.Now().After(e.deadline) {
			for _, h := range e.hs {
				if len(h.queue) > 0 && h.stopped == "" {
					h.stopped = "time budget"
				}
			}
			e.cond.Broadcast()
			return nil, Item{}, false
		}
		var best *HState
		active := 0
		for _, h := range e.hs {
			active += h.active
			if len(h.queue) == 0 || h.stopped != "" {
				continue
			}
			if best == nil || float64(h.spent)/h.weight < float64(best.spent)/best.weight {
				best = h
			}
		}
		if best != nil {
			it := best.queue[len(best.queue)-1]
			best.queue = best.queue[:len(best.queue)-1]
			best.active++
			return best, it, true
		}
		if active == 0 {
			e.cond.Broadcast()
			return nil, Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) worker() {
	w := &Worker{E: e, base: map[*ssa.Global]*Val{}, inited: map[*ssa.Package]bool{}, verbose: e.verbose}
	w.S = NewSolver(e.solver, e.tmo)
	defer func() {
		e.mu.Lock()
		e.queries += w.S.Queries
		e.sat += w.S.Sat
		e.uns += w.S.Unsat
		e.unk += w.S.Unknown
		e.stime += w.S.Time
		e.mu.Unlock()
		w.S.Close()
	}()
	for {
		h, it, ok := e.pick()
		if !ok {
			return
		}
		w.runItem(h, it)
	}
}

func (w *Worker) runItem(h *HState, it Item) {
	e := w.E
	t0 := time.Now()
	w.H = h
	w.asserts = 0
	w.pushed = nil
	w.S.Reset()
	m := e.newMachine(w)
	m.harness = h.name
	m.thorough = h.thorough
	m.prefix = it.prefix
	m.itemModel = it.md
	if len(it.prefix) == 0 {
		m.setModel(Model{})
	}
	var end string
	func() {
		defer func() {
			if r := recover(); r != nil {
				e.mu.Lock()
				if e.fatal == "" {
					e.fatal = fmt.Sprintf("engine panic in %s: %v%s\n%s", h.name, r, m.where(), debug.Stack())
				}
				e.mu.Unlock()
				end = "engine panic"
			}
		}()
		if msg := m.initPackages(); msg != "" {
			panic("init: " + msg)
		}
		end = m.Run(e.L.P.fn(h.fn))
	}()
	var sample *Sample
	if end == "done" {
		e.mu.Lock()
		want := len(h.samples) < 400
		e.mu.Unlock()
		if want {
			sample = m.sample()
		}
	}
	d := time.Since(t0)
	e.mu.Lock()
	h.active--
	h.spent += d
	h.paths++
	h.steps += m.steps
	h.forks += int64(m.nforks)
	h.nodes += int64(len(m.log) - len(it.prefix))
	h.asserts += w.asserts
	h.ends[end]++
	if len(m.log) > h.maxLen {
		h.maxLen = len(m.log)
	}
	for _, s := range m.incompl {
		if len(h.incompl) < 50 || h.incompl[s] > 0 {
			h.incompl[s]++
		}
	}
	for k := range m.reached {
		h.reached[k]++
	}
	for f := range m.covered {
		h.covered[f] = true
	}
	if sample != nil {
		h.samples = append(h.samples, *sample)
	}
	for _, v := range m.viol {
		h.nviol++
		if len(h.viol[v.ID]) < e.maxViol {
			h.viol[v.ID] = append(h.viol[v.ID], v)
		}
		if e.verbose {
			fmt.Printf("CANDIDATE %s %s: %s\n", h.name, v.ID, v.Msg)
			for _, x := range v.Values {
				fmt.Println("    ", x.Label, x.V)
			}
			for _, x := range v.Trace {
				fmt.Println("     trace", x)
			}
		}
	}
	if *fFast > 0 && h.nviol >= *fFast {
		e.deadline = time.Now()
	}
	full := 0
	for _, vs := range h.viol {
		if len(vs) >= e.maxViol {
			full++
		}
	}
	if full > 0 && h.stopped == "" && h.nviol > 64 {
		h.stopped = "violations found"
		h.queue = nil
	}
	if h.stopped == "" {
		h.queue = append(h.queue, w.pushed...)
	}
	w.pushed = nil
	e.cond.Broadcast()
	e.mu.Unlock()
}

// sample extracts concrete inputs of the completed path.
func (m *Machine) sample() (s *Sample) {
	defer func() {
		if recover() != nil {
			s = nil
		}
	}()
	md := m.curModel()
	memo := map[*Term]uint64{}
	s = &Sample{Harness: m.harness, Sched: m.cfg.sched || m.cfg.preempt > 0 || m.cfg.mapOrder > 0}
	for _, r := range m.nd {
		nv := NdValue{Label: r.Label, Kind: r.Kind}
		if r.T == nil {
			nv.V = []uint64{r.N}
		}
		for _, t := range r.T {
			nv.V = append(nv.V, md.Eval(t, memo))
		}
		s.Values = append(s.Values, nv)
	}
	for k := range m.reached {
		s.Reached = append(s.Reached, k)
	}
	sort.Strings(s.Reached)
	return s
}

// initPackages runs the initialisers of the eager packages.
func (m *Machine) initPackages() string {
	defer func() { m.steps = 0 }()
	for _, p := range m.W.E.L.Ordered[m.W.H.fn.Pkg] {
		f := p.Func("init")
		if f == nil {
			continue
		}
		fn := m.P.fn(f)
		m.P.body(fn)
		if fn.err != "" {
			continue
		}
		g := m.newG("init")
		m.cur = g
		m.runInit(g, fn)
		if !g.dead {
			return "package initialiser of " + p.Pkg.Path() + " blocks"
		}
	}
	m.gs = nil
	m.nextG = 0
	m.cur = nil
	return ""
}

// runInit executes a package initialiser, skipping what cannot be executed.
func (m *Machine) runInit(g *G, fn *Fn) {
	f0 := m.pushFrame(g, fn, nil, nil, -1)
	for !g.dead {
		bad := m.initStep(g)
		if g.dead {
			return
		}
		if bad == "" {
			if m.yield || m.cur != g {
				m.yield = false
				if g.wait != nil {
					bad = "blocks"
				} else {
					m.cur = g
					continue
				}
			} else {
				continue
			}
		}
		// skip the failing top-level instruction
		if os.Getenv("VERIF_DEBUG_INIT") != "" {
			fmt.Println("init of", fn.name, "skips:", bad)
		}
		g.wait = nil
		in := g.top == f0
		g.top = f0
		g.depth = 1
		f0.pan = nil
		pc := f0.pc
		if !in && pc > 0 {
			pc--
		}
		I := &f0.fn.blocks[f0.blk].ins[pc]
		if I.dst >= 0 {
			if v, ok := I.ssa.(ssa.Value); ok {
				f0.regs[I.dst] = zero(tinfo(v.Type()))
			}
		}
		f0.pc = pc + 1
	}
}

func (m *Machine) initStep(g *G) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *EngineErr:
				bad = x.Error() + m.where()
			case goPanic:
				bad = "panic " + m.panicText(x.v) + m.where()
			case pathEnd:
				bad = "end " + x.why
			default:
				panic(r)
			}
		}
	}()
	m.exec(g, nil)
	return ""
}

// initBase initialises the globals of a package that is not executed per path.
func (w *Worker) initBase(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	fn := w.E.L.P.fn(f)
	w.E.L.P.body(fn)
	if fn.err != "" {
		return
	}
	old := w.S
	m := w.E.newMachine(w)
	m.lenient = true
	m.cfg.maxSteps = 5000000
	m.setModel(Model{})
	bb := w.buildingBase
	w.buildingBase = true
	g := m.newG("init")
	m.cur = g
	m.runInit(g, fn)
	w.buildingBase = bb
	w.S = old
}
