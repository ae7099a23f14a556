package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pathEnd ends the exploration of one path.
type pathEnd struct{ why string }

// goPanic is a Go panic raised inside an instruction.
type goPanic struct{ v Val }

type WCase struct {
	ch   *Chan
	send bool
	v    Val
}

// Wait describes why a goroutine is blocked.
type Wait struct {
	cases    []WCase
	cond     func() bool
	complete func(idx int, v Val, ok bool) // rendezvous completed by the partner
	settle   bool
	what     string
	onWake   func()
}

type deferred struct {
	kind IOp
	ins  *Ins
	fn   Val // closure value (ICall)
	fnp  *Fn
	args []Val
	recv Val
}

type panicState struct {
	v         Val
	recovered bool
	goexit    bool
}

type Frame struct {
	fn       *Fn
	regs     []Val
	blk, pc  int
	prev     int
	caller   *Frame
	dst      int // register of the caller to receive the result, -1 for none
	defers   []deferred
	pan      *panicState
	deferOf  *Frame // frame whose deferred call this is
	inUnwind bool   // deferred call run while unwinding
	barrier  bool   // callSync boundary
	result   Val
	done     bool
	base     []Val // closure environment
	post     func(Val) Val // applied to the result
}

type G struct {
	id    int
	top   *Frame
	wait  *Wait
	dead  bool
	main  bool
	name  string
	aux   map[any]any
	depth int
	noPoint bool
	yielded bool
	resume    any
	resumeIns *Ins
	resumeF   *Frame
	onExit    func()
	vc        vclock
	clock     bool
}

type timer struct {
	when   int64
	seq    int
	fire   func()
	period int64
	dead   bool
	key    any
	fn     func()
	by     *G
	vc     vclock
}

type Decision struct {
	v int32
}

type NdRec struct {
	Label string
	Kind  string
	T     []*Term // symbolic parts
	V     []Val
	N     uint64 // concrete (choice)
}

type Violation struct {
	ID      string
	Msg     string
	Kind    string // assert, panic, deadlock, hang
	Values  []NdValue
	Harness string
	Trace   []string
	PathLen int
}

type NdValue struct {
	Label string   `json:"label"`
	Kind  string   `json:"kind"`
	V     []uint64 `json:"v"`
}

type Cfg struct {
	mapOrder  int // maps up to this size are iterated in every order
	sched     bool
	preempt   int
	delays    bool
	memPoints bool
	maxSteps  int64
	selectAll bool
	early     int // timers that may fire early
}

type Machine struct {
	P        *Prog
	T        *Terms
	S        *Solver
	W        *Worker
	pc       []*Term
	pcFast   map[*Term]bool
	model    Model
	memo     map[*Term]uint64
	prefix   []int32
	pos      int
	log      []int32
	globals  map[*ssa.Global]*Val
	gs       []*G
	cur      *G
	nextG    int
	now      int64
	timers   []*timer
	tseq     int
	steps    int64
	side     map[any]any
	nd       []NdRec
	ndCount  map[string]int
	cfg      Cfg
	preempts int
	chanID   int
	reached  map[string]bool
	asserts  int
	viol     []*Violation
	incompl  []string
	lenient  bool
	decChunk map[*Term]decChunk
	hexNib   map[*Term]*Term // hexadecimal digits and their values
	jsafe    map[*Term]bool  // bytes that need no escape in JSON
	harness  string
	thorough bool
	params   map[string]int
	fired    int
	hb       map[hbKey]vclock
	raced    bool
	running  bool // past the initialisers
	yield    bool
	nforks   int
	crashed  bool
	known    map[string]bool
	advancing *advState
	mainDone bool
	covered  map[*Fn]bool
	trace    []string
	syncDepth int
	pools    map[any]any
	nondetCalls int
	randN    int
	varints  map[string]varintVal
	itemModel Model
}

type advState struct{ g *G; target int64 }
type decChunk struct{ digits []*Term; x *Term; neg bool; w uint8; signed bool }

func (m *Machine) term(v Val, w uint8) *Term {
	if v.R == nil {
		return m.T.Const(v.N, w)
	}
	return v.R.(*Term)
}

func tval(t *Term) Val {
	if t.op == OConst {
		return Val{N: t.n}
	}
	return Val{R: t}
}

// ---- decisions ----

func (m *Machine) evalModel(t *Term) uint64 {
	if m.model == nil {
		m.model = Model{}
		m.memo = map[*Term]uint64{}
	}
	return m.model.Eval(t, m.memo)
}

func (m *Machine) setModel(md Model) {
	m.model = md
	m.memo = map[*Term]uint64{}
}

func (m *Machine) addPC(t *Term) {
	if t.isC() {
		return
	}
	// split conjunctions so that parts are recognised later
	if t.op == OBAnd {
		m.addPC(t.a)
		m.addPC(t.b)
		return
	}
	m.pc = append(m.pc, t)
	m.pcFast[t] = true
	if t.op == OBNot {
		m.pcFast[t.a] = false
	} else {
		m.pcFast[m.T.Not(t)] = false
	}
}

// Branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) Branch(c *Term) bool {
	if c.isC() {
		return c.n == 1
	}
	if b, ok := m.pcFast[c]; ok {
		return b
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.log = append(m.log, d)
		b := d&1 == 1
		if d < 2 { // fork decision
			if b {
				m.addPC(c)
			} else {
				m.addPC(m.T.Not(c))
			}
			m.invalidate(c, b)
		} else { // forced: implied by the path condition
			m.learn(c, b)
		}
		return b
	}
	s := m.evalModel(c) == 1
	other := c
	if s {
		other = m.T.Not(c)
	}
	res, md := m.S.Check(m.pc, other)
	switch res {
	case "sat":
		alt := make([]int32, len(m.log)+1)
		copy(alt, m.log)
		alt[len(m.log)] = int32(b2u(!s))
		m.W.push(alt, md)
		m.nforks++
		m.log = append(m.log, int32(b2u(s)))
		if s {
			m.addPC(c)
		} else {
			m.addPC(m.T.Not(c))
		}
		return s
	case "unsat":
		m.log = append(m.log, 2+int32(b2u(s)))
		m.learn(c, s)
		return s
	default:
		m.incompl = append(m.incompl, "solver: "+res)
		m.log = append(m.log, int32(b2u(s)))
		if s {
			m.addPC(c)
		} else {
			m.addPC(m.T.Not(c))
		}
		return s
	}
}

func (m *Machine) learn(c *Term, b bool) {
	m.pcFast[c] = b
	m.pcFast[m.T.Not(c)] = !b
}

// invalidate drops the cached model when it contradicts a replayed decision.
func (m *Machine) invalidate(c *Term, b bool) {
	if m.pos < len(m.prefix) {
		m.model = nil
		return
	}
	m.model = nil
	if m.itemModel != nil {
		m.setModel(m.itemModel)
		return
	}
	// end of prefix: find a model of the path condition
	res, md := m.S.Check(m.pc, nil)
	switch res {
	case "sat":
		m.setModel(md)
	case "unsat":
		panic(pathEnd{"infeasible"})
	default:
		m.incompl = append(m.incompl, "solver: "+res)
		panic(pathEnd{"unknown"})
	}
}

func (m *Machine) ensureModel() {
	if m.pos < len(m.prefix) || m.model != nil {
		return
	}
	if len(m.pc) == 0 {
		m.setModel(Model{})
		return
	}
	res, md := m.S.Check(m.pc, nil)
	switch res {
	case "sat":
		m.setModel(md)
	case "unsat":
		panic(pathEnd{"infeasible"})
	default:
		m.incompl = append(m.incompl, "solver: "+res)
		panic(pathEnd{"unknown"})
	}
}

// Assume restricts the path.
func (m *Machine) Assume(c *Term) {
	if c.isC() {
		if c.n == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if b, ok := m.pcFast[c]; ok {
		if !b {
			panic(pathEnd{"assume"})
		}
		return
	}
	m.addPC(c)
	if m.pos < len(m.prefix) {
		m.model = nil
		return
	}
	if m.model != nil && m.evalModel(c) == 1 {
		return
	}
	m.model = nil
	m.ensureModelAfterAssume()
}

func (m *Machine) ensureModelAfterAssume() {
	res, md := m.S.Check(m.pc, nil)
	switch res {
	case "sat":
		m.setModel(md)
	case "unsat":
		panic(pathEnd{"assume"})
	default:
		m.incompl = append(m.incompl, "solver: "+res)
		panic(pathEnd{"unknown"})
	}
}

// Choose picks one of n alternatives nondeterministically.
func (m *Machine) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.log = append(m.log, d)
		if m.pos == len(m.prefix) {
			if m.itemModel != nil {
				m.setModel(m.itemModel)
			} else {
				m.ensureModel()
			}
		}
		return int(d) - 4
	}
	for i := 1; i < n; i++ {
		alt := make([]int32, len(m.log)+1)
		copy(alt, m.log)
		alt[len(m.log)] = int32(i + 4)
		m.W.push(alt, m.model)
	}
	m.nforks += n - 1
	m.log = append(m.log, 4)
	return 0
}

// Concretize fixes a symbolic scalar to one of its feasible values (forking).
func (m *Machine) Concretize(v Val, w uint8) uint64 {
	t, ok := v.R.(*Term)
	if !ok {
		return v.N
	}
	for i := 0; i < 4096; i++ {
		var cand uint64
		if m.pos < len(m.prefix) {
			// while replaying, the candidate sequence must be reproduced: it is recorded
			d := m.prefix[m.pos]
			m.pos++
			m.log = append(m.log, d)
			cand = m.W.concVal(d)
		} else {
			m.ensureModel()
			cand = m.evalModel(t)
			m.log = append(m.log, m.W.concKey(cand))
		}
		if m.Branch(m.T.Bin(OEq, t, m.T.Const(cand, w))) {
			return cand
		}
	}
	panic(unsupported("concretize: too many values"))
}

func (m *Machine) truth(v Val) bool {
	if v.R == nil {
		return v.N == 1
	}
	return m.Branch(v.R.(*Term))
}

// ---- violations ----

func (m *Machine) report(kind, id, msg string, md Model) {
	v := &Violation{ID: id, Msg: msg, Kind: kind, Harness: m.harness, PathLen: len(m.log)}
	memo := map[*Term]uint64{}
	for _, r := range m.nd {
		nv := NdValue{Label: r.Label, Kind: r.Kind}
		if r.T == nil {
			nv.V = []uint64{r.N}
		}
		for _, t := range r.T {
			nv.V = append(nv.V, md.Eval(t, memo))
		}
		v.Values = append(v.Values, nv)
	}
	v.Trace = append(v.Trace, m.trace...)
	m.viol = append(m.viol, v)
}

func (m *Machine) curModel() Model {
	if m.model != nil {
		return m.model
	}
	m.ensureModel()
	if m.model == nil {
		return Model{}
	}
	return m.model
}

func (m *Machine) Assert(c *Term, id string) {
	m.asserts++
	m.W.asserts++
	if c.isC() && c.n == 1 {
		return
	}
	if b, ok := m.pcFast[c]; ok && b {
		return
	}
	if m.pos < len(m.prefix) {
		// already checked on the path that forked here; the assertion is part
		// of the path condition from here on
		m.addPC(c)
		if c.isC() {
			panic(pathEnd{"assert"})
		}
		m.model = nil
		return
	}
	if c.isC() {
		m.report("assert", id, id, m.curModel())
		panic(pathEnd{"assert"})
	}
	neg := m.T.Not(c)
	if m.model != nil && m.evalModel(c) == 0 {
		m.report("assert", id, id, m.model)
	} else {
		res, md := m.S.Check(m.pc, neg)
		switch res {
		case "sat":
			m.report("assert", id, id, md)
		case "unsat":
			m.learn(c, true)
			return
		default:
			m.incompl = append(m.incompl, "solver: "+res+" on assertion "+id)
		}
	}
	m.addPC(c)
	m.model = nil
	m.ensureModelAfterAssume()
}

// ---- globals ----

func (m *Machine) global(g *ssa.Global) *Val {
	if p, ok := m.globals[g]; ok {
		return p
	}
	if p, ok := m.W.base[g]; ok {
		return p
	}
	eager := isEager(g.Pkg.Pkg.Path())
	if !eager {
		m.W.initBase(g.Pkg)
		if p, ok := m.W.base[g]; ok {
			return p
		}
	}
	v := zero(tinfo(g.Type().(*types.Pointer).Elem()))
	p := &v
	if eager {
		m.globals[g] = p
	} else {
		m.W.base[g] = p
	}
	return p
}

// ---- goroutines ----

func (m *Machine) newG(name string) *G {
	g := &G{id: m.nextG, name: name}
	m.nextG++
	m.gs = append(m.gs, g)
	if m.cur != nil {
		g.vc = append(vclock{}, m.cur.vc...)
		m.cur.tick()
	}
	g.tick()
	return g
}

func (m *Machine) pushFrame(g *G, fn *Fn, env []Val, args []Val, dst int) *Frame {
	m.P.ready(fn)
	if fn.err != "" {
		panic(unsupported("%s", fn.err))
	}
	if fn.repo && !m.covered[fn] {
		m.covered[fn] = true
	}
	f := &Frame{fn: fn, regs: make([]Val, fn.nregs), caller: g.top, dst: dst, prev: -1}
	copy(f.regs, args)
	copy(f.regs[fn.nparam:], env)
	g.top = f
	g.depth++
	if g.depth > 2000 {
		panic(goPanic{m.rtError("stack overflow")})
	}
	m.enter(f)
	return f
}

func (m *Machine) enter(f *Frame) {}

func (m *Machine) rtError(msg string) Val {
	return Val{R: &Iface{T: m.P.rtErr, V: strVal(msg)}}
}

func (m *Machine) rtPanic(msg string) {
	panic(goPanic{m.rtError(msg)})
}

// runnable reports whether g could make progress now.
func (m *Machine) runnable(g *G) bool {
	if g.dead {
		return false
	}
	w := g.wait
	if w == nil {
		return true
	}
	if w.settle {
		return false
	}
	if w.cond != nil && w.cond() {
		return true
	}
	for _, c := range w.cases {
		if m.caseReady(g, c) {
			return true
		}
	}
	return false
}

func (m *Machine) caseReady(g *G, c WCase) bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		return c.ch.closed || len(c.ch.buf) < c.ch.cap || m.partner(g, c.ch, false) != nil
	}
	return len(c.ch.buf) > 0 || c.ch.closed || m.partner(g, c.ch, true) != nil
}

// partner finds a goroutine blocked on the other side of ch.
func (m *Machine) partner(g *G, ch *Chan, wantSend bool) *G {
	for _, o := range m.gs {
		if o == g || o.dead || o.wait == nil {
			continue
		}
		for _, c := range o.wait.cases {
			if c.ch == ch && c.send == wantSend {
				return o
			}
		}
	}
	return nil
}

// trySend performs a send if it can proceed.
func (m *Machine) trySend(g *G, ch *Chan, v Val) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		panic(goPanic{m.plainError("send on closed channel")})
	}
	if o := m.partner(g, ch, false); o != nil && len(ch.buf) == 0 {
		m.completeOther(o, ch, false, v)
		m.meet(g, o, ch)
		return true
	}
	if len(ch.buf) < ch.cap {
		m.obj(g, ch)
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
		return true
	}
	return false
}

func (m *Machine) plainError(msg string) Val { return m.rtError(msg) }

func (m *Machine) tryRecv(g *G, ch *Chan) (v Val, ok, done bool) {
	if ch == nil {
		return
	}
	if len(ch.buf) > 0 {
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		m.obj(g, ch)
		if o := m.partner(g, ch, true); o != nil {
			sv := m.completeOther(o, ch, true, Val{})
			m.obj(o, ch)
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], sv)
		}
		return v, true, true
	}
	if o := m.partner(g, ch, true); o != nil {
		v = m.completeOther(o, ch, true, Val{})
		m.meet(g, o, ch)
		return v, true, true
	}
	if ch.closed {
		m.acq(g, hbKey{ch, false})
		return zero(tinfo(ch.et)), false, true
	}
	return
}

// completeOther finishes the blocked operation of o on ch; returns the value sent.
func (m *Machine) completeOther(o *G, ch *Chan, send bool, v Val) Val {
	for i, c := range o.wait.cases {
		if c.ch == ch && c.send == send {
			w := o.wait
			o.wait = nil
			w.complete(i, v, true)
			return c.v
		}
	}
	panic("completeOther")
}

func (m *Machine) closeChan(ch *Chan) {
	if ch == nil {
		m.rtPanic("close of nil channel")
	}
	if ch.closed {
		panic(goPanic{m.plainError("close of closed channel")})
	}
	ch.closed = true
	m.rel(m.cur, hbKey{ch, false})
}

func (m *Machine) newChan(cap int, et types.Type) *Chan {
	m.chanID++
	return &Chan{cap: cap, id: m.chanID, et: et}
}

// block suspends the current goroutine; the instruction is executed again.
func (m *Machine) block(g *G, w *Wait) {
	g.wait = w
	m.yield = true
}

func (m *Machine) addTimer(d int64, key any, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	m.tseq++
	t := &timer{when: m.now + d, seq: m.tseq, fire: fire, key: key, by: m.cur}
	if m.cur != nil {
		t.vc = append(vclock{}, m.cur.vc...)
		m.cur.tick()
	}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) nextTimer() *timer {
	var best *timer
	j := 0
	for _, t := range m.timers {
		if t.dead {
			continue
		}
		m.timers[j] = t
		j++
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	m.timers = m.timers[:j]
	return best
}

func (m *Machine) fireTimer(t *timer) {
	if t.when > m.now {
		m.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.dead = true
	}
	m.fired++
	// what fires is ordered after the call that set the timer
	cur := m.cur
	m.cur = &G{id: cur.id, vc: append(vclock{}, t.vc...), clock: true}
	t.fire()
	m.cur = cur
}

// schedule picks the next goroutine; false when everything has ended.
func (m *Machine) schedule() bool {
	for {
		var cand []*G
		for _, g := range m.gs {
			if m.runnable(g) {
				cand = append(cand, g)
			}
		}
		if len(cand) > 0 {
			i := m.roundRobin(cand)
			if len(cand) > 1 && m.cfg.sched {
				if !m.cfg.delays {
					i = m.Choose(len(cand))
				} else if m.preempts < m.cfg.preempt {
					// the default is free, any other choice counts
					if c := m.Choose(len(cand)); c > 0 {
						m.preempts++
						if c <= i {
							c--
						}
						i = c
					}
				}
			}
			m.wake(cand[i])
			return true
		}
		// nobody can run: settle, advance time or deadlock
		var settled *G
		for _, g := range m.gs {
			if !g.dead && g.wait != nil && g.wait.settle {
				settled = g
			}
		}
		if settled != nil && m.advancing == nil {
			settled.wait = nil
			for _, g := range m.gs {
				settled.vc = joinVC(settled.vc, g.vc)
				g.tick()
			}
			m.cur = settled
			return true
		}
		t := m.nextTimer()
		if m.advancing != nil {
			if t != nil && t.when <= m.advancing.target {
				m.fireTimer(t)
				if m.fired > 20000 {
					panic(pathEnd{"timers"})
				}
				continue
			}
			if m.advancing.target > m.now {
				m.now = m.advancing.target
			}
			g := m.advancing.g
			m.advancing = nil
			g.wait = nil
			m.cur = g
			return true
		}
		if t == nil {
			return false
		}
		m.fireTimer(t)
		if m.fired > 5000 {
			m.hang("only timers fire (virtual time " + time.Duration(m.now).String() + ")")
		}
	}
}

func (m *Machine) hang(msg string) {
	if m.pos >= len(m.prefix) {
		m.report("hang", "no-progress", "no progress: "+msg+m.blockedDesc(), m.curModel())
	}
	panic(pathEnd{"hang"})
}

func (m *Machine) blockedDesc() string {
	var s []string
	for _, g := range m.gs {
		if g.dead || g.wait == nil {
			continue
		}
		where := ""
		if g.top != nil {
			where = g.top.fn.name
		}
		s = append(s, fmt.Sprintf("g%d %s in %s", g.id, g.wait.what, where))
	}
	return " [" + strings.Join(s, "; ") + "]"
}

// roundRobin picks the goroutine that runs next by default: the first after the
// current one that has not just yielded.
func (m *Machine) roundRobin(cand []*G) int {
	best := -1
	for k, g := range cand {
		if g.yielded {
			continue
		}
		if best < 0 {
			best = k
		}
		if m.cur != nil && g.id > m.cur.id {
			return k
		}
	}
	if best >= 0 {
		return best
	}
	for k, g := range cand {
		if m.cur != nil && g.id > m.cur.id {
			return k
		}
	}
	return 0
}

// syncPoint offers a preemption before a synchronisation operation.
func (m *Machine) syncPoint(g *G) bool {
	if m.cfg.preempt <= m.preempts || m.syncDepth > 0 {
		return false
	}
	if g.noPoint {
		g.noPoint = false
		return false
	}
	var others []*G
	for _, o := range m.gs {
		if o != g && m.runnable(o) {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return false
	}
	c := m.Choose(1 + len(others))
	if c == 0 {
		return false
	}
	m.preempts++
	g.noPoint = true
	m.wake(others[c-1])
	return true
}

func (m *Machine) wake(g *G) {
	m.cur = g
	if g.wait != nil && g.wait.onWake != nil {
		g.wait.onWake()
	}
	g.wait = nil
	g.yielded = false
}

// ---- running ----

// Run executes one path of the harness.
func (m *Machine) Run(h *Fn) (end string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				end = e.why
			case *EngineErr:
				m.incompl = append(m.incompl, e.Error()+m.where())
				end = "unsupported"
			default:
				panic(r)
			}
		}
	}()
	m.running = true
	g := m.newG("main")
	g.main = true
	m.cur = g
	m.pushFrame(g, h, nil, nil, -1)
	for {
		m.runG()
		if g.dead {
			return "done"
		}
		if !m.schedule() {
			if m.pos >= len(m.prefix) {
				m.report("deadlock", "deadlock", "all goroutines are blocked"+m.blockedDesc(), m.curModel())
			}
			return "deadlock"
		}
	}
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	var s []string
	for f, i := m.cur.top, 0; f != nil && i < 4; f, i = f.caller, i+1 {
		s = append(s, f.fn.name)
	}
	return " at " + strings.Join(s, " < ")
}

// runG runs the current goroutine until it blocks, ends or is preempted.
func (m *Machine) runG() {
	for {
		g := m.cur
		m.yield = false
		m.runSlice(g, nil)
		if m.cur != g && !g.dead { // preempted
			continue
		}
		if m.yield || g.dead {
			return
		}
	}
}

// runSlice executes instructions of g until it must yield or, when stop is
// given, until that frame has returned.
func (m *Machine) runSlice(g *G, stop *Frame) {
	for !g.dead && m.cur == g && !m.yield {
		if stop != nil && stop.done {
			return
		}
		if p := m.execProtected(g, stop); p != nil {
			m.raise(g, p.v)
		}
	}
}

func (m *Machine) execProtected(g *G, stop *Frame) (p *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				p = &gp
				return
			}
			panic(r)
		}
	}()
	m.exec(g, stop)
	return nil
}

// raise starts panicking in the current frame of g.
func (m *Machine) raise(g *G, v Val) {
	f := g.top
	f.pan = &panicState{v: v}
	m.unwind(g)
}

// unwind runs deferred calls of panicking frames, popping frames as needed.
func (m *Machine) unwind(g *G) {
	for {
		f := g.top
		if f == nil {
			return
		}
		if f.pan == nil {
			panic("unwind without panic")
		}
		if f.pan.recovered {
			f.pan = nil
			// return from f through its recover block
			if f.fn.recover >= 0 {
				f.prev = -1
				f.blk, f.pc = f.fn.recover, 0
				return
			}
			res := zeroResults(f.fn)
			m.ret(g, res)
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			fr := m.callDeferred(g, f, d, true)
			if fr {
				return // frame pushed; unwinding continues when it returns
			}
			continue
		}
		// pop
		pan := f.pan
		if f.barrier {
			// panic escapes a nested synchronous call
			g.top = f.caller
			g.depth--
			f.done = true
			panic(goPanic{pan.v})
		}
		g.top = f.caller
		g.depth--
		if g.top == nil {
			if pan.goexit {
				g.dead = true
				return
			}
			m.uncaught(g, pan.v)
			return
		}
		if f.deferOf != nil {
			// a deferred call panicked: replaces the earlier panic
			g.top.pan = pan
			continue
		}
		g.top.pan = pan
	}
}

func (m *Machine) uncaught(g *G, v Val) {
	msg := m.panicText(v)
	if m.pos >= len(m.prefix) {
		m.report("panic", "panic", "panic: "+msg, m.curModel())
	}
	panic(pathEnd{"panic"})
}

func (m *Machine) panicText(v Val) string {
	i, ok := v.R.(*Iface)
	if !ok {
		return "nil"
	}
	defer func() { recover() }()
	switch x := i.V.R.(type) {
	case string:
		if i.T == m.P.rtErr {
			return "runtime error: " + x
		}
		return x
	}
	return i.T.String()
}

func zeroResults(fn *Fn) Val {
	switch fn.nres {
	case 0:
		return Val{}
	case 1:
		return zero(fn.resTI[0])
	}
	t := make(Tuple, fn.nres)
	for i := range t {
		t[i] = zero(fn.resTI[i])
	}
	return Val{R: t}
}

// ret returns res from the top frame.
func (m *Machine) ret(g *G, res Val) {
	f := g.top
	g.top = f.caller
	g.depth--
	f.done = true
	f.result = res
	if f.barrier {
		return
	}
	if g.top == nil {
		g.dead = true
		if g.onExit != nil {
			g.onExit()
		}
		return
	}
	if f.deferOf != nil {
		if f.inUnwind {
			m.unwind(g)
		}
		return // normal RunDefers: instruction is executed again
	}
	if f.post != nil {
		res = f.post(res)
	}
	if f.dst >= 0 {
		g.top.regs[f.dst] = res
	}
}

// callDeferred starts a deferred call; false if it completed immediately.
func (m *Machine) callDeferred(g *G, f *Frame, d deferred, unwinding bool) bool {
	switch d.kind {
	case IBuiltin:
		m.builtin(g, f, d.ins, d.args)
		return false
	}
	var fn *Fn
	var env []Val
	args := d.args
	if d.fnp != nil {
		fn = d.fnp
	} else {
		cl, _ := d.fn.R.(*Closure)
		if cl == nil {
			panic(goPanic{m.rtError("invalid memory address or nil pointer dereference")})
		}
		if cl.Native != nil {
			cl.Native(m, g, args)
			return false
		}
		fn, env = cl.Fn, cl.Env
	}
	m.P.ready(fn)
	if fn.intr != nil {
		sv := m.yield
		before := g.top
		m.syncDepth++
		v := fn.intr(m, &Call{g: g, fn: fn, args: args, env: env})
		m.syncDepth--
		if v.R == blockedMark {
			panic(unsupported("blocking intrinsic %s deferred", fn.name))
		}
		if v.R == fallMark {
			m.P.body(fn)
			nf := m.pushFrame(g, fn, env, args, -1)
			nf.deferOf = f
			nf.inUnwind = unwinding
			return true
		}
		if g.top != before {
			g.top.deferOf = f
			g.top.inUnwind = unwinding
			g.top.dst = -1
			return true
		}
		m.yield = sv
		return false
	}
	nf := m.pushFrame(g, fn, env, args, -1)
	nf.deferOf = f
	nf.inUnwind = unwinding
	return true
}

// callSync calls fn and runs it to completion (no blocking allowed).
func (m *Machine) callSync(g *G, fn *Fn, env, args []Val) Val {
	m.P.ready(fn)
	if fn.intr != nil {
		m.syncDepth++
		v := fn.intr(m, &Call{g: g, fn: fn, args: args, env: env})
		m.syncDepth--
		if v.R == blockedMark {
			panic(unsupported("blocking call of %s in nested call", fn.name))
		}
		if v.R != fallMark {
			return v
		}
		m.P.body(fn)
	}
	m.syncDepth++
	f := m.pushFrame(g, fn, env, args, -1)
	f.barrier = true
	defer func() { m.syncDepth-- }()
	m.runSlice(g, f)
	if !f.done {
		panic(unsupported("nested call of %s blocks", fn.name))
	}
	return f.result
}

func (m *Machine) callVal(g *G, f Val, args ...Val) Val {
	cl, _ := f.R.(*Closure)
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.Native != nil {
		return cl.Native(m, g, args)
	}
	return m.callSync(g, cl.Fn, cl.Env, args)
}

type msKey struct {
	t types.Type
	m string
}

// method finds the implementation of an interface method for a dynamic type.
func (m *Machine) method(t types.Type, pkg *types.Package, name string) *Fn {
	k := msKey{t, name}
	if pkg != nil && !isExported(name) {
		k.m = pkg.Path() + "." + name
	}
	if x, ok := m.P.msets.Load(k); ok {
		if x == nil {
			return nil
		}
		return x.(*Fn)
	}
	m.P.mu.Lock()
	sel := m.P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = m.P.prog.MethodValue(sel)
	}
	m.P.mu.Unlock()
	if f == nil {
		return nil
	}
	fn := m.P.fn(f)
	m.P.msets.Store(k, fn)
	return fn
}

func isExported(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

func sortedKeys[V any](mm map[string]V) []string {
	var k []string
	for x := range mm {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
