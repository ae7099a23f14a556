package main

import (
	"math"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic replaces the body of a function.
type Intrinsic func(m *Machine, c *Call) Val

var fallMark = &mark{"fall through to the body"}

var blocked = Val{R: blockedMark}
var fall = Val{R: fallMark}

var intrinsics = map[string]Intrinsic{}

func reg(name string, f Intrinsic) { intrinsics[name] = raceWrap(name, f) }

// noopPkgs: every function of these packages returns zero values.
var noopPkgs = map[string]bool{
	"log": true,
}

func noop(m *Machine, c *Call) Val { return zeroResults(c.fn) }

func lookupIntrinsic(name string, f *ssa.Function) Intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if f.Synthetic == "package initializer" {
		return noop // executed by initPackages or initBase
	}
	if f.Pkg != nil && noopPkgs[f.Pkg.Pkg.Path()] && f.Name() != "init" {
		return noop
	}
	return nil
}

func itoa(i int) string { return strconv.Itoa(i) }

var typeIDs = map[types.Type]int{}

func typeID(t types.Type) int {
	canonMu.Lock()
	defer canonMu.Unlock()
	if x, ok := typeIDs[t]; ok {
		return x
	}
	typeIDs[t] = len(typeIDs) + 1
	return len(typeIDs)
}

func tup(v ...Val) Val    { return Val{R: Tuple(v)} }
func boolVal(b bool) Val  { return Val{N: b2u(b)} }
func intVal(i int) Val    { return Val{N: uint64(int64(i))} }
func ptrVal(v Val) Val    { p := v; return Val{R: &p} }

func (m *Machine) errString(s string) Val {
	fn := m.P.lookupFn("errors", "New")
	if fn == nil {
		panic(unsupported("errors.New missing"))
	}
	return m.callSync(m.cur, fn, nil, []Val{strVal(s)})
}

func (m *Machine) symByte(label string) Val { return m.ndVar(label, "u8", 8) }

func (m *Machine) ndVar(label, kind string, w uint8) Val {
	t := m.T.Var(w)
	m.nd = append(m.nd, NdRec{Label: label, Kind: kind, T: []*Term{t}})
	return Val{R: t}
}

func field(p Val, i int) *Val {
	q, ok := p.R.(*Val)
	if !ok || q == nil {
		panic(unsupported("field of %T", p.R))
	}
	return &q.R.(*Agg).F[i]
}

func fieldByName(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field %s in %s", name, t))
}

func (p *Prog) lookupFn(pkg, name string) *Fn {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	f := pk.Func(name)
	if f == nil {
		return nil
	}
	return p.fn(f)
}

func (p *Prog) lookupType(pkg, name string) types.Type {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	t := pk.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

type mutexState struct {
	locked  bool
	owner   *G
	readers int
	waiting int
}

func (m *Machine) mutex(p Val) *mutexState {
	k, ok := p.R.(*Val)
	if !ok || k == nil {
		m.rtPanic(nilDeref)
	}
	s, _ := m.side[k].(*mutexState)
	if s == nil {
		s = &mutexState{}
		m.side[k] = s
	}
	return s
}

type wgState struct{ n int64 }
type condState struct {
	seq, woken int
	waiters    []int
}

type onceKey struct{ p *Val }

func fatal(m *Machine, msg string) {
	if m.pos >= len(m.prefix) {
		m.report("panic", "panic", "fatal error: "+msg, m.curModel())
	}
	panic(pathEnd{"panic"})
}

// resume is used by two-phase blocking intrinsics.
func (c *Call) resumed() any {
	r := c.g.resume
	if r != nil && c.g.resumeIns == c.ins && c.g.resumeF == c.f {
		c.g.resume = nil
		c.g.resumeF = nil
		return r
	}
	return nil
}

func (c *Call) setResume(x any) {
	c.g.resume, c.g.resumeIns, c.g.resumeF = x, c.ins, c.f
}

func init() {
	// ---- sync ----
	lock := func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if c.ins != nil && c.resumed() == nil && m.syncPoint(c.g) {
			return blocked
		}
		if s.locked || s.readers > 0 {
			if m.syncDepth > 0 || c.ins == nil {
				panic(unsupported("contended lock in a nested call"))
			}
			s.waiting++
			c.setResume(s)
			m.block(c.g, &Wait{what: "lock", cond: func() bool { return !s.locked && s.readers == 0 }, onWake: func() { s.waiting-- }})
			return blocked
		}
		s.locked = true
		m.acq(c.g, hbKey{s, false})
		m.acq(c.g, hbKey{s, true})
		return Val{}
	}
	unlock := func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if !s.locked {
			fatal(m, "sync: unlock of unlocked mutex")
		}
		s.locked = false
		m.rel(c.g, hbKey{s, false})
		return Val{}
	}
	rlock := func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if c.ins != nil && c.resumed() == nil && m.syncPoint(c.g) {
			return blocked
		}
		if s.locked || s.waiting > 0 {
			if m.syncDepth > 0 || c.ins == nil {
				panic(unsupported("contended lock in a nested call"))
			}
			c.setResume(s)
			m.block(c.g, &Wait{what: "rlock", cond: func() bool { return !s.locked && s.waiting == 0 }})
			return blocked
		}
		s.readers++
		m.acq(c.g, hbKey{s, false})
		return Val{}
	}
	runlock := func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if s.readers <= 0 {
			fatal(m, "sync: RUnlock of unlocked RWMutex")
		}
		s.readers--
		m.rel(c.g, hbKey{s, true})
		return Val{}
	}
	trylock := func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if s.locked || s.readers > 0 {
			return Val{}
		}
		s.locked = true
		m.acq(c.g, hbKey{s, false})
		m.acq(c.g, hbKey{s, true})
		return Val{N: 1}
	}
	for _, p := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex).", "(*sync.RWMutex)."} {
		reg(p+"Lock", lock)
		reg(p+"Unlock", unlock)
		reg(p+"TryLock", trylock)
	}
	reg("(*sync.RWMutex).RLock", rlock)
	reg("(*sync.RWMutex).RUnlock", runlock)
	reg("(*sync.RWMutex).TryRLock", func(m *Machine, c *Call) Val {
		s := m.mutex(c.args[0])
		if s.locked {
			return Val{}
		}
		s.readers++
		m.acq(c.g, hbKey{s, false})
		return Val{N: 1}
	})
	wg := func(m *Machine, p Val) *wgState {
		k, _ := p.R.(*Val)
		if k == nil {
			m.rtPanic(nilDeref)
		}
		s, _ := m.side[k].(*wgState)
		if s == nil {
			s = &wgState{}
			m.side[k] = s
		}
		return s
	}
	wgAdd := func(m *Machine, s *wgState, n int64) {
		s.n += n
		if n < 0 {
			m.rel(m.cur, hbKey{s, false})
		}
		if s.n < 0 {
			panic(goPanic{m.ifaceStr("sync: negative WaitGroup counter")})
		}
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, c *Call) Val {
		wgAdd(m, wg(m, c.args[0]), int64(m.Concretize(c.args[1], 64)))
		return Val{}
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, c *Call) Val { wgAdd(m, wg(m, c.args[0]), -1); return Val{} })
	reg("(*sync.WaitGroup).Go", func(m *Machine, c *Call) Val {
		s := wg(m, c.args[0])
		s.n++
		cl := c.args[1].R.(*Closure)
		ng := m.spawn(cl.Fn, cl.Env, nil)
		ng.onExit = func() {
			s.n--
			m.rel(ng, hbKey{s, false})
		}
		return Val{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, c *Call) Val {
		s := wg(m, c.args[0])
		if c.resumed() == nil && m.syncPoint(c.g) {
			return blocked
		}
		if s.n > 0 {
			c.setResume(s)
			m.block(c.g, &Wait{what: "WaitGroup.Wait", cond: func() bool { return s.n == 0 }})
			return blocked
		}
		m.acq(c.g, hbKey{s, false})
		return Val{}
	})
	reg("(*sync.Cond).Wait", func(m *Machine, c *Call) Val {
		k := c.args[0].R.(*Val)
		s, _ := m.side[k].(*condState)
		if s == nil {
			s = &condState{}
			m.side[k] = s
		}
		L := k.R.(*Agg).F[fieldByName(m.P.lookupType("sync", "Cond"), "L")]
		li := L.R.(*Iface)
		if r := c.resumed(); r != nil {
			// reacquire the lock
			ms := m.mutex(li.V)
			if ms.locked || ms.readers > 0 {
				c.setResume(r)
				m.block(c.g, &Wait{what: "Cond relock", cond: func() bool { return !ms.locked && ms.readers == 0 }})
				return blocked
			}
			ms.locked = true
			m.acq(c.g, hbKey{ms, false})
			m.acq(c.g, hbKey{ms, true})
			return Val{}
		}
		m.callSync(c.g, m.method(li.T, nil, "Unlock"), nil, []Val{li.V})
		s.seq++
		id := s.seq
		s.waiters = append(s.waiters, id)
		c.setResume(s)
		m.block(c.g, &Wait{what: "Cond.Wait", cond: func() bool {
			for _, w := range s.waiters {
				if w == id {
					return false
				}
			}
			return true
		}})
		return blocked
	})
	reg("(*sync.Cond).Signal", func(m *Machine, c *Call) Val {
		if s, _ := m.side[c.args[0].R.(*Val)].(*condState); s != nil && len(s.waiters) > 0 {
			s.waiters = s.waiters[1:]
		}
		return Val{}
	})
	reg("(*sync.Cond).Broadcast", func(m *Machine, c *Call) Val {
		if s, _ := m.side[c.args[0].R.(*Val)].(*condState); s != nil {
			s.waiters = nil
		}
		return Val{}
	})
	reg("(*sync.Pool).Get", func(m *Machine, c *Call) Val {
		f := *field(c.args[0], fieldByName(m.P.lookupType("sync", "Pool"), "New"))
		if f.R == nil {
			return Val{}
		}
		return m.callVal(c.g, f)
	})
	reg("(*sync.Pool).Put", noop)
	// sync.Map
	smap := func(m *Machine, p Val) *Map {
		k := p.R.(*Val)
		s, _ := m.side[k].(*Map)
		if s == nil {
			s = newMap(types.NewInterfaceType(nil, nil))
			m.side[k] = s
		}
		return s
	}
	reg("(*sync.Map).Load", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		if e := m.mapFind(smap(m, c.args[0]), c.args[1]); e != nil {
			return tup(e.V, Val{N: 1})
		}
		return tup(Val{}, Val{})
	})
	reg("(*sync.Map).Store", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		m.mapSet(smap(m, c.args[0]), c.args[1], c.args[2])
		return Val{}
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		mp := smap(m, c.args[0])
		if e := m.mapFind(mp, c.args[1]); e != nil {
			return tup(e.V, Val{N: 1})
		}
		m.mapSet(mp, c.args[1], c.args[2])
		return tup(c.args[2], Val{})
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		mp := smap(m, c.args[0])
		if e := m.mapFind(mp, c.args[1]); e != nil {
			mp.remove(e)
			return tup(e.V, Val{N: 1})
		}
		return tup(Val{}, Val{})
	})
	reg("(*sync.Map).Delete", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		m.mapDelete(smap(m, c.args[0]), c.args[1])
		return Val{}
	})
	reg("(*sync.Map).Range", func(m *Machine, c *Call) Val {
		mp := smap(m, c.args[0])
		for i := 0; i < len(mp.ents); i++ {
			if e := mp.ents[i]; e.live {
				if !m.truth(m.callVal(c.g, c.args[1], e.K, e.V)) {
					break
				}
			}
		}
		return Val{}
	})

	// ---- sync/atomic ----
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []struct {
			n string
			w uint8
		}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
			w := ty.w
			reg(pk+"Load"+ty.n, func(m *Machine, c *Call) Val {
				if m.syncPoint(c.g) {
					return blocked
				}
				return m.load(c.args[0])
			})
			reg(pk+"Store"+ty.n, func(m *Machine, c *Call) Val {
				if m.syncPoint(c.g) {
					return blocked
				}
				m.store(c.args[0], c.args[1])
				return Val{}
			})
			reg(pk+"Swap"+ty.n, func(m *Machine, c *Call) Val {
				if m.syncPoint(c.g) {
					return blocked
				}
				o := m.load(c.args[0])
				m.store(c.args[0], c.args[1])
				return o
			})
			reg(pk+"CompareAndSwap"+ty.n, func(m *Machine, c *Call) Val {
				if m.syncPoint(c.g) {
					return blocked
				}
				o := m.load(c.args[0])
				eq := false
				if w == 0 {
					eq = ptrEq(o.R, c.args[1].R)
				} else {
					eq = m.Branch(m.T.Bin(OEq, m.term(o, w), m.term(c.args[1], w)))
				}
				if eq {
					m.store(c.args[0], c.args[2])
				}
				return boolVal(eq)
			})
			if w == 0 {
				continue
			}
			rmw := func(op Op) Intrinsic {
				return func(m *Machine, c *Call) Val {
					if m.syncPoint(c.g) {
						return blocked
					}
					o := m.load(c.args[0])
					n := tval(m.T.Bin(op, m.term(o, w), m.term(c.args[1], w)))
					m.store(c.args[0], n)
					if op == OAdd {
						return n
					}
					return o
				}
			}
			reg(pk+"Add"+ty.n, rmw(OAdd))
			reg(pk+"And"+ty.n, rmw(OAnd))
			reg(pk+"Or"+ty.n, rmw(OOr))
		}
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		return *field(c.args[0], 0)
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		*field(c.args[0], 0) = c.args[1]
		return Val{}
	})

	// ---- runtime ----
	reg("runtime.Gosched", func(m *Machine, c *Call) Val {
		if m.syncDepth > 0 {
			return Val{}
		}
		if c.resumed() != nil {
			return Val{}
		}
		c.setResume(1)
		c.g.yielded = true
		m.block(c.g, &Wait{what: "gosched", cond: func() bool { return true }})
		return blocked
	})
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime/debug.FreeOSMemory",
		"runtime/debug.PrintStack", "runtime.LockOSThread", "runtime.UnlockOSThread", "(*internal/godebug.Setting).IncNonDefault",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/race.ReleaseMerge", "internal/godebug.registerMetric", "runtime.AddCleanup", "internal/msan.Read", "internal/asan.Read", "internal/msan.Write", "internal/asan.Write"} {
		reg(n, noop)
	}
	reg("runtime.NumCPU", func(m *Machine, c *Call) Val { return intVal(4) })
	reg("runtime.GOMAXPROCS", func(m *Machine, c *Call) Val { return intVal(4) })
	reg("runtime.NumGoroutine", func(m *Machine, c *Call) Val {
		n := 0
		for _, g := range m.gs {
			if !g.dead {
				n++
			}
		}
		return intVal(n)
	})
	reg("runtime.Goexit", func(m *Machine, c *Call) Val {
		f := c.g.top
		f.pan = &panicState{goexit: true}
		m.unwind(c.g)
		return blocked
	})
	reg("runtime.Caller", noop)
	reg("runtime.Callers", noop)
	reg("runtime/debug.Stack", noop)
	reg("(*internal/godebug.Setting).Value", func(m *Machine, c *Call) Val { return strVal("") })
	reg("internal/godebug.New", func(m *Machine, c *Call) Val {
		return ptrVal(zero(tinfo(c.fn.ssa.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())))
	})
	ident := func(m *Machine, c *Call) Val { return c.args[0] }
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("os.Exit", func(m *Machine, c *Call) Val {
		fatal(m, "os.Exit called")
		return Val{}
	})
	reg("os.Getenv", func(m *Machine, c *Call) Val { return strVal("") })
	reg("os.LookupEnv", func(m *Machine, c *Call) Val { return tup(strVal(""), Val{}) })
	reg("syscall.Getenv", func(m *Machine, c *Call) Val { return tup(strVal(""), Val{}) })
	reg("os.Hostname", func(m *Machine, c *Call) Val { return tup(strVal("host"), Val{}) })

	// ---- math/rand: fixed values ----
	reg("math/rand.NewSource", func(m *Machine, c *Call) Val {
		t := m.P.lookupType("math/rand", "rngSource")
		return Val{R: &Iface{T: canon(types.NewPointer(t)), V: ptrVal(Val{R: &Agg{make([]Val, 3)}})}}
	})
	reg("math/rand.New", func(m *Machine, c *Call) Val { return ptrVal(zero(tinfo(m.P.lookupType("math/rand", "Rand")))) })
	reg("(*math/rand.Rand).Seed", noop)
	reg("math/rand.Seed", noop)
	rread := func(i int) Intrinsic {
		return func(m *Machine, c *Call) Val {
			b := sliceOf(c.args[i])
			for j := range b {
				b[j] = Val{N: uint64(m.randN*31+j*7+11) & 0xff}
			}
			m.randN++
			return tup(intVal(len(b)), Val{})
		}
	}
	reg("(*math/rand.Rand).Read", rread(1))
	reg("math/rand.Read", rread(0))
	reg("crypto/rand.Read", rread(0))
	rint := func(w uint64) Intrinsic {
		return func(m *Machine, c *Call) Val {
			m.randN++
			return Val{N: uint64(m.randN*2654435761) % w}
		}
	}
	for _, n := range []string{"(*math/rand.Rand).", "math/rand."} {
		reg(n+"Int63", rint(1<<62))
		reg(n+"Int31", rint(1<<30))
		reg(n+"Int", rint(1<<62))
		reg(n+"Uint32", rint(1<<32))
		reg(n+"Uint64", rint(1<<63))
		reg(n+"Float64", func(m *Machine, c *Call) Val { return mkfl(0.5, 64) })
		bounded := func(m *Machine, c *Call) Val {
			m.randN++
			k := c.args[len(c.args)-1]
			n := m.Concretize(k, 64)
			if n == 0 {
				m.rtPanic("invalid argument to Intn")
			}
			return Val{N: uint64(m.randN*2654435761) % n}
		}
		reg(n+"Intn", bounded)
		reg(n+"Int63n", bounded)
		reg(n+"Int31n", bounded)
		reg(n+"Shuffle", noop)
	}

	// ---- bytes and strings kernels ----
	idxByte := func(get func(Val) []Val, last bool) Intrinsic {
		return func(m *Machine, c *Call) Val {
			b := get(c.args[0])
			x := c.args[1]
			for k := range b {
				i := k
				if last {
					i = len(b) - 1 - k
				}
				if b[i].R == nil && x.R == nil {
					if b[i].N == x.N&0xff {
						return intVal(i)
					}
					continue
				}
				if m.Branch(m.T.Bin(OEq, m.term(b[i], 8), m.term(x, 8))) {
					return intVal(i)
				}
			}
			return Val{N: mask(64)}
		}
	}
	count := func(get func(Val) []Val) Intrinsic {
		return func(m *Machine, c *Call) Val {
			n := 0
			for _, y := range get(c.args[0]) {
				if m.Branch(m.T.Bin(OEq, m.term(y, 8), m.term(c.args[1], 8))) {
					n++
				}
			}
			return intVal(n)
		}
	}
	index := func(get func(Val) []Val) Intrinsic {
		return func(m *Machine, c *Call) Val {
			a, b := get(c.args[0]), get(c.args[1])
			for i := 0; i+len(b) <= len(a); i++ {
				if m.Branch(m.eqBytes(a[i:i+len(b)], b)) {
					return intVal(i)
				}
			}
			return Val{N: mask(64)}
		}
	}
	lastIndex := func(get func(Val) []Val) Intrinsic {
		return func(m *Machine, c *Call) Val {
			a, b := get(c.args[0]), get(c.args[1])
			for i := len(a) - len(b); i >= 0; i-- {
				if m.Branch(m.eqBytes(a[i:i+len(b)], b)) {
					return intVal(i)
				}
			}
			return Val{N: mask(64)}
		}
	}
	compare := func(get func(Val) []Val) Intrinsic {
		return func(m *Machine, c *Call) Val {
			a, b := bytesStr(get(c.args[0])), bytesStr(get(c.args[1]))
			if m.truth(m.eq(a, b, tinfo(types.Typ[types.String]))) {
				return Val{}
			}
			if m.truth(m.strLess(a, b, false)) {
				return Val{N: mask(64)}
			}
			return Val{N: 1}
		}
	}
	B := "internal/bytealg."
	for _, n := range []string{B + "IndexByte", "bytes.IndexByte"} {
		reg(n, idxByte(sliceOf, false))
	}
	for _, n := range []string{B + "IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxByte(strBytes, false))
	}
	for _, n := range []string{B + "LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, idxByte(sliceOf, true))
	}
	for _, n := range []string{B + "LastIndexByteString", "strings.LastIndexByte"} {
		reg(n, idxByte(strBytes, true))
	}
	reg(B+"Count", count(sliceOf))
	reg(B+"CountString", count(strBytes))
	reg(B+"Index", index(sliceOf))
	reg(B+"IndexString", index(strBytes))
	reg("bytes.Index", index(sliceOf))
	reg("strings.Index", index(strBytes))
	reg("internal/stringslite.Clone", func(m *Machine, c *Call) Val { return c.args[0] })
	reg("strings.Clone", func(m *Machine, c *Call) Val { return c.args[0] })
	reg("internal/stringslite.Index", index(strBytes))
	reg("bytes.LastIndex", lastIndex(sliceOf))
	reg("strings.LastIndex", lastIndex(strBytes))
	reg(B+"Compare", compare(sliceOf))
	reg(B+"CompareString", compare(strBytes))
	reg("bytes.Compare", compare(sliceOf))
	reg("strings.Compare", compare(strBytes))
	beq := func(m *Machine, c *Call) Val { return tval(m.eqBytes(sliceOf(c.args[0]), sliceOf(c.args[1]))) }
	reg("bytes.Equal", beq)
	reg(B+"Equal", beq)
	reg(B+"MakeNoZero", func(m *Machine, c *Call) Val {
		n := int(m.Concretize(c.args[0], 64))
		return mkSlice(make([]Val, n))
	})
	reg("strings.Clone", ident)
	reg("(*strings.Builder).copyCheck", noop)

	// ---- strconv ----
	reg("strconv.Itoa", func(m *Machine, c *Call) Val { return m.fmtInt(c.args[0], 64, true) })
	reg("strconv.FormatInt", func(m *Machine, c *Call) Val {
		if c.args[0].R == nil {
			return strVal(strconv.FormatInt(int64(c.args[0].N), int(c.args[1].N)))
		}
		if c.args[1].N == 10 {
			return m.fmtInt(c.args[0], 64, true)
		}
		return fall
	})
	reg("strconv.FormatUint", func(m *Machine, c *Call) Val {
		if c.args[0].R == nil {
			return strVal(strconv.FormatUint(c.args[0].N, int(c.args[1].N)))
		}
		if c.args[1].N == 10 {
			return m.fmtInt(c.args[0], 64, false)
		}
		if c.args[1].N == 16 {
			return bytesStr(m.hexDigits([]*Term{c.args[0].R.(*Term)}))
		}
		return fall
	})
	parse := func(atoi bool, signed bool) Intrinsic {
		return func(m *Machine, c *Call) Val {
			if !atoi && (c.args[1].N != 10 && c.args[1].N != 0 || c.args[2].N != 64 && c.args[2].N != 0) {
				return fall
			}
			if x, ok := m.parseDec(c.args[0], signed); ok {
				return tup(x, Val{})
			}
			return fall
		}
	}
	reg("strconv.Atoi", parse(true, true))
	reg("strconv.ParseInt", parse(false, true))
	reg("strconv.ParseUint", parse(false, false))

	// ---- errors ----
	reg("errors.Is", func(m *Machine, c *Call) Val { return boolVal(m.errorsIs(c.g, c.args[0], c.args[1])) })
	reg("errors.As", func(m *Machine, c *Call) Val {
		t := c.args[1].R.(*Iface)
		tt := t.T.Underlying().(*types.Pointer).Elem()
		e := c.args[0]
		for e.R != nil {
			i := e.R.(*Iface)
			if it, ok := tt.Underlying().(*types.Interface); ok {
				if m.implements(i.T, it) {
					m.store(t.V, e)
					return Val{N: 1}
				}
			} else if canon(tt) == i.T {
				m.store(t.V, i.V)
				return Val{N: 1}
			}
			u := m.method(i.T, nil, "Unwrap")
			if u == nil {
				break
			}
			e = m.callSync(c.g, u, nil, []Val{i.V})
		}
		return Val{}
	})

	// ---- sort ----
	sl := func(m *Machine, c *Call) Val {
		i := c.args[0].R.(*Iface)
		b := sliceOf(i.V)
		for k := 1; k < len(b); k++ {
			for j := k; j > 0; j-- {
				if !m.truth(m.callVal(c.g, c.args[1], intVal(j), intVal(j-1))) {
					break
				}
				x, y := copyVal(b[j]), copyVal(b[j-1])
				storeVal(&b[j], y)
				storeVal(&b[j-1], x)
			}
		}
		return Val{}
	}
	reg("sort.Slice", sl)
	reg("sort.SliceStable", sl)
	reg("sort.Strings", func(m *Machine, c *Call) Val {
		b := sliceOf(c.args[0])
		conc := true
		for _, x := range b {
			if _, ok := goStr(x); !ok {
				conc = false
			}
		}
		if conc {
			sort.SliceStable(b, func(i, j int) bool { x, _ := goStr(b[i]); y, _ := goStr(b[j]); return x < y })
			return Val{}
		}
		for k := 1; k < len(b); k++ {
			for j := k; j > 0; j-- {
				if !m.truth(m.strLess(b[j], b[j-1], false)) {
					break
				}
				b[j], b[j-1] = b[j-1], b[j]
			}
		}
		return Val{}
	})

	// math
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)
	f1 := map[string]func(float64) float64{"Log": math.Log, "Exp": math.Exp, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Sqrt": math.Sqrt, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round, "Log1p": math.Log1p, "Sin": math.Sin, "Cos": math.Cos}
	for n, f := range f1 {
		f := f
		reg("math."+n, func(m *Machine, c *Call) Val {
			if c.args[0].R != nil {
				panic(unsupported("math function of a symbolic number"))
			}
			return Val{N: math.Float64bits(f(math.Float64frombits(c.args[0].N)))}
		})
	}
	f2 := map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod, "Hypot": math.Hypot}
	for n, f := range f2 {
		f := f
		reg("math."+n, func(m *Machine, c *Call) Val {
			if c.args[0].R != nil || c.args[1].R != nil {
				panic(unsupported("math function of a symbolic number"))
			}
			return Val{N: math.Float64bits(f(math.Float64frombits(c.args[0].N), math.Float64frombits(c.args[1].N)))}
		})
	}
	reg("context.WithValue", func(m *Machine, c *Call) Val {
		vt := m.P.lookupType("context", "valueCtx")
		v := zero(tinfo(vt))
		a := v.R.(*Agg)
		a.F[0], a.F[1], a.F[2] = c.args[0], c.args[1], c.args[2]
		return Val{R: &Iface{T: canon(types.NewPointer(vt)), V: ptrVal(v)}}
	})
	reg("unique.registerCleanup", noop)
	regTime()
	regNd()
	regFmt()
	regRegexp()
	regAvro()
	regReflect()
	regJSON()
}

func (m *Machine) ifaceStr(s string) Val {
	return Val{R: &Iface{T: canon(types.Typ[types.String]), V: strVal(s)}}
}

func (m *Machine) errorsIs(g *G, e, target Val) bool {
	if e.R == nil || target.R == nil {
		return e.R == nil && target.R == nil
	}
	it := tinfo(types.NewInterfaceType(nil, nil))
	for e.R != nil {
		i := e.R.(*Iface)
		switch tinfo(i.T).k {
		case KSlice, KMap, KFunc:
		default:
			if m.truth(m.eq(e, target, it)) {
				return true
			}
		}
		if f := m.method(i.T, nil, "Is"); f != nil {
			if m.truth(m.callSync(g, f, nil, []Val{i.V, target})) {
				return true
			}
		}
		u := m.method(i.T, nil, "Unwrap")
		if u == nil {
			return false
		}
		if len(u.resTI) == 1 && u.resTI[0].k == KSlice {
			for _, x := range sliceOf(m.callSync(g, u, nil, []Val{i.V})) {
				if m.errorsIs(g, x, target) {
					return true
				}
			}
			return false
		}
		e = m.callSync(g, u, nil, []Val{i.V})
	}
	return false
}

// fmtInt renders an integer in decimal; symbolic integers become digit terms
// that parseDec recognises.
func (m *Machine) fmtInt(v Val, w uint8, signed bool) Val {
	if v.R == nil {
		if signed {
			return strVal(strconv.FormatInt(sx(v.N, w), 10))
		}
		return strVal(strconv.FormatUint(v.N, 10))
	}
	t := v.R.(*Term)
	x := t
	neg := false
	if w < 64 {
		if signed {
			x = m.T.Sext(t, 64)
		} else {
			x = m.T.Zext(t, 64)
		}
	}
	if signed && m.Branch(m.T.Bin(OSlt, x, m.T.Const(0, 64))) {
		neg = true
	}
	ab := x
	if neg {
		ab = m.T.Neg(x)
	}
	n := 1
	p := uint64(10)
	for n < 20 {
		if m.Branch(m.T.Bin(OUlt, ab, m.T.Const(p, 64))) {
			break
		}
		n++
		if n < 20 {
			p *= 10
		}
	}
	var b []Val
	if neg {
		b = append(b, Val{N: '-'})
	}
	var ds []*Term
	d := uint64(1)
	for i := 1; i < n; i++ {
		d *= 10
	}
	sum := m.T.Const(0, 64)
	cond := m.T.True
	for i := 0; i < n; i++ {
		dg := m.T.Var(8)
		m.T.rng[dg] = [2]uint64{'0', '9'}
		cond = m.T.And(cond, m.T.And(m.T.rawUle(m.T.Const('0', 8), dg), m.T.rawUle(dg, m.T.Const('9', 8))))
		v := m.T.Bin(OSub, m.T.Zext(dg, 64), m.T.Const('0', 64))
		sum = m.T.Bin(OAdd, sum, m.T.Bin(OMul, v, m.T.Const(d, 64)))
		b = append(b, Val{R: dg})
		ds = append(ds, dg)
		d /= 10
	}
	if n == 20 { // only 1xxxxxxxxxxxxxxxxxxx fits: no wrap-around otherwise
		cond = m.T.And(cond, m.T.rawEq(ds[0], m.T.Const('1', 8)))
	}
	m.Assume(m.T.And(cond, m.T.Bin(OEq, sum, ab)))
	if m.decChunk == nil {
		m.decChunk = map[*Term]decChunk{}
	}
	if len(ds) > 0 {
		m.decChunk[ds[0]] = decChunk{digits: ds, x: x, neg: neg, signed: signed}
	}
	return bytesStr(b)
}

// parseDec recognises the decimal rendering of a symbolic integer.
func (m *Machine) parseDec(s Val, signed bool) (Val, bool) {
	if g, ok := goStr(s); ok {
		if signed {
			x, err := strconv.ParseInt(g, 10, 64)
			return Val{N: uint64(x)}, err == nil
		}
		x, err := strconv.ParseUint(g, 10, 64)
		return Val{N: x}, err == nil
	}
	b := strBytes(s)
	neg := false
	if len(b) > 0 && b[0].R == nil && b[0].N == '-' {
		neg = true
		b = b[1:]
	}
	if len(b) == 0 {
		return Val{}, false
	}
	t, ok := b[0].R.(*Term)
	if !ok {
		return Val{}, false
	}
	dc, ok := m.decChunk[t]
	if !ok || len(dc.digits) != len(b) || dc.neg != neg {
		return Val{}, false
	}
	for i, x := range b {
		if x.R != any(dc.digits[i]) {
			return Val{}, false
		}
	}
	if signed && !dc.signed && m.Branch(m.T.Bin(OSlt, dc.x, m.T.Const(0, 64))) {
		return Val{}, false
	}
	if !signed && dc.neg {
		return Val{}, false
	}
	return tval(dc.x), true
}

func hasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }
