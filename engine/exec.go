package main

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type mark struct{ s string }

var blockedMark = &mark{"blocked"}

const nilDeref = "invalid memory address or nil pointer dereference"

func (m *Machine) get(f *Frame, o *opnd) Val {
	switch o.k {
	case 0:
		return f.regs[o.i]
	case 1:
		return o.v
	case 2:
		return Val{R: m.global(o.g)}
	}
	return Val{}
}

func (m *Machine) getAll(f *Frame, os []opnd) []Val {
	r := make([]Val, len(os))
	for i := range os {
		r[i] = m.get(f, &os[i])
	}
	return r
}

func (m *Machine) jump(f *Frame, to int) {
	from := f.blk
	f.prev = from
	f.blk, f.pc = to, 0
	b := &f.fn.blocks[to]
	if len(b.phis) == 0 {
		return
	}
	e := -1
	for i, p := range b.pred {
		if p == from {
			e = i
			break
		}
	}
	if len(b.phis) == 1 {
		f.regs[b.phis[0].dst] = m.get(f, &b.phis[0].edges[e])
		return
	}
	tmp := make([]Val, len(b.phis))
	for i := range b.phis {
		tmp[i] = m.get(f, &b.phis[i].edges[e])
	}
	for i := range b.phis {
		f.regs[b.phis[i].dst] = tmp[i]
	}
}

// exec runs instructions of g until it yields.
func (m *Machine) exec(g *G, stop *Frame) {
	for {
		if g.dead || m.yield || m.cur != g || (stop != nil && stop.done) {
			return
		}
		f := g.top
		I := &f.fn.blocks[f.blk].ins[f.pc]
		m.steps++
		if m.steps > m.cfg.maxSteps {
			if m.lenient {
				panic(unsupported("init too long"))
			}
			m.hang("step limit exceeded")
		}
		switch I.op {
		case IAlloc:
			v := zero(I.ti)
			f.regs[I.dst] = Val{R: &v}
		case IBin:
			f.regs[I.dst] = m.binop(I, m.get(f, &I.a), m.get(f, &I.b))
		case INot:
			v := m.get(f, &I.a)
			if v.R != nil {
				f.regs[I.dst] = tval(m.T.Not(v.R.(*Term)))
			} else {
				f.regs[I.dst] = Val{N: v.N ^ 1}
			}
		case INeg:
			v := m.get(f, &I.a)
			if I.ti.k == KFloat {
				f.regs[I.dst] = mkfl(-fl(v, I.ti.w), I.ti.w)
			} else if v.R != nil {
				f.regs[I.dst] = tval(m.T.Neg(v.R.(*Term)))
			} else {
				f.regs[I.dst] = Val{N: (-v.N) & mask(I.ti.w)}
			}
		case ICompl:
			v := m.get(f, &I.a)
			if v.R != nil {
				f.regs[I.dst] = tval(m.T.BvNot(v.R.(*Term)))
			} else {
				f.regs[I.dst] = Val{N: ^v.N & mask(I.ti.w)}
			}
		case ILoad:
			if m.cfg.memPoints && f.fn.repo && I.a.k != 1 && m.syncPoint(g) {
				return
			}
			f.regs[I.dst] = m.load(m.get(f, &I.a))
		case IStore:
			if m.cfg.memPoints && f.fn.repo && m.syncPoint(g) {
				return
			}
			m.store(m.get(f, &I.a), m.get(f, &I.b))
		case IMove:
			f.regs[I.dst] = m.get(f, &I.a)
		case IConvert:
			f.regs[I.dst] = m.convert(m.get(f, &I.a), I.ti, I.tj)
		case IExtract:
			f.regs[I.dst] = m.get(f, &I.a).R.(Tuple)[I.i]
		case IField:
			f.regs[I.dst] = m.get(f, &I.a).R.(*Agg).F[I.i]
		case IFieldAddr:
			p := m.get(f, &I.a)
			q, ok := p.R.(*Val)
			if !ok || q == nil {
				if p.R == nil || ok {
					m.rtPanic(nilDeref)
				}
				panic(unsupported("field address of %T", p.R))
			}
			a, ok := q.R.(*Agg)
			if !ok {
				panic(unsupported("field address in %T", q.R))
			}
			f.regs[I.dst] = Val{R: &a.F[I.i]}
		case IIndexAddr:
			f.regs[I.dst] = m.indexAddr(I, m.get(f, &I.a), m.get(f, &I.b))
		case IIndex, ILookup:
			x := m.get(f, &I.a)
			if I.ti.k == KMap {
				if m.cfg.memPoints && f.fn.repo && m.syncPoint(g) {
					return
				}
				mp, _ := x.R.(*Map)
				m.mapUse(g, mp, false)
				v, ok := m.mapGet(mp, m.get(f, &I.b), I.ti)
				if I.flag {
					f.regs[I.dst] = Val{R: Tuple{v, Val{N: b2u(ok)}}}
				} else {
					f.regs[I.dst] = v
				}
			} else {
				f.regs[I.dst] = m.index(I, x, m.get(f, &I.b))
			}
		case IJump:
			m.jump(f, f.fn.blocks[f.blk].succ[0])
			continue
		case IIf:
			c := m.get(f, &I.a)
			b := c.N == 1
			if c.R != nil {
				b = m.Branch(c.R.(*Term))
			}
			if b {
				m.jump(f, f.fn.blocks[f.blk].succ[0])
			} else {
				m.jump(f, f.fn.blocks[f.blk].succ[1])
			}
			continue
		case IReturn:
			var res Val
			switch len(I.args) {
			case 0:
			case 1:
				res = m.get(f, &I.args[0])
			default:
				res = Val{R: Tuple(m.getAll(f, I.args))}
			}
			m.ret(g, res)
			if g.dead {
				return
			}
			continue
		case ICall:
			if I.fn != nil {
				m.call(g, f, I, I.fn, nil, m.getAll(f, I.args))
				continue
			}
			cl, _ := m.get(f, &I.a).R.(*Closure)
			if cl == nil {
				m.rtPanic(nilDeref)
			}
			if cl.Native != nil {
				r := cl.Native(m, g, m.getAll(f, I.args))
				if I.dst >= 0 {
					f.regs[I.dst] = r
				}
				break
			}
			m.call(g, f, I, cl.Fn, cl.Env, m.getAll(f, I.args))
			continue
		case IInvoke:
			fn, recv := m.resolve(m.get(f, &I.a), I)
			args := make([]Val, 1+len(I.args))
			args[0] = recv
			for i := range I.args {
				args[i+1] = m.get(f, &I.args[i])
			}
			m.call(g, f, I, fn, nil, args)
			continue
		case IBuiltin:
			if m.cfg.memPoints && f.fn.repo && (I.name == "delete" || I.name == "close") && m.syncPoint(g) {
				return
			}
			r := m.builtin(g, f, I, m.getAll(f, I.args))
			if I.dst >= 0 {
				f.regs[I.dst] = r
			}
		case IDefer:
			d := deferred{kind: I.kind, ins: I, args: m.getAll(f, I.args)}
			switch I.kind {
			case IInvoke:
				fn, recv := m.resolve(m.get(f, &I.a), I)
				d.fnp = fn
				d.args = append([]Val{recv}, d.args...)
			case ICall:
				if I.fn != nil {
					d.fnp = I.fn
				} else {
					d.fn = m.get(f, &I.a)
				}
			}
			f.defers = append(f.defers, d)
		case IRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				m.callDeferred(g, f, d, false)
				continue
			}
		case IGo:
			m.goStmt(g, f, I)
		case IMakeChan:
			n := int(int64(m.Concretize(m.get(f, &I.a), 64)))
			if n < 0 {
				m.rtPanic("makechan: size out of range")
			}
			f.regs[I.dst] = Val{R: m.newChan(n, I.typ.Underlying().(*types.Chan).Elem())}
		case IMakeClosure:
			f.regs[I.dst] = Val{R: &Closure{Fn: I.fn, Env: m.getAll(f, I.args)}}
		case IMakeIface:
			f.regs[I.dst] = Val{R: &Iface{I.typ, m.get(f, &I.a)}}
		case IMakeMap:
			f.regs[I.dst] = Val{R: newMap(I.typ)}
		case IMakeSlice:
			n := m.allocLen(m.get(f, &I.a))
			c := m.allocLen(m.get(f, &I.b))
			if n < 0 || n > 1<<26 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<26 {
				m.rtPanic("makeslice: cap out of range")
			}
			fs := make([]Val, c)
			if I.ti.k == KStruct || I.ti.k == KArray {
				for i := range fs {
					fs[i] = zero(I.ti)
				}
			}
			f.regs[I.dst] = Val{R: &Slice{A: &Agg{fs}, Len: n, Cap: c}}
		case IMapUpdate:
			if m.cfg.memPoints && f.fn.repo && m.syncPoint(g) {
				return
			}
			mp, _ := m.get(f, &I.a).R.(*Map)
			if mp == nil {
				panic(goPanic{m.plainError("assignment to entry in nil map")})
			}
			m.mapUse(g, mp, true)
			m.mapSet(mp, m.get(f, &I.b), m.get(f, &I.c))
		case IRange:
			x := m.get(f, &I.a)
			if I.ti.k == KString {
				f.regs[I.dst] = Val{R: &StrIter{s: x}}
			} else {
				mp, _ := x.R.(*Map)
				m.mapUse(g, mp, false)
				f.regs[I.dst] = Val{R: m.newIter(mp)}
			}
		case INext:
			f.regs[I.dst] = m.next(I, m.get(f, &I.a))
		case IPanic:
			v := m.get(f, &I.a)
			if v.R == nil {
				v = m.rtError("panic called with nil argument")
			}
			panic(goPanic{v})
		case ISend:
			if m.syncPoint(g) {
				return
			}
			ch, _ := m.get(f, &I.a).R.(*Chan)
			v := m.get(f, &I.b)
			if !m.trySend(g, ch, v) {
				m.block(g, &Wait{what: "send", cases: []WCase{{ch, true, v}}, complete: func(int, Val, bool) { f.pc++ }})
				return
			}
		case IRecv:
			if m.syncPoint(g) {
				return
			}
			ch, _ := m.get(f, &I.a).R.(*Chan)
			set := func(v Val, ok bool) {
				if I.flag {
					f.regs[I.dst] = Val{R: Tuple{v, Val{N: b2u(ok)}}}
				} else {
					f.regs[I.dst] = v
				}
			}
			v, ok, done := m.tryRecv(g, ch)
			if !done {
				m.block(g, &Wait{what: "receive", cases: []WCase{{ch, false, Val{}}}, complete: func(_ int, v Val, ok bool) { set(v, ok); f.pc++ }})
				return
			}
			set(v, ok)
		case ISelect:
			if m.syncPoint(g) {
				return
			}
			if !m.doSelect(g, f, I) {
				return
			}
		case ISlice:
			f.regs[I.dst] = m.slice(I, f)
		case ISliceToArr:
			x := m.get(f, &I.a)
			if x.R == nil {
				if I.i > 0 {
					m.rtPanic("cannot convert slice with length 0 to array or pointer to array with length " + itoa(I.i))
				}
				f.regs[I.dst] = Val{}
				break
			}
			s := x.R.(*Slice)
			if s.Len < I.i {
				m.rtPanic("cannot convert slice with length " + itoa(s.Len) + " to array or pointer to array with length " + itoa(I.i))
			}
			av := Val{R: &Agg{s.A.F[s.Off : s.Off+I.i : s.Off+I.i]}}
			f.regs[I.dst] = Val{R: &av}
		case ITypeAssert:
			f.regs[I.dst] = m.typeAssert(I, m.get(f, &I.a))
		case INop:
		default:
			panic(unsupported("instruction %s", I.name))
		}
		f.pc++
	}
}

func (m *Machine) allocLen(v Val) int {
	return int(int64(m.Concretize(v, 64)))
}

func (m *Machine) resolve(x Val, I *Ins) (*Fn, Val) {
	i, _ := x.R.(*Iface)
	if i == nil {
		m.rtPanic(nilDeref)
	}
	var pkg *types.Package
	if I.mfn != nil {
		pkg = I.mfn.Pkg()
	}
	fn := m.method(i.T, pkg, I.mfn.Name())
	if fn == nil {
		panic(unsupported("method %s of %s", I.mfn.Name(), i.T))
	}
	return fn, i.V
}

type Call struct {
	g    *G
	fn   *Fn
	args []Val
	env  []Val
	f    *Frame
	ins  *Ins
}

// finish completes a blocked intrinsic from the outside.
func (c *Call) finish(v Val) {
	if c.ins.dst >= 0 {
		c.f.regs[c.ins.dst] = v
	}
	c.f.pc++
}

func (m *Machine) call(g *G, f *Frame, I *Ins, fn *Fn, env, args []Val) {
	m.P.ready(fn)
	if fn.intr != nil {
		r := fn.intr(m, &Call{g, fn, args, env, f, I})
		if r.R == blockedMark {
			return
		}
		if r.R == fallMark {
			m.P.body(fn)
			f.pc++
			m.pushFrame(g, fn, env, args, I.dst)
			return
		}
		f.pc++
		if I.dst >= 0 && g.top == f {
			f.regs[I.dst] = r
		}
		return
	}
	f.pc++
	m.pushFrame(g, fn, env, args, I.dst)
}

func (m *Machine) goStmt(g *G, f *Frame, I *Ins) {
	args := m.getAll(f, I.args)
	var fn *Fn
	var env []Val
	switch I.kind {
	case IInvoke:
		var recv Val
		fn, recv = m.resolve(m.get(f, &I.a), I)
		args = append([]Val{recv}, args...)
	case ICall:
		if I.fn != nil {
			fn = I.fn
		} else {
			cl, _ := m.get(f, &I.a).R.(*Closure)
			if cl == nil {
				m.rtPanic(nilDeref)
			}
			fn, env = cl.Fn, cl.Env
		}
	default:
		panic(unsupported("go builtin"))
	}
	m.spawn(fn, env, args)
}

func (m *Machine) spawn(fn *Fn, env, args []Val) *G {
	m.P.ready(fn)
	ng := m.newG(fn.name)
	if fn.intr != nil {
		// run the intrinsic in a trampoline frame
		tr := trampoline(fn, len(args))
		fr := &Frame{fn: tr, regs: make([]Val, len(args)+1), dst: -1, prev: -1}
		copy(fr.regs, args)
		ng.top = fr
		ng.depth++
		return ng
	}
	m.pushFrame(ng, fn, env, args, -1)
	return ng
}

func trampoline(fn *Fn, n int) *Fn {
	t := &Fn{name: "go " + fn.name, recover: -1, nregs: n + 1}
	args := make([]opnd, n)
	for i := range args {
		args[i] = opnd{i: i}
	}
	t.blocks = []Blk{{ins: []Ins{{op: ICall, fn: fn, args: args, dst: n}, {op: IReturn, dst: -1}}}}
	t.once.Do(func() {})
	return t
}

// ---- memory ----

func (m *Machine) load(p Val) Val {
	switch q := p.R.(type) {
	case *Val:
		if q == nil {
			break
		}
		return copyVal(*q)
	case nil:
	case *SymPtr:
		return m.symLoad(q)
	case *SlicePtr:
		if q.S == nil || q.S.Len == 0 {
			break
		}
		return copyVal(q.S.A.F[q.S.Off])
	default:
		panic(unsupported("load through %T", p.R))
	}
	m.rtPanic(nilDeref)
	return Val{}
}

func (m *Machine) store(p, v Val) {
	switch q := p.R.(type) {
	case *Val:
		if q == nil {
			break
		}
		storeVal(q, v)
		return
	case nil:
	case *SymPtr:
		i := int(m.Concretize(Val{R: q.Idx}, q.Idx.w))
		storeVal(&q.A.F[q.Off+i], v)
		return
	default:
		panic(unsupported("store through %T", p.R))
	}
	m.rtPanic(nilDeref)
}

func (m *Machine) symLoad(q *SymPtr) Val {
	vs := q.A.F[q.Off : q.Off+q.Len]
	if len(vs) > 256 {
		return copyVal(vs[m.Concretize(Val{R: q.Idx}, q.Idx.w)])
	}
	return m.selectW(vs, q.Idx, q.W)
}

// selectW reads vs[idx] (idx known in range) as an ite chain.
func (m *Machine) selectW(vs []Val, idx *Term, w uint8) Val {
	r := m.term(vs[len(vs)-1], w)
	runs := len(vs) > 4
	for _, v := range vs {
		runs = runs && v.R == nil
	}
	if runs {
		// a table: one comparison for each run of equal entries
		for i := len(vs) - 2; i >= 0; i-- {
			if vs[i].N != vs[i+1].N {
				r = m.T.Ite(m.T.Bin(OUlt, idx, m.T.Const(uint64(i+1), idx.w)), m.term(vs[i], w), r)
			}
		}
		return tval(r)
	}
	for i := len(vs) - 2; i >= 0; i-- {
		r = m.T.Ite(m.T.Bin(OEq, idx, m.T.Const(uint64(i), idx.w)), m.term(vs[i], w), r)
	}
	return tval(r)
}

func (m *Machine) checkIdx(i Val, w uint8, signed bool, n int) {
	if i.R == nil {
		if i.N >= uint64(n) && (n <= 0 || i.N >= uint64(n)) {
			x := int64(i.N)
			if signed {
				x = sx(i.N, w)
			}
			m.rtPanic("index out of range [" + itoa(int(x)) + "] with length " + itoa(n))
		}
		return
	}
	t := i.R.(*Term)
	if w < 64 {
		if signed {
			t = m.T.Sext(t, 64)
		} else {
			t = m.T.Zext(t, 64)
		}
	}
	if !m.Branch(m.T.Bin(OUlt, t, m.T.Const(uint64(n), 64))) {
		m.rtPanic("index out of range with length " + itoa(n))
	}
}

func (m *Machine) indexAddr(I *Ins, x, i Val) Val {
	var a *Agg
	var off, n int
	switch p := x.R.(type) {
	case *Slice:
		a, off, n = p.A, p.Off, p.Len
	case *Val:
		if p == nil {
			m.rtPanic(nilDeref)
		}
		ag, ok := p.R.(*Agg)
		if !ok {
			panic(unsupported("index of %T", p.R))
		}
		a, n = ag, len(ag.F)
	case nil:
		if I.ti.k == KPtr {
			m.rtPanic(nilDeref)
		}
	default:
		panic(unsupported("index of %T", x.R))
	}
	m.checkIdx(i, I.tj.w, I.tj.signed, n)
	if i.R != nil {
		et := elemTI(I.ti)
		if I.ti.k == KPtr {
			et = et.elem
		}
		if et.k == KInt || et.k == KBool {
			return Val{R: &SymPtr{a, off, n, i.R.(*Term), et.w}}
		}
		return Val{R: &a.F[off+int(m.Concretize(i, I.tj.w))]}
	}
	return Val{R: &a.F[off+int(i.N)]}
}

func (m *Machine) index(I *Ins, x, i Val) Val {
	if I.ti.k == KString {
		n := strLen(x)
		m.checkIdx(i, I.tj.w, I.tj.signed, n)
		if i.R != nil {
			return m.selectW(strBytes(x), i.R.(*Term), 8)
		}
		return strAt(x, int(i.N))
	}
	a := x.R.(*Agg)
	m.checkIdx(i, I.tj.w, I.tj.signed, len(a.F))
	if i.R != nil {
		if I.ti.elem.k == KInt {
			return m.selectW(a.F, i.R.(*Term), I.ti.elem.w)
		}
		return a.F[m.Concretize(i, I.tj.w)]
	}
	return a.F[i.N]
}

func (m *Machine) optIdx(f *Frame, o *opnd, def int) int {
	if o.k == 3 {
		return def
	}
	v := m.get(f, o)
	if v.R != nil {
		return int(int64(m.Concretize(v, v.R.(*Term).w)))
	}
	return int(int64(v.N))
}

func (m *Machine) slice(I *Ins, f *Frame) Val {
	x := m.get(f, &I.a)
	if I.ti.k == KString {
		n := strLen(x)
		lo := m.optIdx(f, &I.args[0], 0)
		hi := m.optIdx(f, &I.args[1], n)
		if hi < 0 || hi > n {
			m.rtPanic("slice bounds out of range [:" + itoa(hi) + "] with length " + itoa(n))
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [" + itoa(lo) + ":" + itoa(hi) + "]")
		}
		return strSub(x, lo, hi)
	}
	var a *Agg
	var off, n, c int
	switch p := x.R.(type) {
	case nil:
		if I.ti.k == KPtr {
			m.rtPanic(nilDeref)
		}
	case *Slice:
		a, off, n, c = p.A, p.Off, p.Len, p.Cap
	case *Val:
		if p == nil {
			m.rtPanic(nilDeref)
		}
		a = p.R.(*Agg)
		n, c = len(a.F), len(a.F)
	default:
		panic(unsupported("slice of %T", x.R))
	}
	lo := m.optIdx(f, &I.args[0], 0)
	hi := m.optIdx(f, &I.args[1], n)
	mx := m.optIdx(f, &I.args[2], c)
	if mx < 0 || mx > c {
		m.rtPanic("slice bounds out of range [::" + itoa(mx) + "] with capacity " + itoa(c))
	}
	if hi < 0 || hi > mx {
		m.rtPanic("slice bounds out of range [:" + itoa(hi) + "] with capacity " + itoa(c))
	}
	if lo < 0 || lo > hi {
		m.rtPanic("slice bounds out of range [" + itoa(lo) + ":" + itoa(hi) + "]")
	}
	if a == nil {
		return Val{}
	}
	return Val{R: &Slice{A: a, Off: off + lo, Len: hi - lo, Cap: mx - lo}}
}

// ---- operators ----

func (m *Machine) binop(I *Ins, x, y Val) Val {
	t := I.ti
	switch I.tok {
	case token.EQL:
		return m.eq(x, y, t)
	case token.NEQ:
		v := m.eq(x, y, t)
		if v.R != nil {
			return tval(m.T.Not(v.R.(*Term)))
		}
		return Val{N: v.N ^ 1}
	}
	switch t.k {
	case KInt:
		if I.tok == token.SHL || I.tok == token.SHR {
			return m.shift(I, x, y)
		}
		if x.R == nil && y.R == nil {
			return m.intop(I.tok, x.N, y.N, t)
		}
		return m.symop(I.tok, m.term(x, t.w), m.term(y, t.w), t)
	case KString:
		switch I.tok {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	case KFloat:
		a, b := fl(x, t.w), fl(y, t.w)
		switch I.tok {
		case token.ADD:
			return mkfl(a+b, t.w)
		case token.SUB:
			return mkfl(a-b, t.w)
		case token.MUL:
			return mkfl(a*b, t.w)
		case token.QUO:
			return mkfl(a/b, t.w)
		case token.LSS:
			return Val{N: b2u(a < b)}
		case token.LEQ:
			return Val{N: b2u(a <= b)}
		case token.GTR:
			return Val{N: b2u(a > b)}
		case token.GEQ:
			return Val{N: b2u(a >= b)}
		}
	case KBool:
		a, b := m.term(x, 0), m.term(y, 0)
		switch I.tok {
		case token.AND, token.LAND:
			return tval(m.T.And(a, b))
		case token.OR, token.LOR:
			return tval(m.T.Or(a, b))
		}
	}
	panic(unsupported("binop %s on %s", I.tok, t.t))
}

func (m *Machine) intop(op token.Token, a, b uint64, t *TI) Val {
	mk := mask(t.w)
	switch op {
	case token.ADD:
		return Val{N: (a + b) & mk}
	case token.SUB:
		return Val{N: (a - b) & mk}
	case token.MUL:
		return Val{N: (a * b) & mk}
	case token.AND:
		return Val{N: a & b}
	case token.OR:
		return Val{N: a | b}
	case token.XOR:
		return Val{N: a ^ b}
	case token.AND_NOT:
		return Val{N: a &^ b}
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
		}
		var o Op
		switch {
		case op == token.QUO && t.signed:
			o = OSDiv
		case op == token.QUO:
			o = OUDiv
		case t.signed:
			o = OSRem
		default:
			o = OURem
		}
		return Val{N: evalOp(o, t.w, t.w, 0, a, b, 0)}
	}
	if t.signed {
		x, y := sx(a, t.w), sx(b, t.w)
		switch op {
		case token.LSS:
			return Val{N: b2u(x < y)}
		case token.LEQ:
			return Val{N: b2u(x <= y)}
		case token.GTR:
			return Val{N: b2u(x > y)}
		case token.GEQ:
			return Val{N: b2u(x >= y)}
		}
	}
	switch op {
	case token.LSS:
		return Val{N: b2u(a < b)}
	case token.LEQ:
		return Val{N: b2u(a <= b)}
	case token.GTR:
		return Val{N: b2u(a > b)}
	case token.GEQ:
		return Val{N: b2u(a >= b)}
	}
	panic(unsupported("int op %s", op))
}

func (m *Machine) symop(op token.Token, a, b *Term, t *TI) Val {
	T := m.T
	lt, le := OUlt, OUle
	if t.signed {
		lt, le = OSlt, OSle
	}
	var r *Term
	switch op {
	case token.ADD:
		r = T.Bin(OAdd, a, b)
	case token.SUB:
		r = T.Bin(OSub, a, b)
	case token.MUL:
		r = T.Bin(OMul, a, b)
	case token.AND:
		r = T.Bin(OAnd, a, b)
	case token.OR:
		r = T.Bin(OOr, a, b)
	case token.XOR:
		r = T.Bin(OXor, a, b)
	case token.AND_NOT:
		r = T.Bin(OAnd, a, T.BvNot(b))
	case token.LSS:
		r = T.Bin(lt, a, b)
	case token.LEQ:
		r = T.Bin(le, a, b)
	case token.GTR:
		r = T.Bin(lt, b, a)
	case token.GEQ:
		r = T.Bin(le, b, a)
	case token.QUO, token.REM:
		if m.Branch(T.Bin(OEq, b, T.Const(0, t.w))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && t.signed:
			o = OSDiv
		case op == token.REM && t.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		r = T.Bin(o, a, b)
	default:
		panic(unsupported("sym op %s", op))
	}
	return tval(r)
}

func (m *Machine) shift(I *Ins, x, y Val) Val {
	t, yt := I.ti, I.tj
	if y.R == nil {
		s := y.N
		if yt.signed && sx(y.N, yt.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if x.R == nil {
			if I.tok == token.SHL {
				if s >= 64 {
					return Val{}
				}
				return Val{N: (x.N << s) & mask(t.w)}
			}
			if t.signed {
				if s > 63 {
					s = 63
				}
				return Val{N: uint64(sx(x.N, t.w)>>s) & mask(t.w)}
			}
			if s >= 64 {
				return Val{}
			}
			return Val{N: x.N >> s}
		}
		if s > uint64(t.w) {
			s = uint64(t.w)
		}
		op := OShl
		if I.tok == token.SHR {
			op = OLshr
			if t.signed {
				op = OAshr
				if s >= uint64(t.w) {
					s = uint64(t.w) - 1
				}
			}
		}
		if s >= uint64(t.w) {
			return Val{}
		}
		return tval(m.T.Bin(op, x.R.(*Term), m.T.Const(s, t.w)))
	}
	ys := y.R.(*Term)
	if yt.signed && m.Branch(m.T.Bin(OSlt, ys, m.T.Const(0, yt.w))) {
		m.rtPanic("negative shift amount")
	}
	op := OShl
	if I.tok == token.SHR {
		op = OLshr
		if t.signed {
			op = OAshr
		}
	}
	// saturate the shift count at the width
	big := m.T.False
	var cnt *Term
	if yt.w > t.w || (uint64(t.w) < uint64(1)<<yt.w) {
		big = m.T.Bin(OUle, m.T.Const(uint64(t.w), yt.w), ys)
	}
	if yt.w >= t.w {
		cnt = m.T.Extract(ys, 0, t.w)
	} else {
		cnt = m.T.Zext(ys, t.w)
	}
	xs := m.term(x, t.w)
	r := m.T.Bin(op, xs, cnt)
	var sat *Term
	if op == OAshr {
		sat = m.T.Bin(OAshr, xs, m.T.Const(uint64(t.w)-1, t.w))
	} else {
		sat = m.T.Const(0, t.w)
	}
	return tval(m.T.Ite(big, sat, r))
}

func (m *Machine) strLess(a, b Val, orEq bool) Val {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		if orEq {
			return Val{N: b2u(x <= y)}
		}
		return Val{N: b2u(x < y)}
	}
	xb, yb := strBytes(a), strBytes(b)
	n := len(xb)
	if len(yb) < n {
		n = len(yb)
	}
	var r *Term
	if orEq {
		r = m.T.Bool(len(xb) <= len(yb))
	} else {
		r = m.T.Bool(len(xb) < len(yb))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(xb[i], 8), m.term(yb[i], 8)
		r = m.T.Or(m.T.Bin(OUlt, p, q), m.T.And(m.T.Bin(OEq, p, q), r))
	}
	return tval(r)
}

func (m *Machine) eqBytes(a, b []Val) *Term {
	if len(a) != len(b) {
		return m.T.False
	}
	r := m.T.True
	for i := range a {
		if a[i].R == nil && b[i].R == nil {
			if a[i].N != b[i].N {
				return m.T.False
			}
			continue
		}
		r = m.T.And(r, m.T.Bin(OEq, m.term(a[i], 8), m.term(b[i], 8)))
		if r == m.T.False {
			return r
		}
	}
	return r
}

func (m *Machine) eq(x, y Val, t *TI) Val {
	switch t.k {
	case KBool, KInt:
		if x.R == nil && y.R == nil {
			return Val{N: b2u(x.N == y.N)}
		}
		return tval(m.T.Bin(OEq, m.term(x, t.w), m.term(y, t.w)))
	case KFloat:
		return Val{N: b2u(fl(x, t.w) == fl(y, t.w))}
	case KString:
		a, ok1 := goStr(x)
		b, ok2 := goStr(y)
		if ok1 && ok2 {
			return Val{N: b2u(a == b)}
		}
		return tval(m.eqBytes(strBytes(x), strBytes(y)))
	case KStruct, KArray:
		a, b := x.R.(*Agg), y.R.(*Agg)
		r := m.T.True
		for i := range a.F {
			ft := t.elem
			if t.k == KStruct {
				ft = t.fields[i]
				if t.u.(*types.Struct).Field(i).Name() == "_" {
					continue
				}
			}
			e := m.eq(a.F[i], b.F[i], ft)
			r = m.T.And(r, m.term(e, 0))
			if r == m.T.False {
				break
			}
		}
		return tval(r)
	case KIface:
		a, _ := x.R.(*Iface)
		b, _ := y.R.(*Iface)
		if a == nil || b == nil {
			return Val{N: b2u(a == nil && b == nil)}
		}
		if a.T != b.T {
			return Val{}
		}
		bt := tinfo(a.T)
		switch bt.k {
		case KSlice, KMap, KFunc:
			panic(goPanic{m.rtError("comparing uncomparable type " + a.T.String())})
		}
		return m.eq(a.V, b.V, bt)
	case KSlice, KMap, KFunc:
		return Val{N: b2u(x.R == nil && y.R == nil)}
	default: // pointers, channels
		return Val{N: b2u(ptrEq(x.R, y.R))}
	}
}

func ptrEq(a, b any) bool {
	if p, ok := a.(*Val); ok && p == nil {
		a = nil
	}
	if p, ok := b.(*Val); ok && p == nil {
		b = nil
	}
	if p, ok := a.(*SlicePtr); ok {
		if q, ok := b.(*SlicePtr); ok {
			return p.S.A == q.S.A && p.S.Off == q.S.Off
		}
	}
	return a == b
}

func (m *Machine) convert(v Val, from, to *TI) Val {
	if _, ok := to.t.(*types.TypeParam); ok {
		panic(unsupported("convert to type parameter"))
	}
	switch {
	case from.k == KInt && to.k == KInt:
		if v.R == nil {
			if from.signed {
				return Val{N: uint64(sx(v.N, from.w)) & mask(to.w)}
			}
			return Val{N: v.N & mask(to.w)}
		}
		t := v.R.(*Term)
		if to.w <= from.w {
			return tval(m.T.Extract(t, 0, to.w))
		}
		if from.signed {
			return tval(m.T.Sext(t, to.w))
		}
		return tval(m.T.Zext(t, to.w))
	case from.k == KInt && to.k == KFloat:
		n := m.Concretize(v, from.w)
		if from.signed {
			return mkfl(float64(sx(n, from.w)), to.w)
		}
		return mkfl(float64(n), to.w)
	case from.k == KFloat && to.k == KFloat:
		return mkfl(fl(v, from.w), to.w)
	case from.k == KFloat && to.k == KInt:
		x := fl(v, from.w)
		if to.signed {
			return Val{N: uint64(int64(x)) & mask(to.w)}
		}
		if x >= math.MaxInt64 {
			return Val{N: uint64(x) & mask(to.w)}
		}
		return Val{N: uint64(int64(x)) & mask(to.w)}
	case to.k == KString && from.k == KSlice:
		if e := elemTI(from); e.w == 8 {
			return bytesStr(sliceOf(v))
		}
		var rs []rune
		for _, r := range sliceOf(v) {
			rs = append(rs, rune(m.Concretize(r, 32)))
		}
		return strVal(string(rs))
	case to.k == KString && from.k == KInt:
		if v.R != nil {
			t := v.R.(*Term)
			if m.Branch(m.T.Bin(OUlt, t, m.T.Const(0x80, t.w))) {
				return bytesStr([]Val{tval(m.T.Extract(t, 0, 8))})
			}
		}
		n := m.Concretize(v, from.w)
		x := int64(n)
		if from.signed {
			x = sx(n, from.w)
		}
		if x < 0 || x > 0x10ffff {
			x = 0xfffd
		}
		return strVal(string(rune(x)))
	case from.k == KString && to.k == KSlice:
		if e := elemTI(to); e.w == 8 {
			b := strBytes(v)
			c := make([]Val, len(b))
			copy(c, b)
			return mkSlice(c)
		}
		var out []Val
		it := &StrIter{s: v}
		for {
			_, r, ok := m.nextRune(it)
			if !ok {
				break
			}
			out = append(out, r)
		}
		return mkSlice(out)
	case from.k == KString && to.k == KString:
		return v
	case to.k == KUnsafe || from.k == KUnsafe:
		if to.k == KInt {
			panic(unsupported("pointer to integer"))
		}
		return v
	case from.k == to.k:
		return v
	case from.k == KSlice && to.k == KArray:
		s := sliceOf(v)
		if len(s) < to.n {
			m.rtPanic("cannot convert slice with length " + itoa(len(s)) + " to array or pointer to array with length " + itoa(to.n))
		}
		return copyVal(Val{R: &Agg{s[:to.n]}})
	}
	panic(unsupported("convert %s to %s", from.t, to.t))
}

// ---- maps ----

func newMap(kt types.Type) *Map { return &Map{idx: map[string]int{}, kt: kt} }

// keyStr renders a concrete key; ok is false when it has symbolic parts.
func (m *Machine) keyStr(k Val, t *TI, buf []byte) ([]byte, bool) {
	switch t.k {
	case KBool, KInt, KFloat:
		if k.R != nil {
			return buf, false
		}
		n := k.N
		return append(buf, byte(n), byte(n>>8), byte(n>>16), byte(n>>24), byte(n>>32), byte(n>>40), byte(n>>48), byte(n>>56)), true
	case KString:
		s, ok := goStr(k)
		if !ok {
			return buf, false
		}
		n := len(s)
		buf = append(buf, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
		return append(buf, s...), true
	case KStruct, KArray:
		a := k.R.(*Agg)
		for i, x := range a.F {
			ft := t.elem
			if t.k == KStruct {
				ft = t.fields[i]
			} else if ft.k == KInt && ft.w == 8 {
				if x.R != nil {
					return buf, false
				}
				buf = append(buf, byte(x.N))
				continue
			}
			var ok bool
			buf, ok = m.keyStr(x, ft, buf)
			if !ok {
				return buf, false
			}
		}
		return buf, true
	case KIface:
		i, _ := k.R.(*Iface)
		if i == nil {
			return append(buf, 0), true
		}
		bt := tinfo(i.T)
		switch bt.k {
		case KSlice, KMap, KFunc:
			panic(goPanic{m.rtError("hash of unhashable type " + i.T.String())})
		}
		buf = append(buf, 1)
		id := typeID(i.T)
		buf = append(buf, byte(id), byte(id>>8), byte(id>>16))
		return m.keyStr(i.V, bt, buf)
	default:
		id := m.ptrID(k.R)
		return append(buf, byte(id), byte(id>>8), byte(id>>16), byte(id>>24)), true
	}
}

func (m *Machine) ptrID(p any) int {
	ids, _ := m.side["ptrids"].(map[any]int)
	if ids == nil {
		ids = map[any]int{}
		m.side["ptrids"] = ids
	}
	if p == nil {
		return 0
	}
	if x, ok := ids[p]; ok {
		return x
	}
	ids[p] = len(ids) + 1
	return len(ids)
}

func (m *Machine) mapFind(mp *Map, k Val) *Ent {
	if mp == nil {
		return nil
	}
	kt := tinfo(mp.kt)
	var tmp [64]byte
	b, conc := m.keyStr(k, kt, tmp[:0])
	if conc {
		if i, ok := mp.idx[string(b)]; ok {
			return mp.ents[i]
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.live || (conc && e.conc) {
			continue
		}
		if m.truth(m.eq(k, e.K, kt)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapGet(mp *Map, k Val, t *TI) (Val, bool) {
	if e := m.mapFind(mp, k); e != nil {
		return e.V, true
	}
	return zero(elemTI(t)), false
}

func (m *Machine) mapSet(mp *Map, k, v Val) {
	if e := m.mapFind(mp, k); e != nil {
		e.V = v
		return
	}
	kt := tinfo(mp.kt)
	b, conc := m.keyStr(k, kt, nil)
	e := &Ent{K: k, V: v, live: true, conc: conc}
	if conc {
		e.ck = string(b)
		mp.idx[e.ck] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, k Val) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	mp.remove(e)
}

func (mp *Map) remove(e *Ent) {
	e.live = false
	mp.n--
	if e.conc {
		delete(mp.idx, e.ck)
	} else {
		mp.nsym--
	}
}

func (m *Machine) newIter(mp *Map) *MapIter {
	it := &MapIter{m: mp}
	if mp != nil && m.cfg.mapOrder > 1 && mp.n > 1 && m.cur.top.fn.repo && mp.n <= m.cfg.mapOrder {
		for i, e := range mp.ents {
			if e.live {
				it.left = append(it.left, i)
			}
		}
		it.pos = len(mp.ents)
	}
	return it
}

func (m *Machine) iterNext(it *MapIter) *Ent {
	if it.m == nil {
		return nil
	}
	for len(it.left) > 0 {
		// drop entries deleted meanwhile
		j := 0
		for _, i := range it.left {
			if it.m.ents[i].live {
				it.left[j] = i
				j++
			}
		}
		it.left = it.left[:j]
		if j == 0 {
			break
		}
		c := m.Choose(j)
		i := it.left[c]
		it.left = append(append([]int{}, it.left[:c]...), it.left[c+1:]...)
		return it.m.ents[i]
	}
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.live {
			return e
		}
	}
	return nil
}

func (m *Machine) next(I *Ins, x Val) Val {
	switch it := x.R.(type) {
	case *StrIter:
		i, r, ok := m.nextRune(it)
		return Val{R: Tuple{{N: b2u(ok)}, {N: uint64(i)}, r}}
	case *MapIter:
		m.mapUse(m.cur, it.m, false)
		e := m.iterNext(it)
		if e == nil {
			var kz, vz Val
			if I.ti.k != KOther {
				kz = zero(I.ti)
			}
			if I.tj.k != KOther {
				vz = zero(I.tj)
			}
			return Val{R: Tuple{{}, kz, vz}}
		}
		return Val{R: Tuple{{N: 1}, e.K, e.V}}
	}
	panic(unsupported("next on %T", x.R))
}

func (m *Machine) nextRune(it *StrIter) (int, Val, bool) {
	n := strLen(it.s)
	if it.pos >= n {
		return 0, Val{}, false
	}
	i := it.pos
	b := strAt(it.s, i)
	if b.R != nil {
		t := b.R.(*Term)
		if m.Branch(m.T.Bin(OUlt, t, m.T.Const(0x80, 8))) {
			it.pos++
			return i, tval(m.T.Zext(t, 32)), true
		}
	}
	// decode concretely
	var raw []byte
	for j := i; j < n && j < i+4; j++ {
		raw = append(raw, byte(m.Concretize(strAt(it.s, j), 8)))
		if len(raw) == 1 && raw[0] < 0x80 {
			break
		}
	}
	for k, r := range string(raw) {
		if k == 0 {
			sz := len(string(r))
			if r == 0xfffd && !(len(raw) >= 3 && string(raw[:3]) == "\xef\xbf\xbd") {
				sz = 1
			}
			it.pos += sz
			return i, Val{N: uint64(uint32(r))}, true
		}
	}
	panic("nextRune")
}

// ---- type assertions ----

func (m *Machine) typeAssert(I *Ins, x Val) Val {
	i, _ := x.R.(*Iface)
	ok := false
	var v Val
	if i != nil {
		if I.ti.k == KIface {
			ok = m.implements(i.T, I.ti.u.(*types.Interface))
			v = x
		} else {
			ok = i.T == I.typ
			v = i.V
		}
	}
	if I.flag {
		if !ok {
			v = zero(I.ti)
		}
		return Val{R: Tuple{v, {N: b2u(ok)}}}
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.T.String()
		}
		panic(goPanic{m.rtError("interface conversion: interface is " + d + ", not " + I.typ.String())})
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implMu = make(chan struct{}, 1)
var implCache = map[implKey]bool{}

func (m *Machine) implements(t types.Type, i *types.Interface) bool {
	implMu <- struct{}{}
	defer func() { <-implMu }()
	k := implKey{t, i}
	if b, ok := implCache[k]; ok {
		return b
	}
	b := types.Implements(t, i)
	implCache[k] = b
	return b
}

// ---- select ----

func (m *Machine) doSelect(g *G, f *Frame, I *Ins) bool {
	n := len(I.states)
	cases := make([]WCase, n)
	var ready []int
	for i, s := range I.states {
		ch, _ := m.get(f, &I.args[2*i]).R.(*Chan)
		c := WCase{ch: ch, send: s.Dir == types.SendOnly}
		if c.send {
			c.v = m.get(f, &I.args[2*i+1])
		}
		cases[i] = c
		if m.caseReady(g, c) {
			ready = append(ready, i)
		}
	}
	set := func(idx int, v Val, ok bool) {
		t := Tuple{{N: uint64(int64(idx)) & mask(64)}, {N: b2u(ok)}}
		for i, s := range I.states {
			if s.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, zero(tinfo(s.Chan.Type().Underlying().(*types.Chan).Elem())))
				}
			}
		}
		f.regs[I.dst] = Val{R: t}
	}
	if len(ready) == 0 {
		if !I.flag {
			set(-1, Val{}, false)
			return true
		}
		m.block(g, &Wait{what: "select", cases: cases, complete: func(i int, v Val, ok bool) {
			if cases[i].send {
				ok = false
			}
			set(i, v, ok)
			f.pc++
		}})
		return false
	}
	i := ready[0]
	if len(ready) > 1 {
		i = ready[m.Choose(len(ready))]
	}
	c := cases[i]
	if c.send {
		m.trySend(g, c.ch, c.v)
		set(i, Val{}, false)
	} else {
		v, ok, _ := m.tryRecv(g, c.ch)
		set(i, v, ok)
	}
	return true
}

// ---- builtins ----

func roundCap(oldcap, need int, elem *TI) int {
	nc := oldcap
	if need > 2*oldcap {
		nc = need
	} else if oldcap < 256 {
		nc = 2 * oldcap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	sz := sizeOf(elem)
	if sz == 0 {
		return nc
	}
	return cap(append([]byte(nil), make([]byte, nc*sz)...)) / sz
}

func sizeOf(t *TI) int {
	switch t.k {
	case KBool:
		return 1
	case KInt, KFloat:
		return int(t.w) / 8
	case KString, KIface:
		return 16
	case KSlice:
		return 24
	case KStruct:
		return int(stdSizes.Sizeof(t.t))
	case KArray:
		return t.n * sizeOf(t.elem)
	}
	return 8
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) builtin(g *G, f *Frame, I *Ins, a []Val) Val {
	switch I.name {
	case "len":
		switch x := a[0].R.(type) {
		case nil:
			return Val{}
		case string:
			return Val{N: uint64(len(x))}
		case *SymStr:
			return Val{N: uint64(len(x.B))}
		case *Slice:
			return Val{N: uint64(x.Len)}
		case *Map:
			return Val{N: uint64(x.n)}
		case *Chan:
			return Val{N: uint64(len(x.buf))}
		case *Agg:
			return Val{N: uint64(len(x.F))}
		case *Val:
			return Val{N: uint64(len(x.R.(*Agg).F))}
		}
	case "cap":
		switch x := a[0].R.(type) {
		case nil:
			return Val{}
		case *Slice:
			return Val{N: uint64(x.Cap)}
		case *Chan:
			return Val{N: uint64(x.cap)}
		case *Agg:
			return Val{N: uint64(len(x.F))}
		case *Val:
			return Val{N: uint64(len(x.R.(*Agg).F))}
		}
	case "append":
		var add []Val
		if I.tj.k == KString {
			add = strBytes(a[1])
		} else {
			add = sliceOf(a[1])
		}
		if len(add) == 0 {
			return a[0]
		}
		s, _ := a[0].R.(*Slice)
		if s == nil {
			s = &Slice{A: &Agg{}}
		}
		need := s.Len + len(add)
		if need <= s.Cap {
			tmp := make([]Val, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			copy(s.A.F[s.Off+s.Len:], tmp)
			return Val{R: &Slice{s.A, s.Off, need, s.Cap}}
		}
		et := elemTI(I.ti)
		nc := roundCap(s.Cap, need, et)
		fs := make([]Val, nc)
		for i := 0; i < s.Len; i++ {
			fs[i] = copyVal(s.A.F[s.Off+i])
		}
		for i, v := range add {
			fs[s.Len+i] = copyVal(v)
		}
		if et.k == KStruct || et.k == KArray {
			for i := need; i < nc; i++ {
				fs[i] = zero(et)
			}
		}
		return Val{R: &Slice{&Agg{fs}, 0, need, nc}}
	case "copy":
		var src []Val
		if I.tj.k == KString {
			src = strBytes(a[1])
		} else {
			src = sliceOf(a[1])
		}
		dst := sliceOf(a[0])
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeVal(&dst[i], tmp[i])
		}
		return Val{N: uint64(n)}
	case "delete":
		if mp, _ := a[0].R.(*Map); mp != nil {
			m.mapUse(m.cur, mp, true)
			m.mapDelete(mp, a[1])
		}
		return Val{}
	case "close":
		ch, _ := a[0].R.(*Chan)
		m.closeChan(ch)
		return Val{}
	case "panic":
		panic(goPanic{a[0]})
	case "recover":
		if f.deferOf != nil && f.deferOf.pan != nil && f.inUnwind && !f.deferOf.pan.recovered {
			f.deferOf.pan.recovered = true
			return f.deferOf.pan.v
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		r := a[0]
		for _, y := range a[1:] {
			op := token.LSS
			if I.name == "max" {
				op = token.GTR
			}
			J := Ins{tok: op, ti: I.ti, tj: I.ti}
			c := m.binop(&J, y, r)
			if c.R != nil && I.ti.k == KInt {
				r = tval(m.T.Ite(c.R.(*Term), m.term(y, I.ti.w), m.term(r, I.ti.w)))
			} else if m.truth(c) {
				r = y
			}
		}
		return r
	case "clear":
		switch x := a[0].R.(type) {
		case nil:
		case *Map:
			m.mapUse(m.cur, x, true)
			for _, e := range x.ents {
				if e.live {
					x.remove(e)
				}
			}
		case *Slice:
			z := zero(elemTI(I.ti))
			for i := 0; i < x.Len; i++ {
				storeVal(&x.A.F[x.Off+i], z)
			}
		}
		return Val{}
	case "ssa:wrapnilchk":
		if a[0].R == nil {
			m.rtPanic(nilDeref)
		}
		return a[0]
	case "ssa:deferstack":
		return Val{}
	case "String": // unsafe.String
		n := int(m.Concretize(a[1], 64))
		switch p := a[0].R.(type) {
		case nil:
			return strVal("")
		case *SlicePtr:
			return bytesStr(p.S.A.F[p.S.Off : p.S.Off+n])
		case *StrPtr:
			return strSub(p.S, 0, n)
		case *Val:
			if n == 0 {
				return strVal("")
			}
		}
	case "StringData":
		return Val{R: &StrPtr{a[0]}}
	case "SliceData":
		if a[0].R == nil {
			return Val{}
		}
		return Val{R: &SlicePtr{a[0].R.(*Slice)}}
	case "Slice":
		n := int(m.Concretize(a[1], 64))
		switch p := a[0].R.(type) {
		case nil:
			return Val{}
		case *StrPtr:
			b := strBytes(p.S)[:n]
			c := make([]Val, n)
			copy(c, b)
			return mkSlice(c)
		case *SlicePtr:
			return Val{R: &Slice{p.S.A, p.S.Off, n, p.S.Cap}}
		}
	}
	panic(unsupported("builtin %s on %T", I.name, a[0].R))
}

var _ = ssa.BuilderMode(0)
