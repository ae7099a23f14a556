package main

import "go/types"

// A small part of reflect: enough for channel select sets and type identity.

type rtypeObj struct{ t types.Type }
type rvalue struct {
	t    types.Type
	v    Val
	fn   *Fn // a method bound to v
}

func (m *Machine) rtypeVal(t types.Type) Val {
	t = canon(t)
	rt := m.P.lookupType("reflect", "rtype")
	if rt == nil {
		panic(unsupported("reflect not loaded"))
	}
	// one pointer per type, so that comparisons work
	k := "rtype:" + itoa(typeID(t))
	p, _ := m.side[k].(*Val)
	if p == nil {
		p = &Val{R: &Agg{[]Val{{R: &rtypeObj{t}}}}}
		m.side[k] = p
	}
	return Val{R: &Iface{T: canon(types.NewPointer(rt)), V: Val{R: p}}}
}

func rtypeOf(v Val) types.Type {
	if i, ok := v.R.(*Iface); ok {
		v = i.V
	}
	return v.R.(*Val).R.(*Agg).F[0].R.(*rtypeObj).t
}

func mkRV(r *rvalue) Val {
	if r == nil {
		return Val{R: &Agg{make([]Val, 3)}}
	}
	return Val{R: &Agg{[]Val{{R: r}, {}, {N: 1}}}}
}

func (m *Machine) rv(v Val) *rvalue {
	a, ok := v.R.(*Agg)
	if !ok {
		panic(unsupported("reflect value"))
	}
	r, _ := a.F[0].R.(*rvalue)
	if r == nil {
		panic(goPanic{m.ifaceStr("reflect: call of method on zero Value")})
	}
	return r
}

func rkind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func regReflect() {
	reg("reflect.TypeOf", func(m *Machine, c *Call) Val {
		i, _ := c.args[0].R.(*Iface)
		if i == nil {
			return Val{}
		}
		return m.rtypeVal(i.T)
	})
	reg("reflect.ValueOf", func(m *Machine, c *Call) Val {
		i, _ := c.args[0].R.(*Iface)
		if i == nil {
			return mkRV(nil)
		}
		return mkRV(&rvalue{t: i.T, v: i.V})
	})
	V := "(reflect.Value)."
	reg(V+"Type", func(m *Machine, c *Call) Val { return m.rtypeVal(m.rv(c.args[0]).t) })
	reg(V+"Kind", func(m *Machine, c *Call) Val {
		a := c.args[0].R.(*Agg)
		r, _ := a.F[0].R.(*rvalue)
		if r == nil {
			return Val{}
		}
		return intVal(rkind(r.t))
	})
	reg(V+"IsValid", func(m *Machine, c *Call) Val { return boolVal(c.args[0].R.(*Agg).F[0].R != nil) })
	reg(V+"IsNil", func(m *Machine, c *Call) Val {
		r := m.rv(c.args[0]).v.R
		return boolVal(r == nil || r == any((*Val)(nil)))
	})
	reg(V+"Interface", func(m *Machine, c *Call) Val {
		r := m.rv(c.args[0])
		if tinfo(r.t).k == KIface {
			return r.v
		}
		return Val{R: &Iface{T: canon(r.t), V: r.v}}
	})
	reg(V+"Len", func(m *Machine, c *Call) Val {
		r := m.rv(c.args[0])
		switch x := r.v.R.(type) {
		case nil:
			return Val{}
		case *Slice:
			return intVal(x.Len)
		case *Map:
			return intVal(x.n)
		case *Chan:
			return intVal(len(x.buf))
		case *Agg:
			return intVal(len(x.F))
		}
		return intVal(strLen(r.v))
	})
	ch := func(m *Machine, v Val) *Chan {
		c, _ := m.rv(v).v.R.(*Chan)
		return c
	}
	// the value sent on a channel of interface type is an interface
	sendVal := func(m *Machine, cv, v Val) Val {
		ct := m.rv(cv).t.Underlying().(*types.Chan)
		r := m.rv(v)
		if tinfo(ct.Elem()).k == KIface && tinfo(r.t).k != KIface {
			return Val{R: &Iface{T: canon(r.t), V: r.v}}
		}
		return r.v
	}
	reg(V+"TrySend", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		return boolVal(m.trySend(c.g, ch(m, c.args[0]), sendVal(m, c.args[0], c.args[1])))
	})
	reg(V+"Close", func(m *Machine, c *Call) Val { m.closeChan(ch(m, c.args[0])); return Val{} })
	reg(V+"MethodByName", func(m *Machine, c *Call) Val {
		r := m.rv(c.args[0])
		t, v := r.t, r.v
		if tinfo(t).k == KIface && v.R != nil {
			t, v = v.R.(*Iface).T, v.R.(*Iface).V
		}
		name := mustStr(c.args[1])
		fn := m.method(canon(t), nil, name)
		if fn == nil || !isExported(name) {
			return mkRV(nil)
		}
		sig := fn.ssa.Signature
		return mkRV(&rvalue{t: types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), v: v, fn: fn})
	})
	reg(V+"Call", func(m *Machine, c *Call) Val {
		r := m.rv(c.args[0])
		fn := r.fn
		if fn == nil || c.ins == nil {
			panic(unsupported("reflect call"))
		}
		m.P.ready(fn)
		if fn.intr != nil {
			panic(unsupported("reflect call of %s", fn.name))
		}
		sig := r.t.(*types.Signature)
		args := []Val{copyVal(r.v)}
		for i, a := range sliceOf(c.args[1]) {
			if i >= sig.Params().Len() || sig.Variadic() {
				panic(unsupported("reflect call: arguments"))
			}
			x := m.rv(a)
			if pt := sig.Params().At(i).Type(); tinfo(pt).k == KIface && tinfo(x.t).k != KIface {
				args = append(args, Val{R: &Iface{T: canon(x.t), V: copyVal(x.v)}})
			} else {
				args = append(args, copyVal(x.v))
			}
		}
		if len(args) != sig.Params().Len()+1 {
			panic(goPanic{m.ifaceStr("reflect: Call with too few input arguments")})
		}
		f := m.pushFrame(c.g, fn, nil, args, c.ins.dst)
		f.post = func(v Val) Val {
			out := make([]Val, sig.Results().Len())
			for i := range out {
				x := v
				if len(out) > 1 {
					x = v.R.(Tuple)[i]
				}
				out[i] = mkRV(&rvalue{t: sig.Results().At(i).Type(), v: x})
			}
			return mkSlice(out)
		}
		return Val{}
	})
	reg(V+"Recv", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		cc := ch(m, c.args[0])
		et := m.rv(c.args[0]).t.Underlying().(*types.Chan).Elem()
		mk := func(v Val, ok bool) Val { return tup(mkRV(&rvalue{t: et, v: v}), boolVal(ok)) }
		v, ok, done := m.tryRecv(c.g, cc)
		if !done {
			if m.syncDepth > 0 || c.ins == nil {
				panic(unsupported("blocking receive in a nested call"))
			}
			m.block(c.g, &Wait{what: "receive", cases: []WCase{{cc, false, Val{}}}, complete: func(_ int, v Val, ok bool) { c.finish(mk(v, ok)) }})
			return blocked
		}
		return mk(v, ok)
	})
	reg("reflect.Select", func(m *Machine, c *Call) Val {
		if m.syncPoint(c.g) {
			return blocked
		}
		cs := sliceOf(c.args[0])
		cases := make([]WCase, len(cs))
		var ready []int
		def := -1
		for i, x := range cs {
			f := x.R.(*Agg).F
			switch f[0].N {
			case 3: // SelectDefault
				def = i
				continue
			}
			if f[1].R.(*Agg).F[0].R == nil {
				continue // zero Chan: never ready
			}
			w := WCase{ch: ch(m, f[1]), send: f[0].N == 1}
			if w.send {
				w.v = sendVal(m, f[1], f[2])
			}
			cases[i] = w
			if m.caseReady(c.g, w) {
				ready = append(ready, i)
			}
		}
		mk := func(i int, v Val, ok bool) Val {
			r := mkRV(nil)
			if i >= 0 && i != def && !cases[i].send {
				et := cases[i].ch.et
				r = mkRV(&rvalue{t: et, v: v})
			} else {
				ok = false
			}
			return tup(intVal(i), r, boolVal(ok))
		}
		if len(ready) == 0 {
			if def >= 0 {
				return mk(def, Val{}, false)
			}
			if m.syncDepth > 0 || c.ins == nil {
				panic(unsupported("blocking select in a nested call"))
			}
			m.block(c.g, &Wait{what: "select", cases: cases, complete: func(i int, v Val, ok bool) { c.finish(mk(i, v, ok)) }})
			return blocked
		}
		i := ready[0]
		if len(ready) > 1 {
			i = ready[m.Choose(len(ready))]
		}
		w := cases[i]
		if w.send {
			m.trySend(c.g, w.ch, w.v)
			return mk(i, Val{}, false)
		}
		v, ok, _ := m.tryRecv(c.g, w.ch)
		return mk(i, v, ok)
	})
	T := "(*reflect.rtype)."
	reg(T+"Kind", func(m *Machine, c *Call) Val { return intVal(rkind(rtypeOf(c.args[0]))) })
	reg(T+"Elem", func(m *Machine, c *Call) Val {
		t := rtypeOf(c.args[0])
		return m.rtypeVal(elemTI(tinfo(t)).t)
	})
	reg(T+"ChanDir", func(m *Machine, c *Call) Val {
		switch rtypeOf(c.args[0]).Underlying().(*types.Chan).Dir() {
		case types.SendOnly:
			return intVal(2)
		case types.RecvOnly:
			return intVal(1)
		}
		return intVal(3)
	})
	str := func(m *Machine, c *Call) Val {
		return strVal(types.TypeString(rtypeOf(c.args[0]), func(p *types.Package) string { return p.Name() }))
	}
	reg(T+"String", str)
	reg(T+"Name", str)
	reg("reflect.ChanOf", func(m *Machine, c *Call) Val {
		d := types.SendRecv
		switch c.args[0].N {
		case 1:
			d = types.RecvOnly
		case 2:
			d = types.SendOnly
		}
		return m.rtypeVal(types.NewChan(d, rtypeOf(c.args[1])))
	})
	reg("reflect.DeepEqual", func(m *Machine, c *Call) Val {
		return tval(m.deepEq(c.args[0], c.args[1], tinfo(types.NewInterfaceType(nil, nil)), 0))
	})
	// setField(dst, v interface{}) of the transports harnesses
	reg("verif/harness/ht.setField", func(m *Machine, c *Call) Val {
		dst, v := c.args[0].R.(*Iface), c.args[1].R.(*Iface)
		st, ok := dst.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("setField: no struct"))
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), v.T) {
				dst.V.R.(*Val).R.(*Agg).F[i] = v.V
				return Val{}
			}
		}
		panic(unsupported("setField: no such field"))
	})
}

// deepEq is reflect.DeepEqual as a term.
func (m *Machine) deepEq(a, b Val, t *TI, d int) *Term {
	if d > 20 {
		panic(unsupported("DeepEqual depth"))
	}
	switch t.k {
	case KIface:
		x, _ := a.R.(*Iface)
		y, _ := b.R.(*Iface)
		if x == nil || y == nil {
			return m.T.Bool(x == nil && y == nil)
		}
		if x.T != y.T {
			return m.T.False
		}
		return m.deepEq(x.V, y.V, tinfo(x.T), d+1)
	case KSlice:
		if (a.R == nil) != (b.R == nil) {
			return m.T.False
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return m.T.False
		}
		r := m.T.True
		for i := range x {
			r = m.T.And(r, m.deepEq(x[i], y[i], elemTI(t), d+1))
		}
		return r
	case KStruct, KArray:
		x, y := a.R.(*Agg), b.R.(*Agg)
		r := m.T.True
		for i := range x.F {
			ft := t.elem
			if t.k == KStruct {
				ft = t.fields[i]
			}
			r = m.T.And(r, m.deepEq(x.F[i], y.F[i], ft, d+1))
		}
		return r
	case KMap:
		x, _ := a.R.(*Map)
		y, _ := b.R.(*Map)
		if x == nil || y == nil {
			return m.T.Bool(x == nil && y == nil)
		}
		if x.n != y.n {
			return m.T.False
		}
		r := m.T.True
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			f := m.mapFind(y, e.K)
			if f == nil {
				return m.T.False
			}
			r = m.T.And(r, m.deepEq(e.V, f.V, elemTI(t), d+1))
		}
		return r
	case KPtr:
		if ptrEq(a.R, b.R) {
			return m.T.True
		}
		p, _ := a.R.(*Val)
		q, _ := b.R.(*Val)
		if p == nil || q == nil {
			return m.T.False
		}
		return m.deepEq(*p, *q, elemTI(t), d+1)
	case KFunc:
		return m.T.Bool(a.R == nil && b.R == nil)
	}
	return m.term(m.eq(a, b, t), 0)
}
