package main

import (
	"fmt"
)

const ndPkg = "verif/harness/nd."

// regNd registers the harness vocabulary.
func regNd() {
	scal := func(kind string, w uint8) Intrinsic {
		return func(m *Machine, c *Call) Val { return m.ndVar(mustStr(c.args[0]), kind, w) }
	}
	reg(ndPkg+"Byte", scal("u8", 8))
	reg(ndPkg+"Uint32", scal("u32", 32))
	reg(ndPkg+"Uint64", scal("u64", 64))
	reg(ndPkg+"Int64", scal("i64", 64))
	reg(ndPkg+"Int", scal("i64", 64))
	reg(ndPkg+"Bool", func(m *Machine, c *Call) Val {
		v := m.ndVar(mustStr(c.args[0]), "bool", 8)
		m.Assume(m.T.Bin(OUlt, v.R.(*Term), m.T.Const(2, 8)))
		return tval(m.T.Bin(OEq, v.R.(*Term), m.T.Const(1, 8)))
	})
	bs := func(m *Machine, c *Call) []Val {
		n := int(m.Concretize(c.args[1], 64))
		r := NdRec{Label: mustStr(c.args[0]), Kind: "bytes", T: []*Term{}}
		b := make([]Val, n)
		for i := range b {
			t := m.T.Var(8)
			b[i] = Val{R: t}
			r.T = append(r.T, t)
		}
		m.nd = append(m.nd, r)
		return b
	}
	reg(ndPkg+"Bytes", func(m *Machine, c *Call) Val { return mkSlice(bs(m, c)) })
	reg(ndPkg+"String", func(m *Machine, c *Call) Val { return bytesStr(bs(m, c)) })
	reg(ndPkg+"Choose", func(m *Machine, c *Call) Val {
		n := int(m.Concretize(c.args[1], 64))
		i := m.Choose(n)
		m.nd = append(m.nd, NdRec{Label: mustStr(c.args[0]), Kind: "choice", N: uint64(i)})
		return intVal(i)
	})
	reg(ndPkg+"Assume", func(m *Machine, c *Call) Val {
		m.Assume(m.term(c.args[0], 0))
		return Val{}
	})
	reg(ndPkg+"Assert", func(m *Machine, c *Call) Val {
		m.Assert(m.term(c.args[0], 0), mustStr(c.args[1]))
		return Val{}
	})
	reg(ndPkg+"Reach", func(m *Machine, c *Call) Val {
		m.reached[mustStr(c.args[0])] = true
		return Val{}
	})
	reg(ndPkg+"Thorough", func(m *Machine, c *Call) Val { return boolVal(m.thorough) })
	reg(ndPkg+"Symbolic", func(m *Machine, c *Call) Val { return Val{N: 1} })
	reg(ndPkg+"And", func(m *Machine, c *Call) Val {
		r := m.T.True
		for _, x := range sliceOf(c.args[0]) {
			r = m.T.And(r, m.term(x, 0))
		}
		return tval(r)
	})
	reg(ndPkg+"Or", func(m *Machine, c *Call) Val {
		r := m.T.False
		for _, x := range sliceOf(c.args[0]) {
			r = m.T.Or(r, m.term(x, 0))
		}
		return tval(r)
	})
	reg(ndPkg+"Config", func(m *Machine, c *Call) Val {
		n := int(int64(c.args[1].N))
		switch k := mustStr(c.args[0]); k {
		case "maporder":
			m.cfg.mapOrder = n
		case "sched":
			m.cfg.sched, m.cfg.delays = n != 0, n == 2
		case "preempt":
			m.cfg.preempt = n
		case "mempoints":
			m.cfg.memPoints = n != 0
		case "steps":
			m.cfg.maxSteps = int64(n)
		default:
			panic(unsupported("config %s", k))
		}
		return Val{}
	})
	reg(ndPkg+"Concrete", func(m *Machine, c *Call) Val { return Val{N: m.Concretize(c.args[0], 64)} })
	reg(ndPkg+"Trace", func(m *Machine, c *Call) Val {
		s := ""
		for _, x := range sliceOf(c.args[0]) {
			s += m.dump(x, 0) + " "
		}
		m.trace = append(m.trace, s)
		if m.W.verbose {
			fmt.Println("TRACE", s)
		}
		return Val{}
	})
	reg(ndPkg+"Settle", func(m *Machine, c *Call) Val {
		if c.resumed() != nil {
			return Val{}
		}
		c.setResume(1)
		m.block(c.g, &Wait{what: "settle", settle: true})
		return blocked
	})
	reg(ndPkg+"Advance", func(m *Machine, c *Call) Val {
		if c.resumed() != nil {
			return Val{}
		}
		if m.advancing != nil {
			panic(unsupported("nested Advance"))
		}
		c.setResume(1)
		m.advancing = &advState{c.g, m.now + int64(m.Concretize(c.args[0], 64))}
		m.block(c.g, &Wait{what: "advance", settle: true})
		return blocked
	})
	reg(ndPkg+"Goroutines", func(m *Machine, c *Call) Val {
		n := 0
		for _, g := range m.gs {
			if !g.dead {
				n++
			}
		}
		return Val{N: uint64(n)}
	})
	// ModelOnly marks code that only the engine runs
	reg(ndPkg+"Note", noop)
}

func (m *Machine) dump(v Val, d int) string {
	if d > 6 {
		return "…"
	}
	switch x := v.R.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case *Term:
		if m.model != nil {
			return fmt.Sprintf("sym(%d)", m.evalModel(x))
		}
		return "sym"
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		s := "sym\""
		for _, b := range x.B {
			if b.R == nil {
				s += string(rune(b.N))
			} else {
				s += "?"
			}
		}
		return s + "\""
	case *Iface:
		return m.dump(x.V, d+1)
	case *Slice:
		s := "["
		for i, e := range x.A.F[x.Off : x.Off+x.Len] {
			if i > 40 {
				s += "…"
				break
			}
			s += m.dump(e, d+1) + " "
		}
		return s + "]"
	case *Agg:
		s := "{"
		for i, e := range x.F {
			if i > 40 {
				s += "…"
				break
			}
			s += m.dump(e, d+1) + " "
		}
		return s + "}"
	case *Map:
		s := "map["
		for _, e := range x.ents {
			if e.live {
				s += m.dump(e.K, d+1) + ":" + m.dump(e.V, d+1) + " "
			}
		}
		return s + "]"
	case *Val:
		if x == nil {
			return "nil"
		}
		return "&" + m.dump(*x, d+1)
	case Tuple:
		s := "("
		for _, e := range x {
			s += m.dump(e, d+1) + " "
		}
		return s + ")"
	case *Closure:
		if x.Fn != nil {
			return x.Fn.name
		}
	}
	return fmt.Sprintf("%T", v.R)
}
