package main

import "go/types"

// The virtual clock starts at 2021-01-01T00:00:00Z.
const epochSec = 1609459200
const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func (m *Machine) timeVal(ns int64) Val {
	sec := epochSec + ns/1e9
	return Val{R: &Agg{[]Val{{N: uint64(ns % 1e9)}, {N: uint64(sec + unixToInternal)}, {}}}}
}

type goTimer struct {
	t  *timer
	ch *Chan
}

func regTime() {
	reg("time.Now", func(m *Machine, c *Call) Val { return m.timeVal(m.now) })
	reg("time.runtimeNano", func(m *Machine, c *Call) Val { return Val{N: uint64(m.now)} })
	reg("time.now", func(m *Machine, c *Call) Val {
		return tup(Val{N: uint64(epochSec + m.now/1e9)}, Val{N: uint64(m.now % 1e9)}, Val{N: uint64(m.now)})
	})
	dur := func(m *Machine, v Val) int64 {
		return int64(m.Concretize(v, 64))
	}
	mk := func(m *Machine, c *Call, tname string, d int64, periodic bool) Val {
		ty := m.P.lookupType("time", tname)
		tv := zero(tinfo(ty))
		p := &tv
		ch := m.newChan(1, m.P.lookupType("time", "Time"))
		ch.timer = true
		tv.R.(*Agg).F[fieldByName(ty, "C")] = Val{R: ch}
		gt := &goTimer{ch: ch}
		m.side[p] = gt
		m.armTimer(gt, d, periodic)
		return Val{R: p}
	}
	get := func(m *Machine, p Val) *goTimer {
		k, _ := p.R.(*Val)
		if k == nil {
			m.rtPanic(nilDeref)
		}
		gt, _ := m.side[k].(*goTimer)
		if gt == nil {
			panic(goPanic{m.ifaceStr("time: Reset/Stop called on uninitialized Timer")})
		}
		return gt
	}
	reg("time.NewTimer", func(m *Machine, c *Call) Val { return mk(m, c, "Timer", dur(m, c.args[0]), false) })
	reg("time.After", func(m *Machine, c *Call) Val {
		p := mk(m, c, "Timer", dur(m, c.args[0]), false)
		return *field(p, fieldByName(m.P.lookupType("time", "Timer"), "C"))
	})
	reg("time.NewTicker", func(m *Machine, c *Call) Val {
		d := dur(m, c.args[0])
		if d <= 0 {
			panic(goPanic{m.ifaceStr("non-positive interval for NewTicker")})
		}
		return mk(m, c, "Ticker", d, true)
	})
	reg("time.Tick", func(m *Machine, c *Call) Val {
		d := dur(m, c.args[0])
		if d <= 0 {
			return Val{}
		}
		p := mk(m, c, "Ticker", d, true)
		return *field(p, fieldByName(m.P.lookupType("time", "Ticker"), "C"))
	})
	reg("time.AfterFunc", func(m *Machine, c *Call) Val {
		ty := m.P.lookupType("time", "Timer")
		tv := zero(tinfo(ty))
		p := &tv
		cl := c.args[1].R.(*Closure)
		gt := &goTimer{}
		m.side[p] = gt
		gt.t = m.addTimer(dur(m, c.args[0]), gt, func() { m.spawn(cl.Fn, cl.Env, nil) })
		gt.t.fn = gt.t.fire
		return Val{R: p}
	})
	stop := func(m *Machine, c *Call) Val {
		gt := get(m, c.args[0])
		active := gt.t != nil && !gt.t.dead
		if gt.ch != nil && len(gt.ch.buf) > 0 {
			// Go 1.23: no stale value is received after Stop
			gt.ch.buf = nil
			active = true
		}
		if gt.t != nil {
			gt.t.dead = true
		}
		return boolVal(active)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(periodic bool) Intrinsic {
		return func(m *Machine, c *Call) Val {
			r := stop(m, c)
			gt := get(m, c.args[0])
			d := dur(m, c.args[1])
			if gt.ch == nil {
				gt.t = m.addTimer(d, gt, gt.t.fire)
				return r
			}
			m.armTimer(gt, d, periodic)
			if periodic {
				return Val{}
			}
			return r
		}
	}
	reg("(*time.Timer).Reset", reset(false))
	reg("(*time.Ticker).Reset", reset(true))
	reg("time.Sleep", func(m *Machine, c *Call) Val {
		if r := c.resumed(); r != nil {
			return Val{}
		}
		d := dur(m, c.args[0])
		if m.syncDepth > 0 || c.ins == nil {
			return Val{}
		}
		if d <= 0 {
			if m.syncPoint(c.g) {
				return blocked
			}
			return Val{}
		}
		done := false
		m.addTimer(d, nil, func() { done = true })
		c.setResume(1)
		m.block(c.g, &Wait{what: "sleep", cond: func() bool { return done }})
		return blocked
	})
	_ = types.Typ
}

func (m *Machine) armTimer(gt *goTimer, d int64, periodic bool) {
	gt.t = m.addTimer(d, gt, func() {
		v := m.timeVal(m.now)
		if o := m.partner(nil, gt.ch, false); o != nil {
			m.completeOther(o, gt.ch, false, v)
			o.vc = joinVC(o.vc, m.cur.vc)
			return
		}
		if len(gt.ch.buf) == 0 {
			gt.ch.buf = append(gt.ch.buf, v)
			m.rel(m.cur, hbKey{gt.ch, false})
		}
	})
	if periodic {
		gt.t.period = d
	}
}
