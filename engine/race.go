package main

import "strings"

// Unsynchronised uses of maps: the runtime stops the program when it notices
// one. A happens-before relation is kept with vector clocks; where its exact
// form would be costly (channels, atomics) more is considered ordered than the
// memory model promises, so what is reported is a race.

type vclock []uint32

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func joinVC(a, b vclock) vclock {
	if len(b) > len(a) {
		a = append(append(vclock{}, a...), make(vclock, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (g *G) tick() {
	if g.id >= len(g.vc) {
		g.vc = append(append(vclock{}, g.vc...), make(vclock, g.id+1-len(g.vc))...)
	}
	g.vc[g.id]++
}

type hbKey struct {
	p any
	r bool // readers of a lock
}

func (m *Machine) acq(g *G, k hbKey) {
	if g != nil {
		g.vc = joinVC(g.vc, m.hb[k])
	}
}

func (m *Machine) rel(g *G, k hbKey) {
	if g == nil {
		return
	}
	if m.hb == nil {
		m.hb = map[hbKey]vclock{}
	}
	m.hb[k] = joinVC(append(vclock{}, m.hb[k]...), g.vc)
	g.tick()
}

func (m *Machine) obj(g *G, p any) {
	m.acq(g, hbKey{p, false})
	m.rel(g, hbKey{p, false})
}

// meet is a rendezvous on a channel.
func (m *Machine) meet(a, b *G, ch *Chan) {
	m.obj(a, ch)
	m.obj(b, ch)
	m.obj(a, ch)
}

// raceWrap makes calls on a synchronising object order the callers.
func raceWrap(name string, f Intrinsic) Intrinsic {
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic.", "(*sync.Map).", "(*sync/atomic.", "(*sync.Cond)."} {
		if strings.HasPrefix(name, p) {
			return func(m *Machine, c *Call) Val {
				if len(c.args) > 0 {
					if k, ok := c.args[0].R.(*Val); ok && k != nil {
						v := f(m, c)
						m.obj(c.g, k)
						return v
					}
				}
				return f(m, c)
			}
		}
	}
	return f
}

// raceExempt: dependencies whose own uses of maps are not looked at.
func raceExempt(f *Fn) bool {
	return strings.Contains(f.name, "openrelayxyz/drumline.")
}

// mapUse notes a use of a map by the current goroutine.
func (m *Machine) mapUse(g *G, mp *Map, write bool) {
	if mp == nil || g == nil || !m.running || g.top != nil && raceExempt(g.top.fn) {
		return
	}
	if mp.used != m {
		mp.used, mp.wby, mp.reads = m, nil, nil
	}
	now := g.vc.at(g.id)
	race := mp.wby != nil && mp.wby != g && mp.wat > g.vc.at(mp.wby.id)
	if write {
		for i, x := range mp.reads {
			if i != g.id && x > g.vc.at(i) {
				race = true
			}
		}
		mp.wby, mp.wat = g, now
	} else {
		if g.id >= len(mp.reads) {
			mp.reads = append(mp.reads, make(vclock, g.id+1-len(mp.reads))...)
		}
		mp.reads[g.id] = now
	}
	if race && !m.raced {
		m.raced = true
		if m.pos >= len(m.prefix) {
			m.report("race", "no concurrent use of a map", "a map is used by two goroutines without synchronisation"+m.where(), m.curModel())
		}
	}
}
