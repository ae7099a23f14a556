package hd

import (
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// C14_number: what a producer announces is what subscribers get.
// Bounds: any number from 0 to 2^63-1, any hash; directly or through ordering.
func C14_number() {
	p := newProducer(mixedSchema)
	num := nd.Int64("number")
	nd.Assume(num >= 0)
	h := symHash("hash")
	m := p.Reorg(num, h)
	nd.Assert(m.Key()[0] == 5 && len(m.Key()) == 33 && p.ReorgDone(num, h).Key()[0] == 6, "type bytes")
	ch := make(chan map[int64]types.Hash, 4)
	x := &rm{key: m.Key(), value: m.Value(), src: "r:0"}
	y := &rm{key: p.ReorgDone(num, h).Key(), value: p.ReorgDone(num, h).Value(), src: "r:0", off: 1}
	if nd.Choose("ordered", 2) == 1 {
		o := newOrdered(8, nil)
		o.omp.SubscribeReorg(ch)
		nd.Assert(o.omp.ProcessMessage(x) == nil, "no error")
		nd.Assert(o.omp.ProcessMessage(y) == nil, "no error")
		nd.Settle()
	} else {
		c := newConsumer(config())
		c.mp.SubscribeReorgs(ch)
		nd.Assert(c.mp.ProcessMessage(x) == nil, "no error")
		nd.Assert(c.mp.ProcessMessage(y) == nil, "no error")
	}
	nd.Assert(len(ch) == 1, "one announcement")
	r := <-ch
	nd.Assert(len(r) == 1, "one position")
	for n, g := range r {
		nd.Assert(n == num, "number")
		nd.Assert(g == h, "hash")
	}
	nd.Reach("announced")
}

// step is something a subscriber was told.
type step struct {
	u     *delivery.ChainUpdate
	reorg map[int64]types.Hash
}

// listen subscribes to everything and returns what comes in order.
func (o *ordered) listen() func() []step {
	var log []step
	us := make(chan *delivery.ChainUpdate)
	rs := make(chan map[int64]types.Hash)
	o.omp.Subscribe(us)
	o.omp.SubscribeReorg(rs)
	go func() {
		for {
			select {
			case u := <-us:
				log = append(log, step{u: u})
			case r := <-rs:
				log = append(log, step{reorg: r})
			}
		}
	}()
	return func() []step {
		nd.Settle()
		r := log
		log = nil
		return r
	}
}

func blockMessage(p *delivery.Producer, n *node) *rm {
	tm, err := p.AddBlock(n.num, n.hash, n.phash, n.weight, map[string][]byte{}, map[string]struct{}{}, map[string]types.Hash{})
	nd.Assert(err == nil, "producer accepts the block")
	ms := flatten(tm)
	nd.Assert(len(ms) == 1, "one message")
	return ms[0]
}

// C14_stream: blocks, a reorg announcement, blocks of the new chain; and back.
// Bounds: a chain of 1 or 2 blocks (thorough: 3); an announcement of the resumption point or
// of a block of the chain (possibly redelivered before); then 1 or 2 blocks,
// lighter or heavier than the old head, or the old blocks again; optionally a
// second announcement of the same block, followed by the old blocks; all handed
// over without waiting for the ordering stage, or waiting after each; every
// schedule with up to one preemption.
// Weight: 2
func C14_stream() {
	nd.Config("sched", 1)
	nd.Config("preempt", 1)
	p := newProducer(mixedSchema)
	o := newOrdered(8, nil)
	get := o.listen()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	main := grow(1 + nd.Choose("length", n))
	burst := nd.Choose("burst", 2) == 1
	off := int64(0)
	var log []step
	send := func(m *rm) {
		n := *m
		n.off = off
		off++
		nd.Assert(o.omp.ProcessMessage(&n) == nil, "no error")
		if !burst {
			log = append(log, get()...)
		}
	}
	for _, b := range main {
		send(blockMessage(p, b))
	}
	a := nd.Choose("ancestor", len(main)+1) - 1
	anc := rootNode()
	if a >= 0 {
		anc = main[a]
	}
	ann := func() {
		m := p.Reorg(anc.num, anc.hash)
		send(&rm{key: m.Key(), value: m.Value(), src: "r:0"})
	}
	ann()
	old := main[a+1:]
	next := []*node{}
	if nd.Choose("old again", 2) == 1 {
		next = old
	} else {
		w := anc.weight.Int64() + 1
		if nd.Choose("heavy", 2) == 1 {
			w += 10
		}
		ph := anc.hash
		for i := 1 + nd.Choose("blocks", 2); i > 0; i-- {
			b := &node{num: anc.num + 1 + int64(len(next)), hash: hashOf(byte(i)), phash: ph, weight: bigOf(w + int64(len(next)))}
			next = append(next, b)
			ph = b.hash
		}
	}
	for _, b := range next {
		send(blockMessage(p, b))
	}
	twice := nd.Choose("twice", 2) == 1
	if twice {
		ann()
		next = old
		for _, b := range next {
			send(blockMessage(p, b))
		}
	}
	log = append(log, get()...)
	anns := 0
	for _, s := range log {
		if s.u != nil {
			o.apply(s.u)
			continue
		}
		anns++
		nd.Assert(len(s.reorg) == 1, "one position")
		for n, h := range s.reorg {
			nd.Assert(n == anc.num && h == anc.hash, "number and hash of the announcement")
		}
		if anns == 1 {
			nd.Assert(o.head().Hash == main[len(main)-1].hash, "what came before the announcement is delivered before it")
		}
		// the subscriber goes back to the announced block
		for o.head().Hash != anc.hash {
			o.chain = o.chain[:len(o.chain)-1]
		}
	}
	if twice {
		nd.Assert(anns == 2, "every announcement is reported")
		nd.Reach("twice")
	} else {
		nd.Assert(anns == 1, "the announcement is reported")
		nd.Reach("once")
	}
	if len(next) > 0 {
		nd.Assert(o.head().Hash == next[len(next)-1].hash, "the chain goes on above the announced block")
	} else {
		nd.Assert(o.head().Hash == anc.hash, "the chain ends at the announced block")
	}
}

// C14_tree: a tree of blocks before the announcement, the same blocks and others
// after it, in any order.
// Bounds: a tree of 4 blocks on the resumption point, of which the first two are
// delivered in any order, then the resumption point is announced, then all are
// delivered in any order; arbitrary weights above the parents'.
// Weight: 2
func C14_tree() {
	n := 4
	p := newProducer(mixedSchema)
	o := newOrdered(8, nil)
	rs := make(chan map[int64]types.Hash, 4)
	o.omp.SubscribeReorg(rs)
	var ns []*node
	for i := 0; i < n; i++ {
		ns = append(ns, &node{parent: nd.Choose("parent", i+1) - 1, hash: hashOf(byte(i + 1))})
	}
	depth(ns, 10)
	weigh(ns)
	off := int64(0)
	send := func(m *rm) {
		x := *m
		x.off = off
		off++
		nd.Assert(o.omp.ProcessMessage(&x) == nil, "no error")
		nd.Settle()
	}
	for _, i := range permutation("before", 2) {
		send(blockMessage(p, ns[i]))
		o.drain()
	}
	m := p.Reorg(10, rootHash())
	send(&rm{key: m.Key(), value: m.Value(), src: "r:0"})
	nd.Assert(len(rs) == 1 && len(o.ch) == 0, "the announcement is reported alone")
	o.chain = o.chain[:1]
	for _, i := range permutation("after", n) {
		send(blockMessage(p, ns[i]))
		o.drain()
	}
	o.heaviest(ns, func(int) bool { return true })
	o.sawReorg()
}

// C14_fork: a branch that competes with the announced block.
// Bounds: a chain of two blocks on the resumption point and a lighter sibling of
// the first one, in any order; the first one is announced; then a child of the
// sibling and another child of the announced block, in any order; arbitrary
// weights above the parents'.
func C14_fork() {
	p := newProducer(mixedSchema)
	o := newOrdered(8, nil)
	rs := make(chan map[int64]types.Hash, 4)
	o.omp.SubscribeReorg(rs)
	ns := []*node{{parent: onRoot}, {parent: 0}, {parent: onRoot}, {parent: 2}, {parent: 0}}
	for i, n := range ns {
		n.hash = hashOf(byte(i + 1))
	}
	depth(ns, 10)
	weigh(ns)
	nd.Assume(ns[2].weight.Cmp(ns[0].weight) < 0)
	off := int64(0)
	send := func(m *rm) {
		m.off = off
		off++
		nd.Assert(o.omp.ProcessMessage(m) == nil, "no error")
		nd.Settle()
	}
	for _, i := range permutation("before", 3) {
		send(blockMessage(p, ns[i]))
		o.drain()
	}
	nd.Assert(o.head().Hash == ns[1].hash, "the heaviest block is the head")
	m := p.Reorg(11, ns[0].hash)
	send(&rm{key: m.Key(), value: m.Value(), src: "r:0"})
	nd.Assert(len(rs) == 1 && len(o.ch) == 0, "the announcement is reported alone")
	o.chain = o.chain[:2]
	best := ns[0]
	for _, i := range permutation("after", 2) {
		n := ns[3+i]
		send(blockMessage(p, n))
		o.drain()
		if n.weight.Cmp(best.weight) > 0 {
			best = n
			nd.Reach([]string{"the branch is followed", "the announced block is followed"}[i])
		}
		nd.Assert(o.head().Hash == best.hash, "the head is the heaviest block above the announced one or its siblings")
	}
}

// C14_again: blocks delivered before an announcement come again after it.
// Bounds: a chain of two blocks and a side block of the first one's number or of
// the one below, emitted in any order without ordering; an announcement of any
// number around theirs; then all of them again, in any order, the last one twice.
func C14_again() {
	p := newProducer(mixedSchema)
	c := newConsumer(config())
	rs := make(chan map[int64]types.Hash, 4)
	c.mp.SubscribeReorgs(rs)
	ns := []*node{{num: 11, phash: rootHash()}, {num: 12, phash: hashOf(1)}, {num: 11 - int64(nd.Choose("lower", 2)), phash: hashOf(9)}}
	for i, n := range ns {
		n.hash, n.weight = hashOf(byte(i+1)), bigOf(int64(101+i))
	}
	one := func(n *node) {
		nd.Assert(c.deliver(blockMessage(p, n)) == nil, "no error")
		out := c.emitted()
		nd.Assert(len(out) == 1 && out[0].Hash == n.hash && out[0].Number == n.num, "the block is processed")
	}
	for _, i := range permutation("before", 3) {
		one(ns[i])
	}
	m := p.Reorg(int64(9+nd.Choose("announced", 5)), symHash("hash"))
	nd.Assert(c.deliver(&rm{key: m.Key(), value: m.Value(), src: "r:0"}) == nil, "no error")
	nd.Assert(len(rs) == 1, "one announcement")
	for _, i := range permutation("after", 3) {
		one(ns[i])
		nd.Assert(c.deliver(blockMessage(p, ns[i])) == nil && len(c.emitted()) == 0, "but once")
	}
	nd.Reach("again")
}

// C14_forgotten: a block given up for lack of a message comes after a reorg.
// Bounds: thresholds 1 and 2; a chain that outgrows the block that misses a
// message; an announcement of the block that one
// follows; then the block again, its messages in either order.
func C14_forgotten() {
	t := 1 + nd.Choose("threshold", 2)
	o := newOrdered(int64(t), nil)
	p := newProducer(mixedSchema)
	off := int64(0)
	send := func(m *rm) {
		m.off = off
		off++
		nd.Assert(o.omp.ProcessMessage(m) == nil, "no error")
		nd.Settle()
		o.drain()
	}
	main := grow(2*t + 5)
	at := nd.Choose("height", 2)
	c := newContent()
	c.number, c.hash, c.parent = main[at].num, hashOf(1), main[at].phash
	c.weight = bigOf(rootWeight + int64(at) + 100)
	c.updates["p/x"] = nd.Bytes("v", 1)
	ms := produce(p, c)
	nd.Assert(len(ms) == 2, "two messages")
	for i, b := range main {
		if i == at {
			send(ms[0])
		}
		send(blockMessage(p, b))
		nd.Assert(o.head().Hash == b.hash, "the chain grows")
	}
	nd.Assert(o.omp.WhyNotReady(c.hash) == "not found", "the block is forgotten")
	num, hash := main[at].num-1, main[at].phash
	m := p.Reorg(num, hash)
	send(&rm{key: m.Key(), value: m.Value(), src: "r:0"})
	for o.head().Hash != hash {
		o.chain = o.chain[:len(o.chain)-1]
	}
	first := nd.Choose("first", 2)
	for _, i := range []int{first, 1 - first} {
		send(&rm{key: ms[i].key, value: ms[i].value, src: "s:0"})
	}
	nd.Assert(o.head().Hash == c.hash, "the block follows the announced one")
	nd.Reach("followed")
}
