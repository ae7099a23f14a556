package hd

import (
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"

	"verif/harness/nd"
)

// C12_fork: after a long chain, a heavier branch within the window.
// Bounds: thresholds 1 and 2 (thorough: 3); chains of 2*threshold+2 blocks, the
// branch forking up to threshold blocks below the head, up to one block longer,
// delivered in any order after the chain, with arbitrary weights; up to one block
// of the window redelivered anywhere in between.
// Weight: 3
func C12_fork() {
	t := 1 + nd.Choose("threshold", 2)
	if nd.Thorough() {
		t += nd.Choose("threshold", 2)
	}
	o := newOrdered(int64(t), nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	main := grow(2*t + 2)
	for _, b := range main {
		o.deliver(b)
	}
	head := main[len(main)-1]
	nd.Assert(o.head().Hash == head.hash, "a plain chain is followed")
	d := 1 + nd.Choose("depth", t)
	base := main[len(main)-1-d]
	var branch []*node
	w := base.weight
	n := d + nd.Choose("longer", 2)
	for i := 0; i < n; i++ {
		b := &node{num: base.num + 1 + int64(i), hash: hashOf(byte(i + 1)), phash: base.hash}
		if i > 0 {
			b.phash = branch[i-1].hash
		}
		b.weight = new(big.Int).SetUint64(uint64(nd.Byte("weight")))
		nd.Assume(b.weight.Cmp(w) > 0)
		w = b.weight
		branch = append(branch, b)
	}
	again := nd.Choose("redelivered", d+1)
	order := permutation("order", n)
	at := nd.Choose("when", n)
	for i, j := range order {
		if again < d && i == at {
			o.deliver(main[len(main)-1-again])
		}
		o.deliver(branch[j])
	}
	if w.Cmp(head.weight) > 0 {
		nd.Assert(o.head().Hash == branch[n-1].hash, "the heavier branch is followed")
		nd.Reach("followed")
		nd.Assert(o.reorgs > 0, "the switch is announced as a reorg")
	} else {
		nd.Assert(o.head().Hash == head.hash, "a branch that is not heavier is not followed")
		nd.Reach("ignored")
	}
}

// C12_old: a branch that forks below the window is never followed, and does not
// keep the chain from growing.
// Bounds: thresholds 1 and 2; a chain of 2*threshold+3 blocks, a branch of up to
// 3 blocks forking 2*threshold+1 or 2*threshold+2 blocks below the head, on a
// block of the chain, with arbitrary growing weights, in any order after the
// chain; then two more blocks of the chain.
func C12_old() {
	t := 1 + nd.Choose("threshold", 2)
	o := newOrdered(int64(t), nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	main := grow(2*t + 5)
	more := main[2*t+3:]
	main = main[:2*t+3]
	for _, b := range main {
		o.deliver(b)
	}
	base := main[nd.Choose("base", 2)]
	var branch []*node
	n := 1 + nd.Choose("length", 3)
	w := base.weight
	for i := 0; i < n; i++ {
		b := &node{num: base.num + 1 + int64(i), hash: hashOf(byte(i + 1)), phash: base.hash}
		if i > 0 {
			b.phash = branch[i-1].hash
		}
		b.weight = new(big.Int).SetUint64(uint64(nd.Byte("weight")))
		nd.Assume(b.weight.Cmp(w) > 0)
		w = b.weight
		branch = append(branch, b)
	}
	first := branch[0]
	order := permutation("order", n)
	for _, j := range order {
		o.deliver(branch[j])
		nd.Assert(o.head().Hash == main[len(main)-1].hash, "a branch from below the window is not followed")
	}
	if order[0] == 0 && first.weight.Cmp(main[len(main)-1].weight) < 0 && first.num < main[len(main)-1].num-int64(t) {
		nd.Assert(o.omp.WhyNotReady(first.hash) == "not found", "a light block from below the window is dropped")
		nd.Reach("dropped")
	}
	for _, b := range more {
		o.deliver(b)
		nd.Assert(o.head().Hash == b.hash, "the chain grows on")
	}
}

// C12_release: blocks that fall out of the window are forgotten, those in it are
// kept, and repeating any block emits nothing.
// Bounds: thresholds 1 to 3; a chain of 3*threshold+2 blocks with at each height
// possibly a lighter sibling (before or after the block); then any one of all
// blocks again.
func C12_release() {
	t := 1 + nd.Choose("threshold", 3)
	o := newOrdered(int64(t), nil)
	o.deliver(rootNode())
	main := grow(3*t + 2)
	for i, b := range main {
		b.weight = bigOf(rootWeight + 3*int64(i+1))
	}
	all := []*node{}
	side := nd.Choose("sibling at", len(main)+1)
	every := nd.Choose("every", 2) == 1
	before := nd.Choose("before", 2) == 1
	for i, b := range main {
		var s *node
		if i == side || every && i > side && (i-side)%2 == 0 {
			s = &node{num: b.num, hash: hashOf(byte(i + 1)), phash: b.phash, weight: new(big.Int).Sub(b.weight, bigOf(int64(nd.Choose("lighter", 2))))}
			all = append(all, s)
		}
		if s != nil && before && s.weight.Cmp(b.weight) < 0 {
			// the sibling comes first and is replaced
			o.deliver(s)
		}
		o.deliver(b)
		if s != nil && !(before && s.weight.Cmp(b.weight) < 0) {
			o.deliver(s)
		}
		nd.Assert(o.head().Hash == b.hash, "the chain is followed")
		all = append(all, b)
		for _, x := range all {
			y := o.omp.WhyNotReady(x.hash)
			if b.num-x.num >= int64(2*t) {
				nd.Assert(y == "not found", "a block below the window is forgotten")
				nd.Reach("forgotten")
			}
			if side == len(main) && b.num-x.num < int64(2*t) {
				nd.Assert(y == "done, not evicted", "a block in the window is kept")
			}
		}
	}
	h := len(o.chain)
	o.deliver(all[nd.Choose("again", len(all))])
	nd.Assert(len(o.chain) == h && o.head().Hash == main[len(main)-1].hash, "a repeated block changes nothing")
}

// C12_incomplete: a block that misses a message while the chain grows.
// Bounds: thresholds 1 to 3; a chain of blocks that come as messages, a branch of
// one block at any height, announced before or after the block it competes with,
// whose last message comes up to 2*threshold+2 blocks later; arbitrary weight.
func C12_incomplete() {
	t := 1 + nd.Choose("threshold", 3)
	o := newOrdered(int64(t), nil)
	ch := make(chan *delivery.PendingBatch, 64)
	o.omp.Subscribe(ch)
	p := newProducer(mixedSchema)
	off := int64(0)
	send := func(m *rm) {
		m.off = off
		off++
		nd.Assert(o.omp.ProcessMessage(m) == nil, "no error")
		nd.Settle()
		o.drain()
	}
	main := grow(3*t + 4)
	at := nd.Choose("height", t+2)
	late := nd.Choose("late", 2*t+3)
	c := newContent()
	c.number, c.hash, c.parent = main[at].num, hashOf(1), main[at].phash
	c.weight = new(big.Int).SetUint64(uint64(nd.Byte("weight")))
	nd.Assume(c.weight.Cmp(bigOf(rootWeight+int64(at))) > 0)
	c.updates["p/x"] = []byte{1}
	ms := produce(p, c)
	nd.Assert(len(ms) == 2, "two messages")
	early := nd.Choose("early", 2) == 1
	if early {
		for i := range ms {
			ms[i].src = "s:0"
		}
	}
	seen := func() int {
		n := 0
		for {
			select {
			case b := <-ch:
				if b.Hash == c.hash {
					n++
				}
			default:
				return n
			}
		}
	}
	for i, b := range main {
		if i == at && early {
			send(ms[0])
		}
		send(blockMessage(p, b))
		if i == at && !early {
			send(ms[0])
		}
		nd.Assert(o.head().Hash == b.hash, "the chain grows")
		nd.Assert(seen() == 0, "the block is not complete")
		if i-at > 2*t+1 {
			nd.Assert(o.omp.WhyNotReady(c.hash) == "not found", "a block below the window is forgotten")
			nd.Reach("forgotten")
		} else if i >= at {
			nd.Assert(i-at > t || o.omp.WhyNotReady(c.hash) != "not found", "a block in the window is waited for")
		}
		if i != at+late {
			continue
		}
		send(ms[1])
		n := seen()
		if late <= t {
			nd.Assert(n == 1, "a block in the window that becomes complete is emitted")
			nd.Reach("completed")
			if late < t && c.weight.Cmp(b.weight) > 0 {
				nd.Assert(o.head().Hash == c.hash, "it is followed if it is heavier")
				nd.Reach("followed")
			} else if late < t {
				nd.Assert(o.head().Hash == b.hash, "it is not followed unless it is heavier")
			}
		}
		return
	}
}
