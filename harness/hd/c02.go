package hd

import (
	"math/big"

	"verif/harness/nd"
)

// C02_missing: all messages but one, in every order and with one of them
// repeated anywhere: nothing comes out; the missing message brings the block
// out at once; repeating any message afterwards brings out nothing.
// Bounds: 5 messages (block, prefixed update and delete, header, item), each of
// them as the missing one; every order of the other four plus one repeat; one
// message repeated after emission; values of 0 or 1 arbitrary bytes.
// Weight: 2
func C02_missing() {
	c := mixed(1)
	msgs := produce(newProducer(mixedSchema), c)
	x := nd.Choose("missing", len(msgs))
	missing := msgs[x]
	var rest []*rm
	for i, m := range msgs {
		if i != x {
			rest = append(rest, m)
		}
	}
	rest = append(rest, rest[nd.Choose("dup", len(rest))])
	if nd.Thorough() {
		rest = append(rest, rest[nd.Choose("dup2", len(rest)-1)])
	}
	co := newConsumer(config())
	for _, i := range permutation("order", len(rest)) {
		nd.Assert(co.deliver(rest[i]) == nil, "no error")
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
	}
	nd.Assert(co.deliver(missing) == nil, "no error")
	out := co.emitted()
	nd.Assert(len(out) == 1, "complete block emitted once")
	sameBatch(out[0], c, "batch")
	nd.Assert(co.deliver(msgs[nd.Choose("after", len(msgs))]) == nil, "no error")
	nd.Assert(len(co.ch) == 0, "emitted again")
	nd.Reach("emitted")
}

// C02_counts: a prefix with several messages and a sub-batch with several items:
// nothing comes out while one of them is missing although the others are
// repeated as often as messages are owed.
// Bounds: 2 to 4 messages under one prefix or items in one sub-batch, one
// missing, the others repeated until 5 messages were delivered; values of 0 or 1
// bytes.
func C02_counts() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	n := 2 + nd.Choose("n", 3)
	kind := nd.Choose("kind", 3)
	s := sub{updates: map[string][]byte{}}
	for i := 0; i < n; i++ {
		k := string([]byte{'a' + byte(i)})
		switch kind {
		case 0:
			c.updates["p/"+k] = nd.Bytes("v", nd.Choose("len", 2))
		case 1:
			c.deletes["p/"+k] = struct{}{}
		case 2:
			s.updates["s/"+k] = nd.Bytes("v", nd.Choose("len", 2))
		}
	}
	if kind == 2 {
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = s
	}
	msgs := produce(newProducer(mixedSchema), c)
	co := newConsumer(config())
	first := len(msgs) - n
	for _, m := range msgs[:first] {
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	x := first + nd.Choose("missing", n)
	for i := 0; i < 5; i++ {
		j := first + nd.Choose("which", n-1)
		if j >= x {
			j++
		}
		nd.Assert(co.deliver(msgs[j]) == nil, "no error")
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
	}
	for j := first; j < len(msgs); j++ {
		if j != x {
			nd.Assert(co.deliver(msgs[j]) == nil, "no error")
		}
	}
	nd.Assert(len(co.ch) == 0, "incomplete block emitted")
	nd.Assert(co.deliver(msgs[x]) == nil, "no error")
	out := co.emitted()
	nd.Assert(len(out) == 1, "complete block emitted once")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C02_twosubs: a block announcing two sub-batches, one of which may be empty.
// Bounds: 2 sub-batches of 0 to 1 items, any order of the up to 5 messages, one
// of them missing until the end.
func C02_twosubs() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	for i := 0; i < 2; i++ {
		k := []string{"s/", "r/"}[i]
		s := sub{updates: map[string][]byte{}}
		if nd.Choose("items", 2) == 1 {
			s.updates[k+"u"] = nd.Bytes("v", 1)
		}
		c.batches[k] = hashOf(byte(7 + i))
		c.subs[hashOf(byte(7+i))] = s
	}
	msgs := produce(newProducer(mixedSchema), c)
	co := newConsumer(config())
	for n, i := range permutation("order", len(msgs)) {
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
		_ = n
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "complete block emitted once")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C02_window: after a block was emitted, up to 2*threshold-1 other blocks are
// emitted, then all messages of the first are repeated: nothing comes out.
// Bounds: reorg threshold 1 to 3, 0 to 2*threshold-1 other blocks with growing,
// equal or falling numbers, block with 5 messages repeated in production order;
// any last number before.
func C02_window() {
	thr := 1 + nd.Choose("threshold", 3)
	cfg := config()
	cfg.ReorgThreshold = int64(thr)
	co := newConsumer(cfg)
	p := newProducer(mixedSchema)
	c := mixed(1)
	msgs := produce(p, c)
	for _, m := range msgs {
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	nd.Assert(len(co.emitted()) == 1, "block emitted")
	n := nd.Choose("others", 2*thr)
	num, by := int64(6), int64(nd.Choose("numbers", 3)-1)
	for i := 0; i < n; i++ {
		o := newContent()
		o.number, o.weight, o.hash, o.parent = num+by*int64(i), big.NewInt(10), hashOf(byte(100+i)), hashOf(1)
		for _, m := range produce(p, o) {
			nd.Assert(co.deliver(m) == nil, "no error")
		}
		nd.Assert(len(co.emitted()) == 1, "other block emitted")
	}
	for _, m := range msgs {
		nd.Assert(co.deliver(m) == nil, "no error")
		nd.Assert(len(co.ch) == 0, "emitted again")
	}
	nd.Reach("window")
}
