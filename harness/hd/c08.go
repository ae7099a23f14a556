package hd

import (
	"strconv"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"

	"verif/harness/nd"
)

// arrival is one message as it was read from a source.
type arrival struct {
	src   string
	off   int64
	block int // 0: the block looked at
	msg   int // number of the message
}

var sources = []string{"a:0", "a:1", "b-c.d:10"}

// tokenOf parses a resumption token strictly.
func tokenOf(pb *delivery.PendingBatch) map[string]int64 {
	t := map[string]int64{}
	for _, e := range strings.Split(pb.Resumption(), ";") {
		i := strings.LastIndexByte(e, '=')
		nd.Assert(i > 0, "entries have the form source=offset")
		n, err := strconv.ParseInt(e[i+1:], 10, 64)
		nd.Assert(err == nil, "offsets are numbers")
		_, dup := t[e[:i]]
		nd.Assert(!dup, "a source is named once")
		t[e[:i]] = n
	}
	return t
}

// checkToken compares the token of the block with what was read: as contains all
// arrivals up to the one that completed the block, at the index at which the
// block message was first read, n the number of messages of the block.
func checkToken(pb *delivery.PendingBatch, as []arrival, at, n int) {
	tok := tokenOf(pb)
	low, high := map[string]int64{}, map[string]int64{}
	own := map[string]bool{}
	for i, a := range as {
		if a.block == 0 {
			if o, ok := low[a.src]; !ok || a.off < o {
				low[a.src] = a.off
			}
			own[a.src] = true
		}
		if i <= at {
			if o, ok := high[a.src]; !ok || a.off > o {
				high[a.src] = a.off
			}
		}
	}
	for s, o := range tok {
		_, h := high[s]
		nd.Assert(own[s] || h, "only sources that were read are named")
		if !own[s] {
			nd.Assert(o == high[s], "offset of a source without messages of the block: the highest read before the block message")
			nd.Reach("bystander")
		} else {
			nd.Assert(o >= low[s], "offset of a source is not below the first message of the block")
		}
	}
	for s := range low {
		_, ok := tok[s]
		nd.Assert(ok, "every source of the block is named")
	}
	for s := range high {
		_, ok := tok[s]
		nd.Assert(ok, "every source read before the block message is named")
	}
	for m := 0; m < n; m++ {
		found := false
		for _, a := range as {
			if a.block == 0 && a.msg == m {
				found = nd.Or(found, a.off >= tok[a.src])
			}
		}
		nd.Assert(found, "reading from the token delivers every message of the block")
	}
	nd.Reach("checked")
}

// tokenRun delivers msgs (of the block looked at) and noise (of other blocks) in
// the order given; offset gives the offset of a delivery on a source.
func tokenRun(order []int, msgs, noise []*rm, src func(i int) string, offset func(src string) int64) {
	co := newConsumer(config())
	var as []arrival
	at := -1
	seen := map[int]bool{}
	for _, i := range order {
		var m rm
		a := arrival{msg: i}
		if i < len(msgs) {
			m = *msgs[i]
			seen[i] = true
		} else {
			m = *noise[i-len(msgs)]
			a.block = 1
		}
		m.src = src(i)
		m.off = offset(m.src)
		a.src, a.off = m.src, m.off
		as = append(as, a)
		if i == 0 && at < 0 {
			at = len(as) - 1
		}
		nd.Assert(co.mp.ProcessMessage(&m) == nil, "no error")
		out := co.emitted()
		if len(seen) == len(msgs) {
			nd.Assert(len(out) == 1, "the complete block is emitted")
			checkToken(out[0], as, at, len(msgs))
			return
		}
		nd.Assert(len(out) == 0, "an incomplete block is not emitted")
	}
}

// tokenBlock produces a block of 3 messages of the kind chosen, and single
// messages of a block that stays unfinished.
func tokenBlock(p *delivery.Producer, kind int) ([]*rm, []*rm) {
	c := newContent()
	c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
	switch kind {
	case 0:
		c.updates["p/k"] = []byte{1}
		c.deletes["p/d"] = struct{}{}
	case 1:
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/x": []byte{1}}}
	}
	d := newContent()
	d.number, d.hash, d.parent, d.weight = 5, hashOf(3), hashOf(2), bigOf(9)
	d.updates["p/k"] = []byte{1}
	d.updates["p/d"] = []byte{1}
	msgs, noise := produce(p, c), produce(p, d)
	nd.Assert(len(msgs) == 3 && msgs[0].key[0] == 0 && len(noise) == 3, "messages")
	return msgs, noise[:2]
}

// growing returns a function giving growing arbitrary offsets below limit.
func growing(limit int64) func(string) int64 {
	last := map[string]int64{}
	return func(src string) int64 {
		o := nd.Int64("offset")
		nd.Assume(o >= 0 && o < limit)
		if l, ok := last[src]; ok {
			nd.Assume(o > l)
		}
		last[src] = o
		return o
	}
}

// C08_order: the messages of a block and of an unfinished one on three sources.
// Bounds: two kinds of blocks of 3 messages in every order and one message of
// another block in every place, each on any of three sources, arbitrary growing
// offsets below 100.
// Weight: 3
func C08_order() {
	msgs, noise := tokenBlock(newProducer(mixedSchema), nd.Choose("kind", 2))
	where := map[int]string{}
	for i := 0; i <= len(msgs); i++ {
		n := i + 1 // sources are interchangeable
		if n > len(sources) {
			n = len(sources)
		}
		where[i] = sources[nd.Choose("source", n)]
	}
	tokenRun(permutation("order", len(msgs)+1), msgs, noise, func(i int) string { return where[i] }, growing(100))
}

// C08_repeat: messages are delivered again, at the same source, before the block
// is complete.
// Bounds: two kinds of blocks of 3 messages in every order with one or two
// repetitions (quick: one) of any of them anywhere, on two sources, after a
// message of another block on a third; all at any offsets below 10.
// Weight: 3
func C08_repeat() {
	msgs, noise := tokenBlock(newProducer(mixedSchema), nd.Choose("kind", 2))
	where := map[int]string{}
	for i := 0; i < len(msgs); i++ {
		where[i] = sources[nd.Choose("source", 2)]
	}
	where[len(msgs)] = sources[2]
	order := []int{0, 1, 2}
	n := 1
	if nd.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		order = append(order, nd.Choose("repeat", 3))
	}
	o := []int{3}
	for _, i := range permutation("order", len(order)) {
		o = append(o, order[i])
	}
	tokenRun(o, msgs, noise, func(i int) string { return where[i] }, func(string) int64 {
		o := nd.Int64("offset")
		nd.Assume(o >= 0 && o < 10)
		return o
	})
}

// C08_wide: arbitrary 63-bit offsets.
// Bounds: a block of 3 messages in every order on one or two sources; the
// offsets of one source arbitrary, those of the other 5, 6 and 7.
func C08_wide() {
	msgs, noise := tokenBlock(newProducer(mixedSchema), 0)
	where := map[int]string{}
	for i := 0; i < len(msgs); i++ {
		where[i] = sources[nd.Choose("source", 2)]
	}
	where[len(msgs)] = sources[2]
	n := int64(5)
	any := growing(1<<63 - 1)
	tokenRun(append([]int{3}, permutation("order", len(msgs))...), msgs, noise, func(i int) string { return where[i] }, func(s string) int64 {
		if s == sources[2] {
			return 77
		}
		if s == sources[0] {
			return any(s)
		}
		n++
		return n
	})
}

// C08_seq: the tokens of several blocks in sequence.
// Bounds: three blocks of 2 messages one after another on two sources each
// chosen anew, concrete offsets.
func C08_seq() {
	p := newProducer(mixedSchema)
	co := newConsumer(config())
	next := map[string]int64{sources[0]: int64(nd.Choose("base", 2)) * 99, sources[1]: 9}
	var as []arrival
	for b := 1; b <= 3; b++ {
		c := newContent()
		c.number, c.hash, c.parent, c.weight = int64(b), hashOf(byte(b)), hashOf(byte(b-1)), bigOf(int64(b))
		c.updates["p/k"] = []byte{1}
		msgs := produce(p, c)
		at := -1
		for i := range as {
			as[i].block = 1
		}
		for _, i := range permutation("order", len(msgs)) {
			m := *msgs[i]
			m.src = sources[nd.Choose("source", 2)]
			m.off = next[m.src]
			next[m.src]++
			if i == 0 {
				at = len(as)
			}
			as = append(as, arrival{m.src, m.off, 0, i})
			nd.Assert(co.mp.ProcessMessage(&m) == nil, "no error")
		}
		out := co.emitted()
		nd.Assert(len(out) == 1, "the complete block is emitted")
		checkToken(out[0], as, at, len(msgs))
	}
}
