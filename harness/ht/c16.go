package ht

import (
	"errors"

	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// someContent has entries of one or all kinds.
func someContent(c *content) {
	kind := nd.Choose("kind", 5)
	if kind == 0 || kind == 4 {
		c.updates["k"] = nd.Bytes("v", nd.Choose("len", 2))
	}
	if kind == 1 || kind == 4 {
		c.updates["p/u"] = nd.Bytes("v", 1)
		c.deletes["p/d"] = struct{}{}
	}
	if kind == 2 || kind == 4 {
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = sub{deletes: []string{"s/d"}, updates: map[string][]byte{"s/u": nd.Bytes("v", 1)}}
	}
	if kind == 3 || kind == 4 {
		c.batches["t/"] = hashOf(8)
		c.subs[hashOf(8)] = sub{}
	}
}

// C16_publish: what a block and its sub-batches put on the topics.
// Bounds: blocks with any hash, number and parent, of five kinds; topics exist
// or not; one or two partitions.
func C16_publish() {
	w := cluster()
	if nd.Choose("exists", 2) == 1 {
		w.AddTopic("def", 1+nd.Choose("partitions", 2))
	}
	p := kafkaProducer()
	c := newContent(nd.Int64("number"), symHash("hash"), symHash("parent"))
	nd.Assume(c.number >= 0)
	someContent(c)
	b := newReference().bundle(c)
	nd.Assert(add(p, c) == nil, "block is accepted")
	exactly(handed(), b.block, "block")
	for _, id := range sortedIDs(c.batches) {
		nd.Assert(send(p, c, id) == nil, "sub-batch is accepted")
		exactly(handed(), b.subs[id], "sub-batch")
		nd.Assert(send(p, c, id) != nil, "a sub-batch is sent once")
		exactly(handed(), nil, "refused sub-batch")
	}
	nd.Assert(send(p, c, symHash("id")) != nil || len(c.batches) > 0, "an unknown sub-batch is refused")
	nd.Settle()
	n := 0
	for _, ls := range w.Topics {
		for _, l := range ls {
			n += len(l.Msgs)
		}
	}
	nd.Assert(n == len(b.all()), "everything is on the topics once")
	nd.Reach("published")
}

// C16_errors: broker errors while publishing.
// Bounds: three blocks of two messages each and a sub-batch of two; any one or two
// messages are refused by the broker; the errors come back before the next
// message, or whenever the producer looks.
// Weight: 2
func C16_errors() {
	w := cluster()
	p := kafkaProducer()
	ref := newReference()
	n, x, y := 0, nd.Choose("refused", 8), nd.Choose("refused", 8)
	refused := errors.New("refused")
	w.Fail = func(*sarama.ProducerMessage) error {
		n++
		if n-1 == x || n-1 == y {
			return refused
		}
		return nil
	}
	slow := nd.Choose("slow", 2) == 1
	returned := 0
	type outcome struct {
		ok   bool
		want []message
	}
	var calls []outcome
	call := func(err error, want []message) {
		calls = append(calls, outcome{err == nil, want})
		if err != nil {
			nd.Assert(errors.Is(err, refused), "the broker's error")
			returned++
			nd.Reach("error")
		}
		if slow {
			nd.Settle()
		}
	}
	for i := 0; i < 3; i++ {
		c := newContent(int64(i), hashOf(byte(i+1)), hashOf(byte(i)))
		c.updates["p/u"] = []byte{1}
		if i == 1 {
			c.batches["s/"] = hashOf(7)
			c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/u": {2}}}
		}
		b := ref.bundle(c)
		call(add(p, c), b.block)
		for _, id := range sortedIDs(c.batches) {
			call(send(p, c, id), b.subs[id])
		}
	}
	got := handed()
	nd.Assert(returned == w.Reported, "errors of the broker are returned to the caller")
	total := 0
	for _, o := range calls {
		for _, m := range o.want {
			n := 0
			for _, g := range got {
				if g.is(m) {
					n++
				}
			}
			total += n
			nd.Assert(n <= 1, "no message is published twice")
			nd.Assert(n == 1 || !o.ok, "what was accepted is published")
		}
	}
	nd.Assert(total == len(got), "nothing else is published")
	nd.Reach("end")
}

// garbage are messages a producer must not stumble over.
func garbage() []message {
	return []message{
		{"def", nil, nil},
		{"def", []byte{byte(delivery.BatchType)}, []byte{1}},
		{"def", append([]byte{byte(delivery.BatchType)}, nd.Bytes("garbage", 31)...), nil},
		{"def", append([]byte{byte(delivery.PingType)}, nd.Bytes("garbage", 3)...), []byte{1}},
		{"def", []byte{255, 1}, nil},
		{"def", []byte{byte(delivery.PingType)}, nil},
	}
}

// dedup checks how p handles c after seen came by on the feed.
func dedup(p transports.Producer, c *content, seen types.Hash) {
	b := newReference().bundle(c)
	again := func(what string) {
		nd.Assert(add(p, c) == nil, "block is accepted")
		exactly(handed(), b.block, what)
		for _, id := range sortedIDs(c.batches) {
			nd.Assert(send(p, c, id) == nil, "sub-batch is accepted")
			exactly(handed(), b.subs[id], what+"'s sub-batch")
		}
	}
	if c.hash == seen {
		for i := 0; i < 2; i++ {
			nd.Assert(add(p, c) == nil, "block is accepted")
			nd.Settle()
			exactly(handed(), nil, "block seen before")
		}
		for _, id := range sortedIDs(c.batches) {
			nd.Assert(send(p, c, id) == nil, "sub-batch is accepted")
			nd.Settle()
			exactly(handed(), nil, "sub-batch of a block seen before")
		}
		p.PurgeReplayCache()
		again("block after purging")
		nd.Reach("seen")
	} else {
		again("new block")
		nd.Reach("new")
	}
}

// C16_seen: blocks of other producers on the feed.
// Bounds: a block with any hash on one of two partitions of the feed, before the
// producer starts or afterwards, with garbage of six kinds before or after it;
// then a block of any hash, of five kinds, with its sub-batches; afterwards
// again with the cache purged.
// Weight: 2
func C16_seen() {
	w := cluster()
	w.AddTopic("def", 2)
	other := newContent(4, symHash("seen"), hashOf(1))
	for i := 0; i < 2; i++ {
		if nd.Choose("old messages", 2) == 1 {
			put(w, i, message{"def", append([]byte{byte(delivery.BatchMsgType)}, make([]byte, 40)...), nil})
		}
	}
	part := nd.Choose("partition", 2)
	feed := func() {
		ms := newReference().block(other)
		if g := nd.Choose("garbage", 7); g < 6 {
			if nd.Choose("garbage first", 2) == 1 {
				ms = []message{garbage()[g], ms[0]}
			} else {
				ms = append(ms, garbage()[g])
			}
		}
		put(w, part, ms...)
	}
	before := nd.Choose("before", 2) == 1
	if before {
		feed()
	}
	p := kafkaProducer()
	if !before {
		feed()
		nd.Settle()
	}
	c := newContent(5, symHash("hash"), symHash("parent"))
	someContent(c)
	dedup(p, c, other.hash)
}

// C16_startup: a producer that was created knows the last blocks on the feed.
// Bounds: one or two partitions with one or two blocks each, one also without; a producer that is
// used as soon as it was created; schedules with up to two deviations.
// Weight: 2
func C16_startup() {
	w := cluster()
	n := 1 + nd.Choose("partitions", 2)
	w.AddTopic("def", n)
	ref := newReference()
	var bs []*bundle
	for i := 0; i < n; i++ {
		for j := nd.Choose("blocks", 2) + 1 - i; j > 0; j-- {
			b := ref.bundle(newContent(int64(j), hashOf(byte(10*i+j)), hashOf(100)))
			put(w, i, b.block...)
			bs = append(bs, b)
		}
	}
	nd.Config("sched", 2)
	if nd.Thorough() {
		nd.Config("preempt", 3)
	} else {
		nd.Config("preempt", 2)
	}
	p, err := transports.NewKafkaProducer("kafka://h:1", "def", nil)
	nd.Assert(err == nil, "producer is created")
	nd.Config("sched", 0)
	b := bs[nd.Choose("block", len(bs))]
	nd.Assert(add(p, b.c) == nil, "block is accepted")
	exactly(handed(), nil, "block seen before")
	nd.Reach("skipped")
}

// C16_history: long, trimmed and expired feeds.
// Bounds: a feed of 3, 100 or 150 messages, of which the first 0, 2 or all have
// expired; a block among the last 100 messages.
func C16_history() {
	w := cluster()
	l := w.AddTopic("def", 1)[0]
	n := []int{3, 100, 150}[nd.Choose("length", 3)]
	at := n - 1 - []int{0, 1, 2, 99}[nd.Choose("back", 4)]
	nd.Assume(at >= 0)
	b := newReference().bundle(newContent(4, hashOf(3), hashOf(1)))
	for i := 0; i < n; i++ {
		if i == at {
			put(w, 0, b.block...)
		} else {
			put(w, 0, message{"def", []byte{byte(delivery.PingType), byte(i)}, nil})
		}
	}
	switch nd.Choose("expired", 3) {
	case 1:
		l.Start, l.Msgs = 2, l.Msgs[2:]
		nd.Assume(at >= 2)
	case 2:
		l.Start, l.Msgs = int64(n), nil
		p := kafkaProducer()
		nd.Assert(add(p, b.c) == nil, "block is accepted")
		exactly(handed(), b.block, "new block")
		nd.Reach("expired")
		return
	}
	p := kafkaProducer()
	nd.Assert(add(p, b.c) == nil, "block is accepted")
	exactly(handed(), nil, "block seen before")
	nd.Reach("skipped")
}

// C16_again: sub-batches of a block that becomes known while they are sent.
// Bounds: a block with two sub-batches; it, or another block with the same
// sub-batches, comes by on the feed, and is added again, at any point while the
// first block and its sub-batches are published, which are all sent twice; any
// hash of the block that comes by.
func C16_again() {
	w := cluster()
	w.AddTopic("def", 1)
	p := kafkaProducer()
	c := newContent(5, hashOf(9), hashOf(1))
	c.batches["s/"], c.batches["x/"] = hashOf(7), hashOf(8)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/u": {2}, "s/v": {3}}}
	c.subs[hashOf(8)] = sub{updates: map[string][]byte{"x/u": {4}}}
	other := newContent(5, symHash("other"), hashOf(2))
	other.batches = c.batches
	at := nd.Choose("at", 4)
	b := newReference().bundle(c)
	step := func(i int) {
		if i != at {
			return
		}
		put(w, 0, newReference().bundle(other).block...)
		nd.Settle()
		for j := 0; j < 2; j++ {
			nd.Assert(add(p, other) == nil, "block is accepted")
			nd.Settle()
			exactly(handed(), nil, "block seen before")
		}
	}
	if other.hash != c.hash {
		step(0)
	}
	nd.Assert(add(p, c) == nil, "block is accepted")
	exactly(handed(), b.block, "new block")
	step(1)
	for i, id := range sortedIDs(c.batches) {
		nd.Assert(send(p, c, id) == nil, "sub-batch is accepted")
		exactly(handed(), b.subs[id], "sub-batch of a published block")
		step(i + 2)
	}
	for _, id := range sortedIDs(c.batches) {
		send(p, c, id)
		nd.Settle()
		exactly(handed(), nil, "sub-batch that was published")
	}
	nd.Reach("end")
}
