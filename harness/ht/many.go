package ht

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// rig is a consumer of any kind, a Kafka cluster and a websocket producer.
type rig struct {
	*reader
	w     *sarama.World
	s     *station
	kinds string // of the brokers it reads: k and K (two clusters), w, n (nothing)
}

var kindURLs = map[rune]transports.BrokerParams{
	'k': {URL: "kafka://a:1", DefaultTopic: "def", Topics: allTopics},
	'K': {URL: "cardinal://kafka://b:1", DefaultTopic: "def2", Topics: []string{"def2", "tp2", "ts2"}},
	'w': {URL: "ws://h:8000"},
	'n': {URL: "null://"},
}

// newRig makes a consumer of one of several combinations of brokers.
func newRig(combinations ...string) *rig {
	g := &rig{kinds: combinations[nd.Choose("brokers", len(combinations))]}
	g.w = cluster()
	for _, s := range []string{"", "2"} {
		for _, t := range allTopics {
			g.w.AddTopic(t+s, 1)
		}
	}
	g.s = newStation()
	if len(g.kinds) == 1 {
		p := kindURLs[rune(g.kinds[0])]
		c, err := transports.ResolveConsumer(p.URL, p.DefaultTopic, p.Topics, nil, p.Rollback, consumerConfig())
		nd.Assert(err == nil && c != nil, "consumer is created")
		g.reader = &reader{c: c, ch: make(chan *delivery.ChainUpdate, 64)}
		c.Subscribe(g.ch)
		return g
	}
	var params []transports.BrokerParams
	for _, k := range g.kinds {
		params = append(params, kindURLs[k])
	}
	g.reader = newMux(params)
	return g
}

// source chooses the broker that something comes from.
func (g *rig) source() byte {
	k := g.kinds[nd.Choose("source", len(g.kinds))]
	nd.Assume(k != 'n')
	return k
}

// put hands over messages at a Kafka broker.
func (g *rig) put(k byte, ms ...message) {
	if k == 'K' {
		ms = moved(ms, "2")
	}
	put(g.w, 0, ms...)
	nd.Settle()
}

// deliver hands over a block at any broker.
func (g *rig) deliver(k byte, c *content) {
	if k == 'w' {
		g.s.bundle(c)
		nd.Settle()
		return
	}
	g.put(k, newReference().bundle(c).all()...)
}

func (g *rig) start() {
	nd.Assert(g.c.Start() == nil, "started")
	nd.Settle()
}

// outstanding lists what can truthfully be said about a block of which these
// messages have been delivered; nothing if it is complete.
func outstanding(msgs []message, got []bool) []string {
	var out []string
	for i, m := range msgs {
		if got[i] {
			continue
		}
		switch delivery.MessageType(m.key[0]) {
		case delivery.BatchType:
			return []string{"not found"}
		case delivery.SubBatchHeaderType:
			out = append(out, "Pending batches")
		case delivery.SubBatchMsgType:
			for j, h := range msgs {
				if got[j] && delivery.MessageType(h.key[0]) == delivery.SubBatchHeaderType && string(h.key[33:65]) == string(m.key[33:65]) {
					out = append(out, fmt.Sprintf("Pending batch '%#x'[%v]", m.key[33:65], m.key[65]/2))
				}
			}
		default:
			p := string(m.key[33:])
			out = append(out, fmt.Sprintf("Pending prefix '%v'", p[:strings.Index(p, "/")+1]))
		}
	}
	return out
}

// C25_brokers: the question asked of every kind of consumer.
// Bounds: a consumer of one Kafka broker, one websocket, or of two or three brokers of
// which one can be null; a block with an update under a prefix and a sub-batch of
// two items, coming from any of the brokers, its messages in one of five orders;
// its parent is known or not.
func C25_brokers() {
	g := newRig("k", "w", "nk", "kn", "wk", "kw", "kK", "nwk")
	g.start()
	c := newContent(11, hashOf(1), rootHash())
	orphan := nd.Choose("orphan", 2) == 1
	if orphan {
		c.parent = hashOf(150)
	}
	c.updates["k"], c.updates["p/u"] = []byte{1}, nd.Bytes("v", 1)
	id := hashOf(100)
	c.batches["s/"] = id
	c.subs[id] = sub{updates: map[string][]byte{"s/u": {2}}, deletes: []string{"s/d"}}
	why := func() string { return g.c.WhyNotReady(c.hash) }
	nd.Assert(why() == "not found", "nothing of the block has arrived")
	from := g.source()
	if from == 'w' {
		g.deliver(from, c)
	} else {
		msgs := newReference().bundle(c).all()
		turn, back := nd.Choose("first", len(msgs)), nd.Choose("backwards", 2) == 1
		got := make([]bool, len(msgs))
		for i := range msgs {
			j := (i + turn) % len(msgs)
			if back {
				j = len(msgs) - 1 - j
			}
			if out := outstanding(msgs, got); true {
				w, ok := why(), false
				for _, x := range out {
					ok = ok || w == x
				}
				nd.Assert(ok, "names something that is missing")
			}
			g.put(from, msgs[j])
			got[j] = true
		}
	}
	if orphan {
		nd.Assert(why() == "pending parent", "waits for its parent")
	} else {
		nd.Assert(why() == "done, not evicted", "delivered")
	}
	nd.Assert(g.c.WhyNotReady(hashOf(99)) == "not found", "another block")
	g.drain()
	nd.Assert(orphan == (len(g.got) == 0), "the block is delivered")
	nd.Reach("asked")
}

// C14_brokers: announcements over every kind of consumer.
// Bounds: a consumer of one Kafka broker, one websocket, or of two or three brokers of
// which one can be null; a chain of two blocks, then the first block or the resumption
// point announced by any of the brokers, over Kafka on its own topic, then a lighter
// block on it from any of the brokers.
func C14_brokers() {
	g := newRig("k", "w", "nk", "wk", "kw", "kK")
	reorgs := make(chan map[int64]types.Hash, 10)
	g.c.SubscribeReorg(reorgs)
	g.start()
	first := g.source()
	a := newContent(11, hashOf(1), rootHash())
	b := newContent(12, hashOf(2), a.hash)
	g.deliver(first, a)
	g.deliver(first, b)
	num, h := int64(11), a.hash
	if nd.Choose("ancestor", 2) == 1 {
		num, h = 10, rootHash()
	}
	switch from := g.source(); from {
	case 'w':
		_, err := g.s.p.Reorg(num, h)
		nd.Assert(err == nil, "announced")
		nd.Settle()
	default:
		p, _ := delivery.NewProducer("def", kafkaSchema)
		m, done := p.Reorg(num, h), p.ReorgDone(num, h)
		re := fmt.Sprintf("def-re-%x", h[:])
		if from == 'K' {
			re = fmt.Sprintf("def2-re-%x", h[:])
		}
		g.w.AddTopic(re, 1)
		put(g.w, 0, message{re, m.Key(), m.Value()}, message{re, done.Key(), done.Value()})
		g.put(from, message{"def", m.Key(), m.Value()})
	}
	nd.Advance(20 * time.Second)
	nd.Assert(len(reorgs) == 1, "announced once")
	for n, x := range <-reorgs {
		nd.Assert(n == num && x == h, "the number and hash that were announced")
	}
	c := newContent(num+1, hashOf(60), h)
	c.weight = big.NewInt(50)
	g.deliver(g.source(), c)
	g.drain()
	nd.Assert(len(g.got) == 3 && g.got[2].Hash == c.hash, "the next block on the announced one")
	nd.Assert(len(reorgs) == 0, "nothing else is announced")
	nd.Reach("announced")
}

// C15_brokers: waiting for blocks of every kind of consumer.
// Bounds: a consumer of one Kafka broker, one websocket, or of two or three brokers of
// which one can be null; a block from any of the brokers, waited for by hash or number
// before it is known, while it is not acknowledged, and afterwards.
func C15_brokers() {
	g := newRig("k", "w", "nk", "wk", "kw", "kK")
	wt := g.c.Waiter()
	g.start()
	c := newContent(11, hashOf(1), rootHash())
	byNum := nd.Choose("by number", 2) == 1
	wait := func(d time.Duration) waiter.WaitResult {
		if byNum {
			return wt.WaitForNumberResult(11, d)
		}
		return wt.WaitForHashResult(c.hash, d)
	}
	nd.Assert(wait(time.Second) == waiter.NotFound, "never seen")
	g.deliver(g.source(), c)
	g.drain()
	nd.Assert(len(g.got) == 1, "the block is delivered")
	nd.Assert(wait(time.Second) == waiter.Timeout, "not acknowledged")
	var res waiter.WaitResult
	finished := false
	go func() {
		res = wait(5 * time.Second)
		finished = true
	}()
	nd.Advance(time.Second)
	nd.Assert(!finished, "waits")
	g.got[0].Done()
	nd.Settle()
	nd.Assert(finished && res == waiter.Success, "acknowledged during the wait")
	nd.Advance(59 * time.Second)
	nd.Assert(wait(time.Second) == waiter.Success, "acknowledged within the last minute")
	nd.Assert(g.c.Waiter() == wt, "always the same")
	nd.Reach("waited")
}

// C23_brokers: producers counted by a consumer of several brokers.
// Bounds: one Kafka broker, or two or three brokers of which one can be null or a websocket; up to
// three heartbeats of two producers a second apart at any of the brokers, counted
// within any of four durations.
func C23_brokers() {
	g := newRig("k", "nk", "wk", "kw", "kK", "kKn")
	g.start()
	last := map[string]int{}
	n := 3
	for i := 0; i < n; i++ {
		if nd.Choose("heartbeat", 2) == 1 {
			k := g.source()
			nd.Assume(k != 'w')
			id := hashOf(byte(70 + nd.Choose("producer", 2)))
			g.put(k, message{"def", append([]byte{byte(delivery.PingType)}, id[:]...), []byte{1}})
			last[string(k)+string(id[:])] = i
		}
		nd.Advance(time.Second)
	}
	k := nd.Choose("duration", n+1)
	want := uint(0)
	for x, i := range last {
		if n-i <= k {
			for _, b := range g.kinds {
				if byte(b) == x[0] {
					want++
				}
			}
		}
	}
	nd.Assert(g.c.ProducerCount(time.Duration(k)*time.Second+time.Millisecond) == want, "the producers of all brokers")
	nd.Reach("counted")
}

// C26_mixed: the blocks of brokers of different kinds.
// Bounds: Kafka and websocket, in any order, or with a null one; three blocks in
// any order, each on the first broker, the last or all; a block with a
// sub-batch among them.
func C26_mixed() {
	g := newRig("wk", "kw", "wnk", "wkK")
	idle := nd.Goroutines()
	g.start()
	cs := blocks(3)
	var todo [][2]int
	for i := range cs {
		on := nd.Choose("brokers", 3)
		for j, k := range g.kinds {
			if k != 'n' && (on == 2 || on == 0 && j == 0 || on == 1 && j == len(g.kinds)-1) {
				todo = append(todo, [2]int{i, j})
			}
		}
	}
	turn, back := nd.Choose("first", len(todo)), nd.Choose("backwards", 2) == 1
	for i := range todo {
		j := (i + turn) % len(todo)
		if back {
			j = len(todo) - 1 - j
		}
		g.deliver(g.kinds[todo[j][1]], cs[todo[j][0]])
	}
	g.delivered(cs...)
	nd.Advance(10 * time.Second)
	nd.Assert(g.becameReady(), "ready when a broker has been read")
	g.c.Close()
	nd.Advance(time.Minute)
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Assert(g.w.Connected() == 0, "no connection is left open")
	nd.Assert(g.w.Open() == 0, "no partition is read any more")
	nd.Reach("delivered")
}

// C26_unreachable: a broker that cannot be reached.
// Bounds: Kafka and websocket, in any order, or with a null one; the websocket
// cannot be reached, for ever or for ten seconds; two blocks over Kafka.
func C26_unreachable() {
	g := newRig("wk", "kw", "nwk", "wkK")
	g.s.down = []int{10, 1000000}[nd.Choose("for ever", 2)]
	idle := nd.Goroutines()
	started := false
	go func() {
		nd.Assert(g.c.Start() == nil, "started")
		started = true
	}()
	nd.Settle()
	nd.Assert(started, "starting does not wait for a broker that cannot be reached")
	cs := blocks(2)
	for _, c := range cs {
		g.deliver('k', c)
	}
	g.delivered(cs...)
	nd.Advance(20 * time.Second)
	nd.Assert(g.becameReady(), "ready when a broker has been read")
	if g.s.down == 0 {
		next := newContent(13, hashOf(3), cs[1].hash)
		g.deliver('w', next)
		g.delivered(append(cs, next)...)
		nd.Reach("reached later")
	}
	g.c.Close()
	nd.Advance(time.Minute)
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Assert(g.w.Connected() == 0, "no connection is left open")
	nd.Assert(g.w.Open() == 0, "no partition is read any more")
	nd.Reach("delivered")
}
