package ht

import (
	"encoding/hex"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

func rootHash() types.Hash { return hashOf(200) }

// consumerConfig is for a consumer that starts at the block root.
func consumerConfig() *delivery.ConsumerConfig {
	return &delivery.ConsumerConfig{ReorgThreshold: 8, LastWeight: big.NewInt(100), LastEmittedNum: 10, LastHash: rootHash(),
		TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
}

// reader is a Kafka consumer and what it emitted.
type reader struct {
	c   transports.Consumer
	ch  chan *delivery.ChainUpdate
	got []*delivery.PendingBatch
}

var allTopics = []string{"def", "tp", "ts"}

func newReader(resumption string, rollback int64, cfg *delivery.ConsumerConfig) *reader {
	c, err := transports.NewKafkaConsumer("kafka://h:1", "def", allTopics, []byte(resumption), rollback, cfg)
	nd.Assert(err == nil && c != nil, "consumer is created")
	r := &reader{c: c, ch: make(chan *delivery.ChainUpdate, 64)}
	c.Subscribe(r.ch)
	return r
}

func (r *reader) drain() {
	for {
		select {
		case u := <-r.ch:
			nd.Assert(len(u.Removed()) == 0, "nothing is reverted")
			r.got = append(r.got, u.Added()...)
		default:
			return
		}
	}
}

func (r *reader) isReady() bool {
	select {
	case <-r.c.Ready():
		return true
	default:
		return false
	}
}

// chain makes n blocks on the root.
func chain(n int) []*bundle {
	ref := newReference()
	var bs []*bundle
	parent := rootHash()
	for i := 0; i < n; i++ {
		c := newContent(int64(11+i), hashOf(byte(i+1)), parent)
		parent = c.hash
		c.updates["k"] = []byte{byte(i)}
		switch i % 3 {
		case 0:
			c.updates["p/u"] = nd.Bytes("v", 1)
		case 1:
			id := hashOf(byte(100 + i))
			c.batches["s/"] = id
			c.subs[id] = sub{updates: map[string][]byte{"s/u": nd.Bytes("v", 1)}}
		}
		bs = append(bs, ref.bundle(c))
	}
	return bs
}

// holds checks that pb is the block.
func (b *bundle) holds(pb *delivery.PendingBatch) {
	c := b.c
	nd.Assert(pb.Number == c.number && pb.Hash == c.hash && pb.ParentHash == c.parent && pb.Weight.Cmp(c.weight) == 0, "the block as it was produced")
	want := map[string][]byte{}
	for k, v := range c.updates {
		want[k] = v
	}
	for _, s := range c.subs {
		for k, v := range s.updates {
			want[k] = v
		}
	}
	nd.Assert(len(pb.Values) == len(want) && len(pb.Deletes) == len(c.deletes), "the block's contents")
	for k, v := range want {
		g, ok := pb.Values[k]
		nd.Assert(ok && string(g) == string(v), "the block's values")
	}
}

// offsets parses a token.
func offsets(token string) map[string]int64 {
	r := map[string]int64{}
	for _, e := range strings.Split(token, ";") {
		p := strings.Split(e, "=")
		nd.Assert(len(p) == 2, "token entry")
		n, err := strconv.Atoi(p[1])
		nd.Assert(err == nil, "token offset")
		r[p[0]] = int64(n)
	}
	return r
}

// junk puts a message that carries no block.
func junk(w *sarama.World, kind int, topic string, part int) {
	h := hashOf(99)
	switch kind {
	case 1:
		w.Put(topic, part, nil, []byte{1})
	case 2:
		w.Put(topic, part, delivery.PingType.GetKey(h[:]), []byte{1})
	case 3:
		w.Put(topic, part, []byte{200, 1}, nil)
	case 4:
		w.Put(topic, part, delivery.BatchType.GetKey(h[:31]), nil)
	case 5:
		w.Put(topic, part, delivery.ReorgCompleteType.GetKey(h[:]), nil)
	case 6:
		w.Put(topic, part, delivery.PingType.GetKey(nil), nil)
	case 7:
		w.Put(topic, part, delivery.ReorgType.GetKey(h[:]), []byte{2})
	}
}

// where is the place of each message of a bundle on the topics.
type where struct {
	m    message
	part int
}

func (r *reader) check(bs []*bundle) {
	r.drain()
	nd.Assert(len(r.got) == len(bs), "every block is emitted once")
	for i, b := range bs {
		b.holds(r.got[i])
		at := offsets(r.got[i].Resumption())
		for _, m := range b.all() {
			found := false
			for p, l := range sarama.W.Topics[m.topic] {
				for _, x := range l.Msgs {
					if string(x.Key) == string(m.key) {
						o, ok := at[m.topic+":"+strconv.Itoa(p)]
						found = found || ok && o <= x.Offset
					}
				}
			}
			nd.Assert(found, "the token leads to every message")
		}
	}
}

// C17_deliver: blocks reach the application.
// Bounds: two blocks with five messages on up to four partitions, one of which may
// be empty, in any order, up to any point before the consumer starts; a message
// of seven other kinds anywhere.
// Weight: 2
func C17_deliver() {
	w := cluster()
	n := 1 + nd.Choose("partitions", 2)
	w.AddTopic("def", n)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1+nd.Choose("empty", 2))
	bs := chain(2)
	var ms []message
	for _, b := range bs {
		ms = append(ms, b.all()...)
	}
	start := nd.Choose("start", len(ms)+1)
	at, kind := nd.Choose("at", len(ms)+1), nd.Choose("junk", 8)
	r := newReader("", 0, consumerConfig())
	for i := 0; i <= len(ms); i++ {
		if i == at {
			junk(w, kind, "def", 0)
			nd.Settle()
		}
		if i == start {
			nd.Assert(r.c.Start() == nil, "started")
			nd.Settle()
		}
		if i < len(ms) {
			put(w, nd.Choose("part", len(w.Topics[ms[i].topic])), ms[i])
			nd.Settle()
		}
	}
	r.check(bs)
	nd.Reach("delivered")
	nd.Advance(10 * time.Second)
	nd.Assert(r.isReady(), "ready when everything has been read")
	r.c.Close()
	nd.Settle()
	nd.Reach("closed")
}

// deviations explores other schedules than the default one.
func deviations() {
	nd.Config("sched", 2)
	nd.Config("mempoints", 1)
	nd.Config("preempt", 1)
	if nd.Thorough() {
		nd.Config("preempt", 2)
	}
}

// C17_schedules: readers of several partitions at once.
// Bounds: two blocks with five messages on four partitions, all there or none
// when the consumer starts; schedules with one (thorough: two)
// deviations at synchronisation and memory accesses.
// Weight: 2
func C17_schedules() {
	w := cluster()
	w.AddTopic("def", 2)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	bs := chain(2)
	var ms []message
	for _, b := range bs {
		ms = append(ms, b.all()...)
	}
	early := nd.Choose("early", 2) == 1
	r := newReader("", 0, consumerConfig())
	produce := func() {
		for i, m := range ms {
			put(w, i%len(w.Topics[m.topic]), m)
		}
	}
	if early {
		produce()
	}
	deviations()
	nd.Assert(r.c.Start() == nil, "started")
	if early {
		<-r.c.Ready()
		r.drain()
		nd.Assert(len(r.got) == len(bs), "ready once everything has been read")
		nd.Reach("ready")
	} else {
		produce()
	}
	nd.Settle()
	nd.Config("sched", 0)
	r.check(bs)
	nd.Advance(10 * time.Second)
	nd.Assert(r.isReady(), "ready when everything has been read")
	r.c.Close()
	nd.Settle()
}

// C17_ready: who is told that the consumer is ready.
// Bounds: two callers that ask before or after the consumer is ready; blocks
// that arrive before, while and after that; schedules with one deviation (thorough: two).
func C17_ready() {
	w := cluster()
	w.AddTopic("def", 1)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	bs := chain(2)
	put(w, 0, bs[0].all()...)
	r := newReader("", 0, consumerConfig())
	nd.Assert(r.c.Start() == nil, "started")
	first := nd.Choose("first", 2) == 1
	told := 0
	wait := func() {
		<-r.c.Ready()
		told++
	}
	deviations()
	if first {
		go wait()
	}
	go wait()
	nd.Settle()
	nd.Assert(told == 0, "not ready at once")
	nd.Advance(900 * time.Millisecond)
	put(w, 0, bs[1].all()...)
	nd.Advance(3 * time.Second)
	nd.Config("sched", 0)
	if !first {
		go wait()
	}
	nd.Settle()
	nd.Assert(told == 2, "everyone is told")
	r.check(bs)
	nd.Reach("told")
}

// C17_close: closing a consumer.
// Bounds: closed before it was started, after starting failed, while a partition
// or all have no messages, before or after it is ready, or twice, also at once;
// schedules with one deviation (thorough: two).
func C17_close() {
	w := cluster()
	w.AddTopic("def", 2)
	w.AddTopic("tp", 1)
	when := nd.Choose("when", 6)
	if when != 1 {
		w.AddTopic("ts", 1)
	}
	bs := chain(2)
	n := nd.Choose("blocks", 2)
	for _, b := range bs[:n] {
		for _, m := range b.all() {
			w.AddTopicOnce(m.topic)
			put(w, 0, m)
		}
	}
	r := newReader("", 0, consumerConfig())
	idle := nd.Goroutines()
	deviations()
	failed := false
	if when > 0 {
		failed = r.c.Start() != nil
		nd.Assert(failed == (when == 1), "starting fails without a topic")
	}
	switch when {
	case 2:
		nd.Settle()
	case 3:
		nd.Advance(3 * time.Second)
	case 4:
		go r.c.Close()
	}
	r.c.Close()
	nd.Settle()
	if when == 5 {
		r.c.Close()
	}
	nd.Config("sched", 0)
	nd.Reach("closed")
	r.drain()
	nd.Assert(len(r.got) <= n, "nothing is made up")
	if when == 0 {
		return
	}
	before := len(r.got)
	for _, b := range bs {
		for _, m := range b.all() {
			w.AddTopicOnce(m.topic)
			put(w, 0, m)
		}
	}
	nd.Advance(10 * time.Second)
	r.drain()
	nd.Assert(len(r.got) == before, "nothing is emitted once closed")
	nd.Advance(time.Minute)
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Assert(w.Connected() == 0, "no connection is left open")
	nd.Assert(w.Open() == 0, "no partition is read any more")
}

// C17_reorg: blocks that come on a topic of their own after a reorg.
// Bounds: a reorg of one of two blocks to one other block of any weight, announced with
// its topic in place once the consumer has read what precedes it; then one more
// block. The consumer starts before or after the first blocks are produced.
func C17_reorg() {
	w := cluster()
	w.AddTopic("def", 1)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	bs := chain(2)
	ref := newReference()
	first := newContent(12, hashOf(50), hashOf(1))
	first.weight = big.NewInt(int64(nd.Byte("weight")))
	second := newContent(13, hashOf(51), first.hash)
	second.updates["p/u"] = []byte{5}
	p, _ := delivery.NewProducer("def", kafkaSchema)
	h := hashOf(1)
	re := "def-re-" + hex.EncodeToString(h[:])
	announce := func(m delivery.Message) message { return message{"def", m.Key(), m.Value()} }
	start := nd.Choose("start", 2)
	r := newReader("", 0, consumerConfig())
	running := 0
	reorgs := make(chan map[int64]types.Hash, 10)
	r.c.SubscribeReorg(reorgs)
	fb, sb := ref.bundle(first), ref.bundle(second)
	for i := 0; i < 4; i++ {
		if i == start {
			nd.Assert(r.c.Start() == nil, "started")
			nd.Settle()
		}
		switch i {
		case 0:
			put(w, 0, bs[0].all()...)
			put(w, 0, bs[1].all()...)
		case 1:
			if start == 0 {
				nd.Advance(time.Minute)
				running = nd.Goroutines()
			}
			w.AddTopic(re, 1)
			all := append([]message{announce(p.Reorg(11, h))}, fb.all()...)
			all = append(all, announce(p.ReorgDone(11, h)))
			for i := range all {
				all[i].topic = re
			}
			put(w, 0, all...)
			for i := range fb.block {
				fb.block[i].topic = re
			}
			put(w, 0, announce(p.Reorg(11, h)))
			nd.Advance(2 * time.Second)
			if start == 0 {
				nd.Advance(time.Minute)
				nd.Assert(nd.Goroutines() <= running, "nothing is left running")
			}
		case 2:
			put(w, 0, sb.all()...)
		}
		nd.Settle()
	}
	nd.Advance(2 * time.Second)
	r.check([]*bundle{bs[0], bs[1], fb, sb})
	nd.Assert(len(reorgs) == 1, "the reorg is announced once")
	for n, x := range <-reorgs {
		nd.Assert(n == 11 && x == h, "the reorg as it was announced")
	}
	nd.Advance(10 * time.Second)
	nd.Assert(r.isReady(), "ready when everything has been read")
	r.c.Close()
	nd.Assert(w.Open() == 0, "no partition is read any more")
	nd.Reach("reorged")
}
