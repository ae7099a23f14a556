// Package hd holds the harnesses for the delivery package.
package hd

import (
	"bytes"
	"math/big"
	"regexp"
	"sort"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// rm is a message as a transport hands it to the consumer.
type rm struct {
	topic string
	key   []byte
	value []byte
	off   int64
	src   string
}

func (m *rm) Key() []byte     { return m.key }
func (m *rm) Value() []byte   { return m.value }
func (m *rm) Offset() int64   { return m.off }
func (m *rm) Source() string  { return m.src }
func (m *rm) Time() time.Time { return time.Time{} }

func hashOf(b byte) (h types.Hash) {
	h[0] = b
	h[31] = b
	return h
}

func symHash(label string) (h types.Hash) {
	copy(h[:], nd.Bytes(label, 32))
	return h
}

func bigOf(n int64) *big.Int { return big.NewInt(n) }

// symBig is a non-negative number of n bytes.
func symBig(label string, n int) *big.Int { return new(big.Int).SetBytes(nd.Bytes(label, n)) }

type content struct {
	number  int64
	weight  *big.Int
	hash    types.Hash
	parent  types.Hash
	updates map[string][]byte
	deletes map[string]struct{}
	batches map[string]types.Hash
	subs    map[types.Hash]sub
}

type sub struct {
	deletes []string
	updates map[string][]byte
}

func newContent() *content {
	return &content{updates: map[string][]byte{}, deletes: map[string]struct{}{}, batches: map[string]types.Hash{}, subs: map[types.Hash]sub{}}
}

// flatten lists the messages of all topics in a canonical order.
func flatten(tm map[string][]delivery.Message) []*rm {
	var r []*rm
	var topics []string
	for t := range tm {
		topics = append(topics, t)
	}
	sort.Strings(topics)
	for _, t := range topics {
		for _, m := range tm[t] {
			r = append(r, &rm{topic: t, key: m.Key(), value: m.Value(), src: t + ":0"})
		}
	}
	sort.SliceStable(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.key[0] != b.key[0] {
			return a.key[0] < b.key[0]
		}
		return string(a.key[33:]) < string(b.key[33:])
	})
	return r
}

// produce runs the producer on c and returns all messages.
func produce(p *delivery.Producer, c *content) []*rm {
	tm, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	msgs := flatten(tm)
	var ids []string
	for k := range c.batches {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		s := c.subs[c.batches[k]]
		tm, err := p.SendBatch(c.batches[k], s.deletes, s.updates)
		nd.Assert(err == nil, "producer accepts an announced sub-batch")
		msgs = append(msgs, flatten(tm)...)
	}
	return msgs
}

func newProducer(schema map[string]string) *delivery.Producer {
	p, err := delivery.NewProducer("def", schema)
	nd.Assert(err == nil, "producer is created")
	return p
}

func config(pats ...string) *delivery.ConsumerConfig {
	c := &delivery.ConsumerConfig{ReorgThreshold: 4, LastWeight: big.NewInt(0), LastEmittedNum: nd.Int64("last number")}
	nd.Assume(c.LastEmittedNum >= 0)
	if len(pats) == 0 {
		pats = []string{".*"}
	}
	for _, p := range pats {
		c.TrackedPrefixes = append(c.TrackedPrefixes, regexp.MustCompile(p))
	}
	return c
}

// consumer wraps a MessageProcessor and collects what it emits.
type consumer struct {
	mp  *delivery.MessageProcessor
	ch  chan *delivery.PendingBatch
	off map[string]int64
}

func newConsumer(cfg *delivery.ConsumerConfig) *consumer {
	c := &consumer{mp: delivery.NewMessageProcessor(cfg), ch: make(chan *delivery.PendingBatch, 64), off: map[string]int64{}}
	c.mp.Subscribe(c.ch)
	return c
}

// deliver hands m to the consumer at the next offset of its source.
func (c *consumer) deliver(m *rm) error {
	n := *m
	n.off = c.off[m.src]
	c.off[m.src]++
	return c.mp.ProcessMessage(&n)
}

func (c *consumer) emitted() []*delivery.PendingBatch {
	var r []*delivery.PendingBatch
	for {
		select {
		case b := <-c.ch:
			r = append(r, b)
		default:
			return r
		}
	}
}

// merged computes the contents a consumer tracking everything must see.
func (c *content) merged() (map[string][]byte, map[string]struct{}) {
	v := map[string][]byte{}
	d := map[string]struct{}{}
	for k, x := range c.updates {
		v[k] = x
	}
	for k := range c.deletes {
		d[k] = struct{}{}
	}
	for _, s := range c.subs {
		for k, x := range s.updates {
			v[k] = x
		}
		for _, k := range s.deletes {
			d[k] = struct{}{}
		}
	}
	return v, d
}

func sameMap(got, want map[string][]byte, what string) {
	nd.Assert(len(got) == len(want), what+": number of values")
	for k, x := range want {
		y, ok := got[k]
		nd.Assert(ok, what+": value present")
		nd.Assert(len(x) == len(y), what+": value length")
		nd.Assert(bytes.Equal(x, y), what+": value")
	}
}

func sameSet(got, want map[string]struct{}, what string) {
	nd.Assert(len(got) == len(want), what+": number of deletes")
	for k := range want {
		_, ok := got[k]
		nd.Assert(ok, what+": delete present")
	}
}

func sameBatch(pb *delivery.PendingBatch, c *content, what string) {
	nd.Assert(pb.Number == c.number, what+": number")
	nd.Assert(pb.Weight.Cmp(c.weight) == 0, what+": weight")
	nd.Assert(pb.Hash == c.hash, what+": hash")
	nd.Assert(pb.ParentHash == c.parent, what+": parent")
	v, d := c.merged()
	sameMap(pb.Values, v, what)
	sameSet(pb.Deletes, d, what)
}

// permutation chooses an arbitrary order of n things.
func permutation(label string, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var r []int
	for len(left) > 0 {
		i := nd.Choose(label, len(left))
		r = append(r, left[i])
		left = append(left[:i:i], left[i+1:]...)
	}
	return r
}

var lengths = []int{0, 1, 3, 32, 65, 300}

func someLength(label string) int { return lengths[nd.Choose(label, len(lengths))] }
