package ht

import (
	"bytes"
	"math/big"
	"sort"

	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

var kafkaSchema = map[string]string{"p/": "tp", "s/": "ts"}

// content is a block and its sub-batches.
type content struct {
	number  int64
	weight  *big.Int
	hash    types.Hash
	parent  types.Hash
	updates map[string][]byte
	deletes map[string]struct{}
	batches map[string]types.Hash
	subs    map[types.Hash]sub
}

type sub struct {
	deletes []string
	updates map[string][]byte
}

func newContent(number int64, hash, parent types.Hash) *content {
	return &content{number: number, weight: big.NewInt(number + 100), hash: hash, parent: parent,
		updates: map[string][]byte{}, deletes: map[string]struct{}{}, batches: map[string]types.Hash{}, subs: map[types.Hash]sub{}}
}

// message is a message on a topic.
type message struct {
	topic      string
	key, value []byte
}

// flatten lists the messages of all topics, ordered by topic.
func flatten(tm map[string][]delivery.Message) []message {
	var topics []string
	for t := range tm {
		topics = append(topics, t)
	}
	sort.Strings(topics)
	var r []message
	for _, t := range topics {
		for _, m := range tm[t] {
			r = append(r, message{t, m.Key(), m.Value()})
		}
	}
	return r
}

// reference produces the messages a block and its sub-batch need.
type reference struct{ p *delivery.Producer }

func newReference() *reference {
	p, err := delivery.NewProducer("def", kafkaSchema)
	nd.Assert(err == nil, "producer is created")
	return &reference{p}
}

func (r *reference) block(c *content) []message {
	tm, err := r.p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "valid block")
	return flatten(tm)
}

func (r *reference) batch(id types.Hash, s sub) []message {
	tm, err := r.p.SendBatch(id, s.deletes, s.updates)
	nd.Assert(err == nil, "valid sub-batch")
	return flatten(tm)
}

// bundle is a block with its messages.
type bundle struct {
	c     *content
	block []message
	subs  map[types.Hash][]message
}

func (r *reference) bundle(c *content) *bundle {
	b := &bundle{c, r.block(c), map[types.Hash][]message{}}
	for _, id := range c.batches {
		b.subs[id] = r.batch(id, c.subs[id])
	}
	return b
}

// all are the messages of the block, in the order they are produced.
func (b *bundle) all() []message {
	r := append([]message{}, b.block...)
	for _, id := range sortedIDs(b.c.batches) {
		r = append(r, b.subs[id]...)
	}
	return r
}

func sortedIDs(m map[string]types.Hash) []types.Hash {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []types.Hash
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

// cluster starts an empty cluster.
func cluster() *sarama.World {
	sarama.W = sarama.NewWorld()
	return sarama.W
}

func put(w *sarama.World, part int, ms ...message) {
	for _, m := range ms {
		w.Put(m.topic, part, m.key, m.value)
	}
}

// handed takes what producers handed to their brokers, without heartbeats.
func handed() []message {
	nd.Settle()
	var r []message
	for _, m := range sarama.W.Sent {
		k, _ := m.Key.Encode()
		v, _ := m.Value.Encode()
		if k[0] != byte(delivery.PingType) {
			r = append(r, message{m.Topic, k, v})
		}
	}
	sarama.W.Sent = nil
	return r
}

// is compares messages, block messages whatever the order of their entries.
func (m message) is(o message) bool {
	if len(m.key) == 33 && m.key[0] == byte(delivery.BatchType) {
		a, err1 := delivery.UnmarshalBatch(m.value)
		b, err2 := delivery.UnmarshalBatch(o.value)
		if err1 != nil || err2 != nil || m.topic != o.topic || len(a.Updates) != len(b.Updates) || len(m.value) != len(o.value) {
			return false
		}
		same := nd.And(bytes.Equal(m.key, o.key), a.Number == b.Number, bytes.Equal(a.Weight, b.Weight), a.ParentHash == b.ParentHash)
		for k, x := range a.Updates {
			y, ok := b.Updates[k]
			if !ok {
				return false
			}
			same = nd.And(same, bytes.Equal(x.Value, y.Value), x.Count == y.Count, x.Delete == y.Delete, x.Subbatch == y.Subbatch)
		}
		return same
	}
	return m.topic == o.topic && len(m.key) == len(o.key) && len(m.value) == len(o.value) &&
		nd.And(bytes.Equal(m.key, o.key), bytes.Equal(m.value, o.value))
}

// exactly checks that got are the messages wanted, each once, in any order
// across topics.
func exactly(got, want []message, what string) {
	nd.Assert(len(got) == len(want), what+": number of messages")
	left := append([]message{}, got...)
	for _, w := range want {
		found := false
		for i, g := range left {
			if g.is(w) {
				left = append(left[:i:i], left[i+1:]...)
				found = true
				break
			}
		}
		nd.Assert(found, what+": every message")
	}
}

func kafkaProducer() transports.Producer {
	p, err := transports.NewKafkaProducer("kafka://h:1", "def", kafkaSchema)
	nd.Assert(err == nil && p != nil, "producer is created")
	nd.Settle()
	return p
}

func add(p transports.Producer, c *content) error {
	return p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
}

func send(p transports.Producer, c *content, id types.Hash) error {
	return p.SendBatch(id, c.subs[id].deletes, c.subs[id].updates)
}
