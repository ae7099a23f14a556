package ht

import (
	"errors"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// call is what a backend was asked to do.
type call struct {
	to      int
	what    string
	number  int64
	hash    types.Hash
	parent  types.Hash
	weight  *big.Int
	updates map[string][]byte
	deletes map[string]struct{}
	batches map[string]types.Hash
	dels    []string
	d       time.Duration
	health  bool
}

// backend fails or answers as the harness says.
type backend struct {
	i      int
	calls  *[]call
	err    error
	latest int64
	count  uint
}

func (b *backend) note(c call) error {
	c.to = b.i
	*b.calls = append(*b.calls, c)
	return b.err
}

func (b *backend) ProducerCount(d time.Duration) uint {
	b.note(call{what: "count", d: d})
	return b.count
}
func (b *backend) LatestBlockFromFeed() (int64, error) {
	b.note(call{what: "latest"})
	return b.latest, b.err
}
func (b *backend) AddBlock(number int64, hash, parentHash types.Hash, weight *big.Int, updates map[string][]byte, deletes map[string]struct{}, batches map[string]types.Hash) error {
	return b.note(call{what: "block", number: number, hash: hash, parent: parentHash, weight: weight, updates: updates, deletes: deletes, batches: batches})
}
func (b *backend) SendBatch(batchid types.Hash, delete []string, update map[string][]byte) error {
	return b.note(call{what: "batch", hash: batchid, dels: delete, updates: update})
}
func (b *backend) Reorg(number int64, hash types.Hash) (func(), error) {
	err := b.note(call{what: "reorg", number: number, hash: hash})
	return func() { b.note(call{what: "done", number: number, hash: hash}) }, err
}
func (b *backend) SetHealth(h bool) { b.note(call{what: "health", health: h}) }
func (b *backend) PurgeReplayCache() { b.note(call{what: "purge"}) }

type bench struct {
	p     transports.Producer
	bs    []*backend
	calls []call
	fails int
}

// newBench has 1 to 4 backends, any of which fail; "" when err may be anything.
func newBench() *bench {
	b := &bench{}
	n := 1 + nd.Choose("backends", 4)
	var ps []transports.Producer
	for i := 0; i < n; i++ {
		x := &backend{i: i, calls: &b.calls}
		b.bs = append(b.bs, x)
		ps = append(ps, x)
	}
	b.p = mux(ps...)
	return b
}

func (b *bench) fail() {
	b.fails = 0
	for _, x := range b.bs {
		x.err = nil
		if nd.Choose("fails", 2) == 1 {
			x.err = errors.New("failed")
			b.fails++
		}
	}
	if b.fails > 0 && nd.Choose("unknown", 2) == 1 {
		for _, x := range b.bs {
			if x.err != nil {
				x.err = delivery.ErrUnknownBatch
			}
		}
	}
}

// each checks that every backend got the call what, in order.
func (b *bench) each(what string, ok func(c call) bool) {
	nd.Assert(len(b.calls) == len(b.bs), "every backend is called once")
	for i, c := range b.calls {
		nd.Assert(c.to == i, "backends are called in order")
		nd.Assert(c.what == what, "with the same call")
		nd.Assert(ok(c), "with the same arguments")
	}
	b.calls = nil
}

func (b *bench) outcome(err error) {
	nd.Assert((err != nil) == (b.fails > 0), "an error if and only if a backend failed")
	if b.fails > 0 {
		nd.Reach("failed")
	} else {
		nd.Reach("succeeded")
	}
}

func sameBytes(a, b []byte) bool { return string(a) == string(b) }

// C18_calls: every call reaches every backend with its arguments.
// Bounds: 1 to 4 backends, any subset fails; 3 calls (thorough: 4), each of any
// kind, with any number, hashes and health; one update, delete and sub-batch each
// of any 2-byte key.
// Weight: 4
func C18_calls() {
	b := newBench()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		b.fail()
		num, h, parent := nd.Int64("number"), symHash("hash"), symHash("parent")
		key, del, sub := nd.String("key", 2), nd.String("delete", 2), nd.String("sub-batch", 2)
		val, id := nd.Bytes("value", 2), symHash("id")
		ups, dels, subs := map[string][]byte{key: val}, map[string]struct{}{del: {}}, map[string]types.Hash{sub: id}
		switch nd.Choose("call", 5) {
		case 0:
			w := new(big.Int).SetBytes(nd.Bytes("weight", 9))
			err := b.p.AddBlock(num, h, parent, w, ups, dels, subs)
			b.outcome(err)
			b.each("block", func(c call) bool {
				_, deleted := c.deletes[del]
				return nd.And(c.number == num, c.hash == h, c.parent == parent, c.weight.Cmp(w) == 0,
					len(c.updates) == 1, sameBytes(c.updates[key], val), len(c.deletes) == 1, deleted, len(c.batches) == 1, c.batches[sub] == id)
			})
			nd.Reach("block")
		case 1:
			err := b.p.SendBatch(id, []string{del, key}, ups)
			b.outcome(err)
			b.each("batch", func(c call) bool {
				return nd.And(c.hash == id, len(c.dels) == 2, c.dels[0] == del, c.dels[1] == key, len(c.updates) == 1, sameBytes(c.updates[key], val))
			})
			nd.Reach("batch")
		case 2:
			done, err := b.p.Reorg(num, h)
			b.outcome(err)
			b.each("reorg", func(c call) bool { return nd.And(c.number == num, c.hash == h) })
			nd.Assert(done != nil, "a completion is returned")
			done()
			var want []int
			for i, x := range b.bs {
				if x.err == nil {
					want = append(want, i)
				}
			}
			nd.Assert(len(b.calls) == len(want), "the reorg is completed where it was accepted")
			for i, c := range b.calls {
				nd.Assert(nd.And(c.to == want[i], c.what == "done", c.number == num, c.hash == h), "the reorg is completed where it was accepted")
			}
			b.calls = nil
			nd.Reach("reorg")
		case 3:
			on := nd.Bool("health")
			b.p.SetHealth(on)
			b.each("health", func(c call) bool { return c.health == on })
			nd.Reach("health")
		case 4:
			b.p.PurgeReplayCache()
			b.each("purge", func(c call) bool { return true })
			nd.Reach("purge")
		}
	}
}

// C18_latest: the lowest latest block any backend answers with.
// Bounds: 1 to 4 backends, any of which answer, with any number.
func C18_latest() {
	b := newBench()
	b.fail()
	for _, x := range b.bs {
		x.latest = nd.Int64("latest")
		nd.Assume(x.latest >= 0)
	}
	v, err := b.p.LatestBlockFromFeed()
	b.each("latest", func(c call) bool { return true })
	if b.fails == len(b.bs) {
		nd.Assert(err != nil, "an error when no backend answers")
		nd.Reach("no answer")
		return
	}
	nd.Assert(err == nil, "an answer when a backend answers")
	met := false
	for _, x := range b.bs {
		if x.err == nil {
			nd.Assert(v <= x.latest, "not above any answer")
			met = nd.Or(met, v == x.latest)
		}
	}
	nd.Assert(met, "one of the answers")
	nd.Reach("answered")
}

// C18_count: producer counts add up.
// Bounds: 1 to 4 backends with any counts below 2^32, any period.
func C18_count() {
	b := newBench()
	var want uint
	for _, x := range b.bs {
		x.count = uint(nd.Uint32("count"))
		want += x.count
	}
	d := time.Duration(nd.Int64("period"))
	got := b.p.ProducerCount(d)
	b.each("count", func(c call) bool { return c.d == d })
	nd.Assert(got == want, "the sum of the counts")
	nd.Reach("counted")
}
