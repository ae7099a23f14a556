package hd

import (
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

func twin(hash types.Hash, i int) *content {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = nd.Int64("number"), big.NewInt(int64(3+i)), hash, hashOf(9)
	nd.Assume(c.number >= 0 && c.number < 32)
	c.updates["p/k"] = nd.Bytes("v", 1)
	c.deletes["p/d"] = struct{}{}
	return c
}

// interleave runs the messages of several blocks through one consumer in any
// order and checks that every block comes out as if alone.
func interleave(cs []*content, msgs []*rm) {
	co := newConsumer(config())
	for _, i := range permutation("order", len(msgs)) {
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == len(cs), "every block emitted once")
	for _, c := range cs {
		n := 0
		for _, pb := range out {
			if pb.Hash == c.hash {
				n++
				sameBatch(pb, c, "batch")
			}
		}
		nd.Assert(n == 1, "every block emitted once")
	}
	nd.Reach("emitted")
}

// C03_two: two blocks with the same keys and arbitrary different hashes, all
// messages interleaved in every order.
// Bounds: 2 blocks of 3 messages each, every order of the 6; hashes arbitrary
// and different; numbers below 32; one-byte values.
// Weight: 2
func C03_two() {
	p := newProducer(mixedSchema)
	h1, h2 := symHash("h1"), symHash("h2")
	nd.Assume(h1 != h2)
	a, b := twin(h1, 0), twin(h2, 1)
	msgs := produce(p, a)
	msgs = append(msgs, produce(p, b)...)
	interleave([]*content{a, b}, msgs)
}

// C03_byte: two blocks whose hashes differ in a single byte.
// Bounds: each of the 32 positions; 2 blocks of 2 messages, every order.
func C03_byte() {
	p := newProducer(mixedSchema)
	h1 := hashOf(3)
	h2 := h1
	i := nd.Choose("pos", 32)
	h2[i] = nd.Byte("other")
	nd.Assume(h2[i] != h1[i])
	var msgs []*rm
	var cs []*content
	for k, h := range []types.Hash{h1, h2} {
		c := newContent()
		c.number, c.weight, c.hash, c.parent = int64(k), big.NewInt(3), h, hashOf(9)
		c.updates["p/k"] = []byte{byte(k)}
		cs = append(cs, c)
		msgs = append(msgs, produce(p, c)...)
	}
	interleave(cs, msgs)
}

// C03_subs: two blocks announcing the same sub-batch identifier.
// Bounds: 2 blocks of 3 messages (block, header, item), every order of the 6;
// one-byte values.
// Weight: 2
func C03_subs() {
	p := newProducer(mixedSchema)
	var msgs []*rm
	var cs []*content
	for k := 0; k < 2; k++ {
		c := newContent()
		c.number, c.weight, c.hash, c.parent = int64(k), big.NewInt(3), hashOf(byte(1+k)), hashOf(9)
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/u": nd.Bytes("v", 1)}}
		cs = append(cs, c)
		msgs = append(msgs, produce(p, c)...)
	}
	interleave(cs, msgs)
}

// C03_three: three blocks, same keys, messages of different numbers.
// Bounds: 3 blocks of 2 messages, every order of the 6.
func C03_three() {
	p := newProducer(mixedSchema)
	var msgs []*rm
	var cs []*content
	for k := 0; k < 3; k++ {
		c := newContent()
		c.number, c.weight, c.hash, c.parent = int64(4-k), big.NewInt(3), hashOf(byte(1+k)), hashOf(byte(k))
		c.updates["p/k"] = nd.Bytes("v", 1)
		if k == 1 {
			c.updates["k"] = nd.Bytes("v", 1)
		}
		cs = append(cs, c)
		msgs = append(msgs, produce(p, c)...)
	}
	interleave(cs, msgs)
}

// C03_many: many blocks at once.
// Bounds: 40 or 150 blocks with arbitrary one-byte values and a sub-batch each, under
// the same keys; all block messages first, last, or in the middle of the others;
// blocks in the same order or the reverse.
func C03_many() {
	p := newProducer(mixedSchema)
	n := []int{40, 150}[nd.Choose("blocks", 2)]
	var cs []*content
	var early, late, all []*rm
	for i := 0; i < n; i++ {
		c := newContent()
		c.number, c.weight, c.parent = int64(i), big.NewInt(int64(3+i)), hashOf(9)
		c.hash[0], c.hash[31] = byte(i), byte(i)
		c.updates["p/k"] = nd.Bytes("v", 1)
		c.deletes["p/d"] = struct{}{}
		id := hashOf(7)
		id[1] = byte(i)
		c.batches["s/"] = id
		c.subs[id] = sub{updates: map[string][]byte{"s/x": {byte(i)}}}
		cs = append(cs, c)
		for _, m := range produce(p, c) {
			if delivery.MessageType(m.key[0]) == delivery.BatchType {
				all = append(all, m)
			} else if len(early) <= len(late) {
				early = append(early, m)
			} else {
				late = append(late, m)
			}
		}
	}
	if nd.Choose("reverse", 2) == 1 {
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	}
	msgs := append(append(append([]*rm{}, early...), all...), late...)
	switch nd.Choose("order", 3) {
	case 1:
		msgs = append(append(append([]*rm{}, all...), early...), late...)
	case 2:
		msgs = append(append(append([]*rm{}, early...), late...), all...)
	}
	cfg := config()
	cfg.ReorgThreshold = 200
	co := newConsumer(cfg)
	var out []*delivery.PendingBatch
	for _, m := range msgs {
		nd.Assert(co.deliver(m) == nil, "no error")
		out = append(out, co.emitted()...)
	}
	nd.Assert(len(out) == n, "every block emitted once")
	got := map[types.Hash]*delivery.PendingBatch{}
	for _, pb := range out {
		nd.Assert(got[pb.Hash] == nil, "every block emitted once")
		got[pb.Hash] = pb
	}
	for _, c := range cs {
		nd.Assert(got[c.hash] != nil, "every block emitted once")
		sameBatch(got[c.hash], c, "batch")
	}
	nd.Reach("emitted")
}
