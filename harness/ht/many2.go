package ht

import (
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// wideHash gives many different hashes.
func wideHash(kind, i int) types.Hash {
	h := hashOf(byte(kind))
	h[1], h[31] = byte(i>>8), byte(i)
	return h
}

// C16_many: many blocks that are known, or whose sub-batches are to come.
// Bounds: three partitions with the last 100 messages full of blocks; all of these
// are added, or 150 others, each with a sub-batch; their sub-batches are sent afterwards.
func C16_many() {
	w := cluster()
	w.AddTopic("def", 3)
	ref := newReference()
	known := nd.Choose("known", 2) == 1
	var cs []*content
	for i := 0; i < 300; i++ {
		c := newContent(int64(i+1), wideHash(1, i), wideHash(1, i-1))
		if known {
			c.batches["s/"] = wideHash(7, i)
			c.subs[c.batches["s/"]] = sub{}
			cs = append(cs, c)
		}
		put(w, i%3, ref.block(c)...)
	}
	p := kafkaProducer()
	if !known {
		for i := 0; i < 150; i++ {
			c := newContent(int64(i+1), wideHash(2, i), wideHash(2, i-1))
			c.batches["s/"] = wideHash(7, i)
			c.subs[c.batches["s/"]] = sub{}
			cs = append(cs, c)
		}
	}
	total := 0
	for _, c := range cs {
		nd.Assert(add(p, c) == nil, "block is accepted")
		total += len(handed())
	}
	if known {
		nd.Assert(total == 0, "blocks seen before publish nothing")
	} else {
		nd.Assert(total == len(cs), "new blocks are published")
	}
	for i := range cs {
		c := cs[i]
		nd.Assert(send(p, c, c.batches["s/"]) == nil, "sub-batch is accepted")
		got := handed()
		if known {
			nd.Assert(len(got) == 0, "a sub-batch of a block seen before publishes nothing")
			continue
		}
		nd.Assert(len(got) == 1 && got[0].topic == "ts" && got[0].key[0] == byte(delivery.SubBatchHeaderType), "a sub-batch is published")
		nd.Assert(string(got[0].key[1:33]) == string(c.hash[:]), "for the block that announced it")
	}
	nd.Reach("end")
}

// C20_many: many blocks whose sub-batches come later.
// Bounds: 150 blocks with a sub-batch each, which are sent after all blocks, in order or in
// reverse.
func C20_many() {
	s, r := connected()
	n := 150
	var cs []*content
	parent := rootHash()
	for i := 0; i < n; i++ {
		c := newContent(int64(11+i), wideHash(1, i), parent)
		parent = c.hash
		c.weight.SetInt64(int64(200 + i))
		c.batches["s/"] = wideHash(7, i)
		c.subs[c.batches["s/"]] = sub{updates: map[string][]byte{"s/u": nd.Bytes("v", 1)}}
		cs = append(cs, c)
		s.add(c)
		nd.Settle()
	}
	r.delivered()
	back := nd.Choose("reverse", 2) == 1
	for i := range cs {
		if back {
			i = n - 1 - i
		}
		s.send(cs[i], cs[i].batches["s/"])
		nd.Settle()
		r.drain()
	}
	r.delivered(cs...)
	nd.Reach("delivered")
}

// C23_many: many producers.
// Bounds: heartbeats of 40 producers on three partitions, a second time of every
// other one, two seconds later; counted within one or three seconds.
func C23_many() {
	w := cluster()
	w.AddTopic("def", 3)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	p := kafkaProducer()
	r := newReader("", 0, consumerConfig())
	nd.Assert(r.c.Start() == nil, "consumer starts")
	nd.Settle()
	for k := 1; k < 3; k++ {
		for i := 0; i < 40; i += k {
			id := wideHash(5, i)
			put(w, i%3, message{"def", append([]byte{byte(delivery.PingType)}, id[:]...), []byte{1}})
		}
		nd.Settle()
		if k == 1 {
			nd.Advance(2 * time.Second)
		}
	}
	want, d := uint(20), time.Second
	if nd.Bool("long") {
		want, d = 40, 3*time.Second
	}
	nd.Assert(p.ProducerCount(d) == want, "producers a producer counts")
	nd.Assert(r.c.ProducerCount(d) == want, "producers a consumer counts")
	nd.Reach("counted")
}

// C24_many: the latest block among many partitions.
// Bounds: 5 partitions with one block each, without any in any one of them, arbitrary numbers
// in one of them, fixed ones elsewhere.
func C24_many() {
	w := cluster()
	w.AddTopic("def", 5)
	ref := newReference()
	at, none := nd.Choose("at", 5), nd.Choose("none", 6)
	var numbers []int64
	for i := 0; i < 5; i++ {
		n := int64(100 + i)
		if i == at {
			n = nd.Int64("number")
			nd.Assume(n >= 0)
		}
		if i == none {
			continue
		}
		numbers = append(numbers, n)
		put(w, i, ref.block(newContent(n, wideHash(1, i), wideHash(1, 99)))...)
	}
	latest(numbers, kafkaProducer().LatestBlockFromFeed)
	nd.Reach("reported")
}

// C28_many: many partitions and messages.
// Bounds: 20 partitions with up to 20 messages each, through a buffer of none, one or many; received as they
// come, or at the end.
func C28_many() {
	f := newFed(20, []int{0, 1, 64}[nd.Choose("buffer", 3)])
	at := nd.Choose("received at", 2)
	for i := 0; i < 20; i++ {
		for j := 0; j < 20; j++ {
			part := (i*7 + j) % 20
			f.put[part] = append(f.put[part], f.w.Put("tp", part, []byte{byte(i), byte(j)}, nil))
			f.left++
			if at == 0 {
				nd.Assert(f.take(), "delivered when it arrives")
			}
		}
	}
	for f.left > 0 {
		nd.Assert(f.take(), "everything is delivered")
	}
	nd.Assert(!f.take(), "nothing else is delivered")
	nd.Reach("delivered")
}
