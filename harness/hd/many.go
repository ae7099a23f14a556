package hd

import (
	"bytes"

	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// wideHash gives many different hashes.
func wideHash(kind, i int) types.Hash {
	h := hashOf(byte(kind))
	h[1], h[31] = byte(i>>8), byte(i)
	return h
}

// C07_many: many sub-batches at once.
// Bounds: 40 or 300 blocks with two announced sub-batches each, sent in the order of
// the blocks or the reverse, each with an update of an arbitrary byte, all twice.
func C07_many() {
	p := newProducer(map[string]string{"s/": "ts"})
	n := []int{40, 300}[nd.Choose("blocks", 2)]
	v := nd.Bytes("v", 1)
	for i := 0; i < n; i++ {
		c := newContent()
		c.number, c.hash, c.parent, c.weight = int64(i+1), wideHash(1, i), wideHash(1, i-1), bigOf(int64(i+9))
		c.batches["s/"], c.batches["t/"] = wideHash(7, i), wideHash(8, i)
		_, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
		nd.Assert(err == nil, "a valid block is accepted")
	}
	back := nd.Choose("reverse", 2) == 1
	for again := 0; again < 2; again++ {
		for k := 0; k < 2*n; k++ {
			i := k
			if back {
				i = 2*n - 1 - k
			}
			h := wideHash(1, i/2)
			tm, err := p.SendBatch(wideHash(7+i%2, i/2), nil, map[string][]byte{"s/x": v})
			if again == 1 {
				nd.Assert(err != nil && len(tm) == 0, "a sub-batch is accepted once")
				continue
			}
			ms := flatten(tm)
			nd.Assert(err == nil && len(ms) == 2, "an announced sub-batch is accepted")
			for _, m := range ms {
				nd.Assert(bytes.Equal(m.key[1:33], h[:]), "a sub-batch goes to the block that announced it")
			}
		}
	}
	nd.Reach("sent")
}

// C08_many: tokens with many sources.
// Bounds: a block of 3, 30 or 100 updates and its sub-batch, messages in order, in reverse
// or turned, each on one of 40 sources in turn, with a message of another
// block on each of 12 more sources first, last or in between.
func C08_many() {
	p := newProducer(mixedSchema)
	c := newContent()
	c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
	for i := []int{3, 30, 100}[nd.Choose("updates", 3)]; i > 0; i-- {
		c.updates["p/"+string([]byte{byte('a' + i/10), byte('0' + i%10)})] = []byte{1}
	}
	c.batches["s/"] = hashOf(7)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/x": {1}, "s/y": {1}}}
	d := newContent()
	d.number, d.hash, d.parent, d.weight = 5, hashOf(3), hashOf(2), bigOf(9)
	d.updates["p/k"] = []byte{1}
	msgs, noise := produce(p, c), produce(p, d)
	n := len(msgs)
	var order []int
	kind := nd.Choose("order", 3)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			order = append(order, i)
		case 1:
			order = append(order, n-1-i)
		default:
			order = append(order, (i+n/2)%n)
		}
	}
	at := []int{0, 1, n / 2, n - 1}[nd.Choose("noise at", 4)]
	var mixed []int
	for i, o := range order {
		if i == at {
			for j := 0; j < 12; j++ {
				mixed = append(mixed, n)
			}
		}
		mixed = append(mixed, o)
	}
	name := func(kind byte, i int) string { return string([]byte{kind, ':', byte('0' + i/10), byte('0' + i%10)}) }
	first := []int64{0, 9, 1 << 40}[nd.Choose("first", 3)]
	next := map[string]int64{}
	k := 0
	tokenRun(mixed, msgs, noise[:1], func(i int) string {
		if i == n {
			k++
			return name('n', k%12)
		}
		return name('b', i%40)
	}, func(s string) int64 {
		o, ok := next[s]
		if !ok {
			o = 7
			if s == name('b', 1) {
				o = first
			}
		}
		next[s] = o + 1
		return o
	})
}
