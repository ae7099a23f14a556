package hd

import (
	"bytes"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// C07_schema: creating a producer fails exactly when one schema prefix is a
// prefix of another.
// Bounds: two or three patterns of 0 to 3 letters each ('a' or 'b').
func C07_schema() {
	n := 2 + nd.Choose("n", 2)
	s := map[string]string{}
	var ks []string
	for i := 0; i < n; i++ {
		k := ""
		for j := nd.Choose("len", 4); j > 0; j-- {
			k += []string{"a", "b"}[nd.Choose("letter", 2)]
		}
		for _, o := range ks {
			nd.Assume(o != k)
		}
		ks = append(ks, k)
		s[k] = "t"
	}
	over := false
	for i, a := range ks {
		for j, b := range ks {
			if i != j && strings.HasPrefix(a, b) {
				over = true
			}
		}
	}
	p, err := delivery.NewProducer("def", s)
	if over {
		nd.Assert(err != nil && p == nil, "overlapping prefixes are refused")
		nd.Reach("refused")
	} else {
		nd.Assert(err == nil && p != nil, "prefixes that do not overlap are accepted")
		nd.Reach("accepted")
	}
}

// C07_pattern: patterns that do not compile are refused.
// Bounds: ten patterns, alone or with a valid one.
func C07_pattern() {
	bad := []string{"(", "a[", "*a", "a)", "^(", "^a{2", "[z-a]", "(?<", "\\", "p/|("}
	good := []string{"a{2", "^a", "p/", "[a-z]", "a|b/", "(x)"}
	i := nd.Choose("pattern", len(bad)+len(good))
	s := map[string]string{}
	if nd.Choose("with", 2) == 1 {
		s["zz/"] = "t"
	}
	if i < len(bad) {
		s[bad[i]] = "t"
		if bad[i] == "^a{2" {
			return
		}
		p, err := delivery.NewProducer("def", s)
		nd.Assert(err != nil && p == nil, "a pattern that does not compile is refused")
		nd.Reach("refused")
	} else {
		s[good[i-len(bad)]] = "t"
		p, err := delivery.NewProducer("def", s)
		nd.Assert(err == nil && p != nil, "a valid pattern is accepted")
		nd.Reach("accepted")
	}
}

func sameMessages(a, b map[string][]delivery.Message, what string) {
	x, y := flatten(a), flatten(b)
	nd.Assert(len(x) == len(y), what+": number of messages")
	for i := range x {
		nd.Assert(x[i].topic == y[i].topic, what+": topic")
		nd.Assert(bytes.Equal(x[i].key, y[i].key), what+": key")
		if x[i].key[0] == 0 {
			continue // map order may differ inside the block message
		}
		nd.Assert(bytes.Equal(x[i].value, y[i].value), what+": value")
	}
}

// C07_block: which blocks are refused, and that refusal leaves no trace.
// Bounds: an inline update, an inline delete, a prefixed update with prefix "p/"
// and two sub-batches whose keys are arbitrary strings of 2 ASCII bytes and
// whose identifiers may be zero; afterwards a valid block and the sub-batches
// of the refused one are tried.
// Weight: 2
func C07_block() {
	p, q := newProducer(map[string]string{"p/": "tp"}), newProducer(map[string]string{"p/": "tp"})
	c := newContent()
	c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
	what := nd.Choose("what", 3)
	k := nd.String("key", 2)
	nd.Assume(k[0] < 0x80 && k[1] < 0x80)
	counted := false
	inline := false
	switch what {
	case 0:
		c.updates[k] = nd.Bytes("v", 1)
		inline = k != "p/"
		counted = k == "p/"
	case 1:
		c.deletes[k] = struct{}{}
		inline = k != "p/"
		counted = k == "p/"
	case 2:
		c.updates["p/x"] = nd.Bytes("v", 1)
		counted = true
	}
	bk := nd.String("bkey", 2)
	nd.Assume(bk[0] < 0x80 && bk[1] < 0x80)
	var id types.Hash
	id[nd.Choose("pos", 3)*15] = nd.Byte("idbyte")
	c.batches[bk] = id
	id2 := hashOf(8)
	two := nd.Choose("two", 2) == 1
	if two {
		nd.Assume(bk != "t/")
		c.batches["t/"] = id2
		nd.Assume(id != id2)
	}
	conflict := inline && (k == bk || two && k == "t/") || counted && bk == "p/"
	zero := id == types.Hash{}
	tm, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	if conflict || zero {
		nd.Assert(err != nil, "an invalid block is refused")
		nd.Assert(len(tm) == 0, "a refused block has no messages")
		nd.Reach("refused")
		for _, b := range []types.Hash{id, id2} {
			tm, err := p.SendBatch(b, nil, map[string][]byte{"t/x": []byte{1}})
			nd.Assert(err != nil, "a sub-batch of a refused block is refused")
			nd.Assert(len(tm) == 0, "a refused sub-batch has no messages")
		}
	} else {
		nd.Assert(err == nil, "a valid block is accepted")
		_, err = q.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
		nd.Assert(err == nil, "a valid block is accepted")
		nd.Reach("accepted")
	}
	// a second block is handled alike by a producer that never saw the refused one
	d := newContent()
	d.number, d.hash, d.parent, d.weight = 6, hashOf(3), hashOf(1), bigOf(10)
	d.updates["p/y"] = []byte{1}
	d.batches["u/"] = hashOf(9)
	a, err1 := p.AddBlock(d.number, d.hash, d.parent, d.weight, d.updates, d.deletes, d.batches)
	b, err2 := q.AddBlock(d.number, d.hash, d.parent, d.weight, d.updates, d.deletes, d.batches)
	nd.Assert(err1 == nil && err2 == nil, "a later block is accepted")
	sameMessages(a, b, "later block")
	for _, x := range []types.Hash{hashOf(9), id, id2} {
		a, err1 = p.SendBatch(x, []string{"u/d"}, map[string][]byte{"u/x": []byte{1}})
		b, err2 = q.SendBatch(x, []string{"u/d"}, map[string][]byte{"u/x": []byte{1}})
		nd.Assert((err1 == nil) == (err2 == nil), "later sub-batch")
		sameMessages(a, b, "later sub-batch")
	}
}

// C07_send: a sub-batch is accepted once, and only when announced.
// Bounds: two blocks, three announced identifiers, of which the second block's may be
// one of the first's; up to three calls with any
// 32-byte identifier, all with zero or one delete and update.
func C07_send() {
	p := newProducer(map[string]string{"s/": "ts"})
	ids := []types.Hash{hashOf(7), hashOf(8), symHash("id3")}
	nd.Assume(ids[2] != hashOf(0))
	first := true
	left := map[types.Hash]types.Hash{}
	block := func(i int) {
		c := newContent()
		c.number, c.hash, c.parent, c.weight = 5, hashOf(byte(1+i)), hashOf(2), bigOf(9)
		if i == 0 {
			c.batches["s/"] = ids[0]
			c.batches["t/"] = ids[1]
		} else {
			c.batches["s/"] = ids[2]
		}
		for _, id := range c.batches {
			left[id] = c.hash
		}
		_, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
		nd.Assert(err == nil, "a valid block is accepted")
	}
	block(0)
	var del []string
	upd := map[string][]byte{}
	if nd.Choose("deletes", 2) == 1 {
		del = append(del, "s/d")
	}
	if nd.Choose("updates", 2) == 1 {
		upd["s/x"] = []byte{1}
	}
	for i := 0; i < 3; i++ {
		if first && nd.Choose("second block", 2) == 1 {
			first = false
			block(1)
		}
		var x types.Hash
		if j := nd.Choose("which", 4); j < 3 {
			x = ids[j]
		} else {
			x = symHash("id")
		}
		tm, err := p.SendBatch(x, del, upd)
		h, ok := left[x]
		if ok {
			nd.Assert(err == nil, "an announced sub-batch is accepted once")
			nd.Assert(len(flatten(tm)) == 1+len(del)+len(upd), "a sub-batch has all its messages")
			for _, m := range flatten(tm) {
				nd.Assert(bytes.Equal(m.key[1:33], h[:]), "a sub-batch goes to the block that announced it")
			}
			delete(left, x)
			nd.Reach("sent")
		} else {
			nd.Assert(err != nil && len(tm) == 0, "any other sub-batch is refused")
			nd.Reach("refused")
		}
	}
}
