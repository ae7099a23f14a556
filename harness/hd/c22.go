package hd

import (
	"bytes"
	"strings"

	"verif/harness/nd"
)

// victim is a small block of one message of each kind.
func victim() (*content, []*rm) {
	c := newContent()
	c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
	c.updates["p/k"] = []byte{1}
	c.updates["i"] = []byte{2}
	c.batches["s/"] = hashOf(7)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/x": []byte{3}}}
	msgs := produce(newProducer(mixedSchema), c)
	nd.Assert(len(msgs) == 4, "messages")
	return c, msgs
}

// intrude delivers the block in a chosen order with the message g somewhere in
// between. It returns false when g is one of the block's own messages by its key.
func intrude(g *rm, everywhere bool) {
	c, msgs := victim()
	// keys the block is made of, and keys it has to take for its own
	own := false
	for _, m := range msgs {
		own = nd.Or(own, bytes.Equal(m.key, g.key))
	}
	nd.Assume(!own)
	if len(g.key) > 34 && (g.key[0] == 3 || g.key[0] == 4) {
		claims := nd.And(bytes.Equal(g.key[1:33], c.hash[:]), strings.HasPrefix(string(g.key[33:]), "p/"))
		nd.Assume(!claims)
	}
	order, at := []int{0, 1, 2, 3}, 2
	if nd.Thorough() && everywhere {
		order = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 1, 3}}[nd.Choose("order", 3)]
		at = nd.Choose("place", len(order)+1)
	} else if everywhere {
		if nd.Choose("order", 2) == 1 {
			order = []int{3, 2, 1, 0}
		}
		at = 2 * nd.Choose("place", 3)
	}
	co := newConsumer(config())
	for i, j := range order {
		if i == at {
			co.mp.ProcessMessage(g)
		}
		nd.Assert(co.deliver(msgs[j]) == nil, "no error")
	}
	if at == len(order) {
		co.mp.ProcessMessage(g)
	}
	n := 0
	for _, pb := range co.emitted() {
		if pb.Hash == c.hash {
			n++
			sameBatch(pb, c, "block")
			continue
		}
		// a block of its own
		ok := len(g.key) == 33 && g.key[0] == 0 && bytes.Equal(g.key[1:], pb.Hash[:])
		nd.Assert(ok, "nothing else is emitted")
		x, ok := decodeBatchPrefix(g.value)
		nd.Assert(ok && x.num == pb.Number, "only a well-formed block is emitted")
	}
	nd.Assert(n == 1, "the block is emitted once")
	nd.Reach("survived")
}

// C22_key: any message with a short value.
// Bounds: keys of 0, 1, 2, 32 to 36 and 64 to 67 arbitrary bytes (those over 36 not
// of types 3 and 4), values of 0 to 2 arbitrary bytes, at three of the five places
// of a block of four messages delivered in order or reversed (thorough: at any
// place, one order more).
// Weight: 3
func C22_key() {
	ls := []int{0, 1, 2, 32, 33, 34, 35, 36, 64, 65, 66, 67}
	n := ls[nd.Choose("keylen", len(ls))]
	key := nd.Bytes("key", n)
	if n > 36 {
		nd.Assume(nd.And(key[0] != 3, key[0] != 4))
	}
	intrude(&rm{key: key, value: nd.Bytes("value", nd.Choose("valuelen", 3)), src: "x:0"}, true)
}

// C22_block: block messages with arbitrary parts.
// Bounds: the well-formed message of another block (two updates) cut off after
// any byte, or with one byte (thorough: two) anywhere replaced by any other.
// Weight: 2
func C22_block() {
	d := newContent()
	d.number, d.hash, d.parent, d.weight = 300, hashOf(3), hashOf(2), bigOf(9)
	d.updates["x"] = []byte{1, 2}
	d.deletes["y"] = struct{}{}
	m := produce(newProducer(mixedSchema), d)[0]
	v := append([]byte{}, m.value...)
	if nd.Choose("how", 2) == 0 {
		v = v[:nd.Choose("cut", len(v))]
	} else {
		n := 1
		if nd.Thorough() {
			n = 2
		}
		for ; n > 0; n-- {
			v[nd.Choose("at", len(v))] = nd.Byte("byte")
		}
	}
	if x, ok := decodeBatchPrefix(v); ok {
		for _, k := range x.keys {
			for i := range k {
				nd.Assume(k[i] < 0x80)
			}
		}
	}
	intrude(&rm{key: m.key, value: v, src: "x:0"}, false)
}

// C22_any: block messages and sub-batch items made of arbitrary bytes.
// Bounds: values of 3 bytes (thorough: 5), for blocks also after a fixed number, weight
// and parent.
// Weight: 2
func C22_any() {
	n := 3
	if nd.Thorough() {
		n = 5
	}
	switch nd.Choose("kind", 3) {
	case 0:
		h := hashOf(3)
		intrude(&rm{key: append([]byte{0}, h[:]...), value: nd.Bytes("value", n), src: "x:0"}, false)
	case 1:
		h := hashOf(3)
		v := append([]byte{2, 2, 5}, make([]byte, 32)...)
		intrude(&rm{key: append([]byte{0}, h[:]...), value: append(v, nd.Bytes("value", n)...), src: "x:0"}, false)
	case 2:
		// an item of another block, which then completes
		c := newContent()
		c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/x": []byte{3}}}
		msgs := produce(newProducer(mixedSchema), c)
		co := newConsumer(config())
		g := &rm{key: msgs[2].key, value: nd.Bytes("value", n), src: "x:0"}
		order := [][]int{{0, 1, 3}, {3, 0, 1}, {0, 3, 1}}[nd.Choose("order", 3)]
		for _, j := range order {
			m := g
			if j < 3 {
				m = msgs[j]
			}
			co.deliver(m)
		}
		x, ok := decodeItemPrefix(g.value)
		out := co.emitted()
		if !ok {
			nd.Assert(len(out) == 0, "a malformed item does not complete the block")
			co.deliver(msgs[2])
			out = co.emitted()
			nd.Assert(len(out) == 1, "the real item does")
			sameBatch(out[0], c, "block")
			nd.Reach("malformed")
			return
		}
		nd.Assert(len(out) == 1, "a well-formed item completes the block")
		sameMap(out[0].Values, x.updates, "block")
		nd.Reach("well-formed")
	}
}

// C22_count: sub-batch headers and indices of any size.
// Bounds: a header with any count below 6, negative or not a number; items with
// any 32-bit index or any key ending of 1 to 3 bytes, before or after the header
// and block message; then the real item.
func C22_count() {
	c, msgs := victim()
	co := newConsumer(config())
	g := *msgs[3]
	nd.Assert(g.key[0] == 2 && len(g.key) == 66, "an item")
	g.key = append(append([]byte{}, g.key[:65]...), nd.Bytes("index", 1+nd.Choose("len", 3))...)
	nd.Assume(!bytes.Equal(g.key, msgs[3].key))
	at := nd.Choose("place", 4)
	order := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}}[nd.Choose("order", 3)]
	for i, j := range order {
		if i == at {
			co.deliver(&g)
		}
		co.deliver(msgs[j])
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "the block is emitted once")
	sameBatch(out[0], c, "block")
	nd.Reach("survived")
}

// C22_header: a malformed header does not pass for the real one.
// Bounds: header values of 0 to 6 arbitrary bytes whose count is negative, not an
// int or cut off, before the real header.
func C22_header() {
	c, msgs := victim()
	co := newConsumer(config())
	g := *msgs[2]
	nd.Assert(g.key[0] == 1, "a header")
	g.value = nd.Bytes("value", nd.Choose("len", 7))
	n, ok := decodeIntPrefix(g.value)
	nd.Assume(nd.Or(!ok, n < 0, n > 1<<31-1))
	at := nd.Choose("place", 3)
	for i, j := range []int{0, 1, 3, 2} {
		if i == at {
			co.deliver(&g)
		}
		if i == 3 {
			nd.Assert(len(co.emitted()) == 0, "not emitted without its header")
		}
		co.deliver(msgs[j])
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "the block is emitted once")
	sameBatch(out[0], c, "block")
	nd.Reach("survived")
}

// C22_reorg: a malformed reorg message has no effect.
// Bounds: reorg messages with values of 0 to 11 bytes that do not hold a number,
// or with a key of another length, after a block that is then repeated.
func C22_reorg() {
	c, msgs := victim()
	co := newConsumer(config())
	for _, m := range msgs {
		co.deliver(m)
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "the block is emitted once")
	sameBatch(out[0], c, "block")
	h := hashOf(4)
	g := &rm{key: append([]byte{5}, h[:]...), src: "x:0"}
	if nd.Choose("what", 2) == 0 {
		g.value = nd.Bytes("value", nd.Choose("len", 12))
		_, ok := decodeIntPrefix(g.value)
		nd.Assume(!ok)
	} else {
		g.value = []byte{2}
		g.key = g.key[:nd.Choose("keylen", 33)]
	}
	nd.Assert(co.deliver(g) != nil, "a malformed reorg message is refused")
	for _, m := range msgs {
		co.deliver(m)
	}
	nd.Assert(len(co.emitted()) == 0, "a refused reorg message has no effect")
	nd.Reach("refused")
}
