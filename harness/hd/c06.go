package hd

import (
	"bytes"

	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// route is the reference for the routing of one key under a schema with the
// patterns p/ -> tp, q/[a-z]+/ -> tq, a|b/ -> tp (every alternative at the
// start of the key) and d/ -> def (the default topic).
func route(k string) (prefix, topic string) {
	n := len(k)
	if n >= 2 && k[0] == 'p' && k[1] == '/' {
		return "p/", "tp"
	}
	if n >= 2 && k[0] == 'd' && k[1] == '/' {
		return "d/", "def"
	}
	if n >= 1 && k[0] == 'm' {
		return "m", "tm"
	}
	if n >= 2 && k[0] == 'b' && k[1] == '/' {
		return "b/", "tm"
	}
	if n >= 2 && k[0] == 'q' && k[1] == '/' {
		i := 2
		for i < n && k[i] >= 'a' && k[i] <= 'z' {
			i++
		}
		if i > 2 && i < n && k[i] == '/' {
			return k[:i+1], "tq"
		}
	}
	return "", ""
}

var routeSchema = map[string]string{"p/": "tp", "q/[a-z]+/": "tq", "m|b/": "tm", "d/": "def"}

// checkMessages compares the result of AddBlock with the specification.
func checkMessages(msgs []*rm, c *content, dflt string, route func(string) (string, string)) {
	type exp struct {
		key   []byte
		value []byte
		topic string
		del   bool
		seen  int
	}
	var want []*exp
	counts := map[string]int64{}
	inline := map[string]refUpdate{}
	add := func(k string, v []byte, del bool) {
		prefix, topic := route(k)
		if prefix == "" {
			inline[k] = refUpdate{value: v, delete: del}
			return
		}
		counts[prefix]++
		t := byte(3)
		if del {
			t = 4
		}
		want = append(want, &exp{key: append(append([]byte{t}, c.hash[:]...), k...), value: v, topic: topic})
	}
	for k, v := range c.updates {
		add(k, v, false)
	}
	for k := range c.deletes {
		add(k, nil, true)
	}
	for k, id := range c.batches {
		inline[k] = refUpdate{subbatch: id}
	}
	for k, n := range counts {
		inline[k] = refUpdate{count: n}
	}
	blocks := 0
	for _, m := range msgs {
		if m.key[0] == 0 {
			blocks++
			nd.Assert(m.topic == dflt, "block message on the default topic")
			nd.Assert(len(m.key) == 33 && bytes.Equal(m.key[1:], c.hash[:]), "block message key")
			b, ok := decodeBatch(m.value)
			nd.Assert(ok, "block message decodes by the published schema")
			nd.Assert(b.num == c.number, "block number")
			nd.Assert(b.parent == [32]byte(c.parent), "block parent")
			w := c.weight.Bytes()
			nd.Assert(len(w) == len(b.weight) && bytes.Equal(w, b.weight), "block weight")
			nd.Assert(len(b.keys) == len(inline), "number of entries")
			for k, u := range inline {
				x, ok := b.updates[k]
				nd.Assert(ok, "entry present")
				nd.Assert(len(x.value) == len(u.value) && bytes.Equal(x.value, u.value), "entry value")
				nd.Assert(x.count == u.count, "entry count")
				nd.Assert(x.delete == u.delete, "entry delete")
				nd.Assert(x.subbatch == u.subbatch, "entry subbatch")
			}
			continue
		}
		hit := false
		for _, e := range want {
			if len(e.key) == len(m.key) && bytes.Equal(e.key, m.key) {
				hit = true
				e.seen++
				nd.Assert(m.topic == e.topic, "message on the topic of its prefix")
				nd.Assert(len(e.value) == len(m.value) && bytes.Equal(e.value, m.value), "message value")
			}
		}
		nd.Assert(hit, "no message that was not asked for")
	}
	nd.Assert(blocks == 1, "one block message")
	for _, e := range want {
		nd.Assert(e.seen == 1, "every message sent once")
	}
}

func rawMessages(tm map[string][]*rm) []*rm {
	var r []*rm
	for _, ms := range tm {
		r = append(r, ms...)
	}
	return r
}

// C06_keys: routing of arbitrary keys.
// Bounds: two entries (updates or deletes) with keys of 0 to 4 arbitrary ASCII bytes,
// and one of "q/x/", "q/x/y", "d/1" or "b/"; 1-byte values; schema of four
// patterns including one with alternatives and one routed to the default topic.
// Weight: 2
func C06_keys() {
	c := newContent()
	c.number, c.hash, c.parent = 5, hashOf(1), hashOf(2)
	c.weight = bigOf(9)
	max := 4
	if nd.Thorough() {
		max = 6
	}
	k := nd.String("key", nd.Choose("keylen", max+1))
	for i := 0; i < len(k); i++ {
		nd.Assume(k[i] < 0x80)
	}
	if nd.Choose("delete", 2) == 0 {
		c.updates[k] = nd.Bytes("v", 1)
	} else {
		c.deletes[k] = struct{}{}
	}
	k2 := []string{"q/x/", "q/x/y", "d/1", "b/"}[nd.Choose("second", 4)]
	nd.Assume(k != k2)
	if nd.Choose("delete2", 2) == 0 {
		c.updates[k2] = nd.Bytes("v", 1)
	} else {
		c.deletes[k2] = struct{}{}
	}
	// a key that equals a counted prefix without matching it is a conflict
	p1, _ := route(k)
	p2, _ := route(k2)
	nd.Assume(!(p1 == "" && p2 == k))
	nd.Assume(!(p2 == "" && p1 == k2))
	tm, err := newProducer(routeSchema).AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	checkMessages(flatten(tm), c, "def", route)
	nd.Reach("checked")
}

// C06_block: the block message itself.
// Bounds: any number >= 0, hash and parent; weights of 0, 1, 8, 9 or 32 arbitrary bytes;
// an inline update of 0 to 300 bytes, an inline delete, a sub-batch with any
// identifier and two prefixed messages.
func C06_block() {
	c := newContent()
	c.number = nd.Int64("number")
	nd.Assume(c.number >= 0)
	c.hash, c.parent = symHash("hash"), symHash("parent")
	c.weight = symBig("weight", []int{0, 1, 8, 9, 32}[nd.Choose("wlen", 5)])
	switch nd.Choose("what", 4) {
	case 0:
		c.updates["k"] = nd.Bytes("v", someLength("len"))
	case 1:
		c.deletes["k"] = struct{}{}
	case 2:
		var id types.Hash = symHash("id")
		nd.Assume(id != types.Hash{})
		c.batches["s/"] = id
	case 3:
		c.updates["p/"+nd.String("k", 1)] = nd.Bytes("v", someLength("len"))
		c.deletes["p/xx"] = struct{}{}
	}
	tm, err := newProducer(routeSchema).AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	checkMessages(flatten(tm), c, "def", route)
	nd.Reach("checked")
}

// C06_counts: many messages under several prefixes.
// Bounds: 3, 70 or 200 updates and deletes spread over four prefixes.
func C06_counts() {
	c := newContent()
	c.number, c.hash, c.parent, c.weight = 5, hashOf(1), hashOf(2), bigOf(9)
	n := []int{3, 70, 200}[nd.Choose("n", 3)]
	for i := 0; i < n; i++ {
		k := string([]byte{'0' + byte(i%64), '0' + byte(i/64)})
		k = []string{"p/", "q/a/", "q/b/", "d/", "z"}[i%5] + k
		if i%7 == 3 {
			c.deletes[k] = struct{}{}
		} else {
			c.updates[k] = []byte{byte(i)}
		}
	}
	tm, err := newProducer(routeSchema).AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	checkMessages(flatten(tm), c, "def", route)
	nd.Reach("checked")
}
