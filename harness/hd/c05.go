package hd

import (
	"bytes"
	"math/big"
	"strconv"

	"verif/harness/nd"
)

// checkSub compares the messages of one SendBatch call with its arguments.
func checkSub(tm map[string][]*rm, topic string, c *content, key string) {
	id := c.batches[key]
	s := c.subs[id]
	head := append([]byte{1}, append(append([]byte{}, c.hash[:]...), id[:]...)...)
	item := append([]byte{2}, append(append([]byte{}, c.hash[:]...), id[:]...)...)
	total := 0
	for t, ms := range tm {
		total += len(ms)
		nd.Assert(t == topic || len(ms) == 0, "sub-batch sent on the topic of its prefix")
	}
	headers, count := 0, int64(-1)
	seen := map[int64]bool{}
	got := &refItem{updates: map[string][]byte{}}
	for _, m := range tm[topic] {
		if m.key[0] == 1 {
			headers++
			nd.Assert(bytes.Equal(m.key, head), "header key")
			n, ok := decodeInt(m.value)
			nd.Assert(ok, "header value")
			count = n
			continue
		}
		nd.Assert(len(m.key) > 65 && bytes.Equal(m.key[:65], item), "item key")
		i, ok := decodeInt(m.key[65:])
		nd.Assert(ok, "item index")
		nd.Assert(!seen[i], "item index used once")
		seen[i] = true
		it, ok := decodeItem(m.value)
		nd.Assert(ok, "item value")
		got.deletes = append(got.deletes, it.deletes...)
		for k, v := range it.updates {
			_, dup := got.updates[k]
			nd.Assert(!dup, "update sent once")
			got.updates[k] = v
		}
	}
	nd.Assert(headers == 1, "one header")
	nd.Assert(count == int64(total-1), "header carries the item count")
	for i := int64(0); i < count; i++ {
		nd.Assert(seen[i], "every index from zero")
	}
	nd.Assert(len(got.deletes) == len(s.deletes), "number of deletes")
	for _, k := range s.deletes {
		n := 0
		for _, j := range got.deletes {
			if j == k {
				n++
			}
		}
		nd.Assert(n > 0, "delete sent")
	}
	sameMap(got.updates, s.updates, "items")
}

func sendBatch(c *content, key string, schema map[string]string) ([]*rm, map[string][]*rm) {
	p := newProducer(schema)
	tm, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	msgs := flatten(tm)
	id := c.batches[key]
	tm, err = p.SendBatch(id, c.subs[id].deletes, c.subs[id].updates)
	nd.Assert(err == nil, "producer accepts an announced sub-batch")
	r := map[string][]*rm{}
	for _, m := range flatten(tm) {
		msgs = append(msgs, m)
		r[m.topic] = append(r[m.topic], m)
	}
	return msgs, r
}

// C05_produce: the messages of one sub-batch.
// Bounds: 0 to 2 deletes and 0 to 3 updates with arbitrary keys of 2 bytes
// (different from one another) and arbitrary values of 0, 1, 3, 32, 65 or 300
// bytes (one update) or 1 byte; arbitrary hash and identifier; prefix routed to
// a topic of its own or to the default one.
func C05_produce() {
	c := newContent()
	c.number, c.weight, c.parent = 5, big.NewInt(9), hashOf(2)
	c.hash = symHash("hash")
	id := symHash("id")
	nd.Assume(id != hashOf(0))
	key, topic := "s/", "ts"
	if nd.Choose("routed", 2) == 1 {
		key, topic = "z/", "def"
	}
	s := sub{updates: map[string][]byte{}}
	d := nd.Choose("deletes", 3)
	for i := 0; i < d; i++ {
		s.deletes = append(s.deletes, nd.String("dkey", nd.Choose("dlen", 3)))
	}
	if d == 2 {
		nd.Assume(s.deletes[0] != s.deletes[1])
	}
	n := nd.Choose("updates", 4)
	var ks []string
	for i := 0; i < n; i++ {
		k := nd.String("ukey", 2)
		for _, j := range ks {
			nd.Assume(j < k)
		}
		ks = append(ks, k)
		l := 1
		if n == 1 {
			l = someLength("len")
		}
		s.updates[k] = nd.Bytes("v", l)
	}
	c.batches[key] = id
	c.subs[id] = s
	_, tm := sendBatch(c, key, map[string]string{"s/": "ts", "q/": "tq"})
	checkSub(tm, topic, c, key)
	nd.Reach("sent")
}

// C05_routing: the topic of a sub-batch.
// Bounds: a sub-batch at an arbitrary key of 1 to 4 ASCII bytes (thorough: 6), with a
// delete and an update; the schema of C06_keys.
func C05_routing() {
	max := 4
	if nd.Thorough() {
		max = 6
	}
	c := newContent()
	c.number, c.weight, c.parent, c.hash = 5, big.NewInt(9), hashOf(2), hashOf(1)
	key := nd.String("key", 1+nd.Choose("keylen", max))
	for i := 0; i < len(key); i++ {
		nd.Assume(key[i] < 0x80)
	}
	c.batches[key] = hashOf(7)
	c.subs[hashOf(7)] = sub{deletes: []string{"d"}, updates: map[string][]byte{"u": {1}}}
	_, tm := sendBatch(c, key, routeSchema)
	prefix, topic := route(key)
	if prefix == "" {
		topic = "def"
		nd.Reach("default")
	} else {
		nd.Reach("routed")
	}
	checkSub(tm, topic, c, key)
}

// C05_orders: block, header and items in every order with repeats.
// Bounds: 0 to 3 items, one of them possibly deletes; every order of the up to 5
// messages and of one repeated message; values of 0 or 1 bytes.
// Weight: 2
func C05_orders() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.batches["s/"] = hashOf(7)
	s := sub{updates: map[string][]byte{}}
	n := nd.Choose("updates", 3)
	for i := 0; i < n; i++ {
		s.updates["s/"+strconv.Itoa(i)] = nd.Bytes("v", nd.Choose("len", 2))
	}
	if nd.Choose("deletes", 2) == 1 {
		s.deletes = []string{"s/x", "y"}
	}
	c.subs[hashOf(7)] = s
	msgs, _ := sendBatch(c, "s/", map[string]string{"s/": "ts"})
	k := len(msgs)
	msgs = append(msgs, msgs[nd.Choose("dup", k)])
	got := map[int]bool{}
	co := newConsumer(config())
	need := k
	for _, i := range permutation("order", len(msgs)) {
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
		j := i
		if i == k {
			for x := range msgs[:k] {
				if msgs[x] == msgs[k] {
					j = x
				}
			}
		}
		if !got[j] {
			got[j] = true
			need--
		}
		if need > 0 {
			nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		} else {
			nd.Assert(len(co.ch) == 1, "complete block emitted at once")
		}
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C05_two: the messages of two sub-batches of one block in every order.
// Bounds: two sub-batches, one with one item, one with one or two; every order of the
// 5 or 6 messages; values of 1 byte.
func C05_two() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.batches["s/"] = hashOf(7)
	c.batches["t/"] = hashOf(8)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/a": nd.Bytes("v", 1)}}
	s := sub{updates: map[string][]byte{"t/a": nd.Bytes("v", 1)}}
	if nd.Choose("items", 2) == 1 {
		s.deletes = []string{"t/d"}
	}
	c.subs[hashOf(8)] = s
	p := newProducer(map[string]string{"s/": "ts", "t/": "tt"})
	tm, err := p.AddBlock(c.number, c.hash, c.parent, c.weight, c.updates, c.deletes, c.batches)
	nd.Assert(err == nil, "producer accepts a valid block")
	msgs := flatten(tm)
	for _, id := range []byte{7, 8} {
		u := c.subs[hashOf(id)]
		tm, err = p.SendBatch(hashOf(id), u.deletes, u.updates)
		nd.Assert(err == nil, "producer accepts an announced sub-batch")
		msgs = append(msgs, flatten(tm)...)
	}
	co := newConsumer(config())
	for _, i := range permutation("order", len(msgs)) {
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C05_large: sub-batches whose indexes need more than one byte.
// Bounds: 64, 65, 130 or 200 updates with or without a delete item; items in order,
// reversed or before the header.
func C05_large() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.batches["s/"] = hashOf(7)
	s := sub{updates: map[string][]byte{}}
	n := []int{64, 65, 130, 200}[nd.Choose("updates", 4)]
	for i := 0; i < n; i++ {
		v := []byte{byte(i)}
		if i%20 == 0 {
			v = nd.Bytes("v", 1)
		}
		s.updates["s/"+strconv.Itoa(i)] = v
	}
	if nd.Choose("deletes", 2) == 1 {
		s.deletes = []string{"s/x"}
	}
	c.subs[hashOf(7)] = s
	msgs, tm := sendBatch(c, "s/", map[string]string{"s/": "ts"})
	checkSub(tm, "ts", c, "s/")
	co := newConsumer(config())
	mode := nd.Choose("order", 3)
	if mode == 1 {
		for i, j := 0, len(msgs)-1; i < j; i, j = i+1, j-1 {
			msgs[i], msgs[j] = msgs[j], msgs[i]
		}
	} else if mode == 2 {
		msgs = append(append(append([]*rm{}, msgs[:1]...), msgs[2:]...), msgs[1])
	}
	for _, m := range msgs {
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}
