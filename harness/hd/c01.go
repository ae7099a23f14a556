package hd

import (
	"math/big"
	"strconv"

	"verif/harness/nd"
)

// C01_contents: a block with one inline or prefixed update or delete or one
// sub-batch; block message first or last.
// Bounds: values of length 0, 1, 3, 32, 65 or 300 bytes with arbitrary
// contents; number any int64 >= 0; weight any number of 0, 1, 8, 9 or 32
// bytes; hash and parent any 32 bytes; one entry of any kind.
func C01_contents() {
	p := newProducer(map[string]string{"p/": "tp"})
	c := newContent()
	c.number = nd.Int64("number")
	nd.Assume(c.number >= 0)
	c.weight = symBig("weight", []int{0, 1, 8, 9, 32}[nd.Choose("wlen", 5)])
	c.hash = symHash("hash")
	c.parent = symHash("parent")
	switch nd.Choose("kind", 5) {
	case 0:
		c.updates["k"] = nd.Bytes("v", someLength("len"))
	case 1:
		c.updates["p/k"] = nd.Bytes("v", someLength("len"))
	case 2:
		c.deletes["k"] = struct{}{}
	case 3:
		c.deletes["p/k"] = struct{}{}
	case 4:
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = sub{deletes: []string{"s/d"}, updates: map[string][]byte{"s/u": nd.Bytes("v", someLength("len"))}}
	}
	msgs := produce(p, c)
	co := newConsumer(config())
	last := nd.Choose("blocklast", 2) == 1
	if !last {
		nd.Assert(co.deliver(msgs[0]) == nil, "no error")
	}
	for _, m := range msgs[1:] {
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	if last {
		nd.Assert(co.deliver(msgs[0]) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// mixed is a block with entries of every kind; contents are symbolic.
func mixed(n int) *content {
	c := newContent()
	c.number = 5
	c.weight = big.NewInt(9)
	c.hash = hashOf(1)
	c.parent = hashOf(2)
	c.updates["k"] = nd.Bytes("v0", 1)
	c.updates["p/1"] = nd.Bytes("v1", nd.Choose("l1", 2))
	c.deletes["p/3"] = struct{}{}
	if n > 1 {
		c.deletes["j"] = struct{}{}
		c.updates["p/2"] = nd.Bytes("v2", 2)
		c.updates["q/x/2"] = nd.Bytes("v3", 0)
	}
	c.batches["s/"] = hashOf(7)
	s := sub{updates: map[string][]byte{"s/u": nd.Bytes("v4", nd.Choose("l4", 2))}}
	if n > 1 {
		s.deletes = []string{"s/d", "t/d"}
	}
	c.subs[hashOf(7)] = s
	return c
}

var mixedSchema = map[string]string{"p/": "tp", "q/[a-z]+/": "tq"}

// C01_orders: all messages of a block with entries of every kind, delivered in
// every order, nothing repeated.
// Bounds: 7 messages (block, three prefixed updates and deletes, sub-batch
// header, one or two items), every one of their orders; values of 0 to 2
// arbitrary bytes.
// Weight: 2
func C01_orders() {
	c := mixed(1)
	if nd.Thorough() {
		c = mixed(2)
	} else {
		c.updates["p/2"] = nd.Bytes("v2", 1)
		c.subs[hashOf(7)].updates["s/w"] = nd.Bytes("v5", 1)
	}
	msgs := produce(newProducer(mixedSchema), c)
	co := newConsumer(config())
	for n, i := range permutation("order", len(msgs)) {
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
		if n < len(msgs)-1 {
			nd.Assert(len(co.ch) == 0, "nothing before the last message")
		}
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C01_repeats: as C01_orders, with one message (quick) or two (thorough)
// delivered again at any position.
// Bounds: 5 messages plus repeats in every order; values of 0 or 1 bytes.
// Weight: 2
func C01_repeats() {
	c := mixed(1)
	msgs := produce(newProducer(mixedSchema), c)
	n := len(msgs)
	msgs = append(msgs, msgs[nd.Choose("dup", n)])
	if nd.Thorough() {
		msgs = append(msgs, msgs[nd.Choose("dup2", n)])
	}
	co := newConsumer(config())
	for _, i := range permutation("order", len(msgs)) {
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C01_both: keys that are both updated and deleted, by messages of their own or
// in a sub-batch.
// Bounds: one such key under a prefix and one in a sub-batch, 6 messages; all
// orders of the first three with one repeated, before, between or after the
// others; values of 0 or 1 arbitrary bytes.
func C01_both() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.updates["p/k"] = nd.Bytes("v", nd.Choose("len", 2))
	c.deletes["p/k"] = struct{}{}
	c.batches["s/"] = hashOf(7)
	c.subs[hashOf(7)] = sub{deletes: []string{"s/k"}, updates: map[string][]byte{"s/k": nd.Bytes("w", 1)}}
	msgs := produce(newProducer(mixedSchema), c)
	nd.Assert(len(msgs) == 6, "number of messages")
	own, rest := msgs[:3:3], msgs[3:]
	own = append(own, own[nd.Choose("dup", 3)])
	at := nd.Choose("others at", 3) * 2
	co := newConsumer(config())
	others := func() {
		for _, m := range rest {
			nd.Assert(co.deliver(m) == nil, "no error")
		}
	}
	for n, i := range permutation("order", len(own)) {
		if n == at {
			others()
		}
		nd.Assert(co.deliver(own[i]) == nil, "no error")
	}
	if at == len(own) {
		others()
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C01_keys: prefixed updates and deletes whose keys have arbitrary bytes after
// the prefix, and inline updates with arbitrary keys.
// Bounds: keys of up to 3 arbitrary ASCII bytes (6 thorough) after the prefix; prefixes
// "p/", "c/[0-9a-f]+/a/" and "/r/"; block message first or last.
func C01_keys() {
	p := newProducer(map[string]string{"p/": "tp", "c/[0-9a-f]+/a/": "tc", "/r/": "tr"})
	c := newContent()
	c.number = 5
	c.weight = big.NewInt(9)
	c.hash = hashOf(1)
	c.parent = hashOf(2)
	max := 4
	if nd.Thorough() {
		max = 7
	}
	rest := nd.String("key", nd.Choose("keylen", max))
	for i := 0; i < len(rest); i++ {
		nd.Assume(rest[i] < 0x80)
	}
	key := ""
	switch nd.Choose("prefix", 4) {
	case 0:
		key = "p/" + rest
	case 1:
		key = "c/1f/a/" + rest
	case 2:
		key = "/r/" + rest
	case 3:
		key = rest
	}
	if nd.Choose("delete", 2) == 0 {
		c.updates[key] = nd.Bytes("v", 2)
	} else {
		c.deletes[key] = struct{}{}
	}
	msgs := produce(p, c)
	co := newConsumer(config())
	last := nd.Choose("blocklast", 2) == 1
	if last && len(msgs) == 2 {
		msgs[0], msgs[1] = msgs[1], msgs[0]
	}
	for _, m := range msgs {
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}

// C01_many: blocks with many messages, in production order or reversed, with
// some repeated.
// Bounds: 70 or 130 prefixed updates, inline updates or sub-batch items; values
// of one arbitrary byte for five of them.
func C01_many() {
	c := newContent()
	c.number = 5
	c.weight = big.NewInt(9)
	c.hash = hashOf(1)
	c.parent = hashOf(2)
	n := []int{70, 130}[nd.Choose("count", 2)]
	kind := nd.Choose("kind", 3)
	s := sub{updates: map[string][]byte{}}
	for i := 0; i < n; i++ {
		v := []byte{byte(i), 1}
		if i%30 == 7 {
			v = nd.Bytes("v", 1)
		}
		k := strconv.Itoa(i)
		switch kind {
		case 0:
			c.updates["p/"+k] = v
		case 1:
			c.updates[k] = v
		case 2:
			s.updates["s/"+k] = v
		}
	}
	if kind == 2 {
		c.batches["s/"] = hashOf(7)
		c.subs[hashOf(7)] = s
	}
	msgs := produce(newProducer(mixedSchema), c)
	co := newConsumer(config())
	rev := nd.Choose("reverse", 2) == 1
	rep := nd.Choose("repeat", 2) == 1
	for i := range msgs {
		m := msgs[i]
		if rev {
			m = msgs[len(msgs)-1-i]
		}
		nd.Assert(co.deliver(m) == nil, "no error")
		if rep && i < len(msgs)-1 {
			nd.Assert(co.deliver(m) == nil, "no error")
		}
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "exactly one batch")
	sameBatch(out[0], c, "batch")
	nd.Reach("emitted")
}
