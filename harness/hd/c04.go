package hd

import (
	"math/big"
	"regexp"

	"verif/harness/nd"
)

// trackedSets are the tracked-prefix configurations tried.
var trackedSets = [][]string{
	{"^p/"}, {"^[ps]/"}, {"a", "^q/y/"}, {"^s/$"}, {"/x"}, {}, {"^p/", "^q/"}, {"^k$", "^j$"}, {"^$"},
}

func anyMatch(pats []string, s string) bool {
	for _, p := range pats {
		if regexp.MustCompile(p).MatchString(s) {
			return true
		}
	}
	return false
}

// wide is a block with entries of every kind under several prefixes.
func wide() *content {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.updates["k"] = nd.Bytes("v0", 1)
	c.deletes["j/a"] = struct{}{}
	c.updates["p/1"] = nd.Bytes("v1", nd.Choose("l1", 2))
	c.deletes["q/y/3"] = struct{}{}
	c.updates["q/x/3"] = nd.Bytes("v2", 1)
	c.batches["s/"] = hashOf(7)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/u": nd.Bytes("v4", 1)}}
	return c
}

// part returns the tracked part of c and whether a message key belongs to it.
func (c *content) part(pats []string) *content {
	r := newContent()
	r.number, r.weight, r.hash, r.parent = c.number, c.weight, c.hash, c.parent
	entry := func(k string) string {
		switch {
		case len(k) > 1 && k[:2] == "p/":
			return "p/"
		case len(k) > 3 && k[:2] == "q/":
			return k[:4]
		}
		return k
	}
	for k, v := range c.updates {
		if anyMatch(pats, entry(k)) {
			r.updates[k] = v
		}
	}
	for k := range c.deletes {
		if anyMatch(pats, entry(k)) {
			r.deletes[k] = struct{}{}
		}
	}
	for k, id := range c.batches {
		if anyMatch(pats, k) {
			r.batches[k] = id
			r.subs[id] = c.subs[id]
		}
	}
	return r
}

// needed reports whether message m carries tracked contents (the block message
// always does).
func (c *content) needed(m *rm) bool {
	switch m.key[0] {
	case 0:
		return true
	case 1, 2:
		_, ok := c.subs[hashOf(7)]
		return ok
	case 3:
		_, ok := c.updates[string(m.key[33:])]
		return ok
	}
	_, ok := c.deletes[string(m.key[33:])]
	return ok
}

// C04_filter: a block with inline, prefixed and sub-batch contents, and a
// consumer tracking some of it; untracked messages may be delivered or not.
// Bounds: 9 sets of patterns; 6 messages; tracked ones in every order, untracked
// ones left out, all before or all after the block message; values of 0 or 1
// bytes.
// Weight: 2
func C04_filter() {
	pats := trackedSets[nd.Choose("tracked", len(trackedSets))]
	c := wide()
	msgs := produce(newProducer(mixedSchema), c)
	cfg := config(pats...)
	if len(pats) == 0 {
		cfg.TrackedPrefixes = nil
	}
	co := newConsumer(cfg)
	want := c.part(pats)
	var need, rest []*rm
	for _, m := range msgs {
		if want.needed(m) {
			need = append(need, m)
		} else {
			rest = append(rest, m)
		}
	}
	mode := nd.Choose("untracked", 3)
	if mode == 1 {
		for _, m := range rest {
			nd.Assert(co.deliver(m) == nil, "no error")
		}
	}
	seen := false
	for n, i := range permutation("order", len(need)) {
		nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		nd.Assert(co.deliver(need[i]) == nil, "no error")
		if need[i].key[0] == 0 && mode == 2 && n < len(need)-1 {
			for _, m := range rest {
				nd.Assert(co.deliver(m) == nil, "no error")
				nd.Assert(len(co.ch) == 0, "incomplete block emitted")
			}
			seen = true
		}
	}
	_ = seen
	out := co.emitted()
	nd.Assert(len(out) == 1, "emitted as soon as the tracked data arrived")
	sameBatch(out[0], want, "tracked part")
	for _, m := range rest {
		nd.Assert(co.deliver(m) == nil, "no error")
	}
	nd.Assert(len(co.ch) == 0, "untracked messages emit nothing")
	nd.Reach("emitted")
}

// C04_key: whether an inline entry is kept is decided by its key alone.
// Bounds: keys of up to 3 arbitrary ASCII bytes, patterns "^a", "b/" and "c$" one at a time
// or together; update or delete.
func C04_key() {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	k := nd.String("key", nd.Choose("len", 4))
	for i := 0; i < len(k); i++ {
		nd.Assume(k[i] < 0x80)
	}
	n := len(k)
	mode := nd.Choose("patterns", 4)
	m1 := n > 0 && k[0] == 'a'
	m2 := n > 1 && k[0] == 'b' && k[1] == '/' || n > 2 && k[1] == 'b' && k[2] == '/'
	m3 := n > 0 && k[n-1] == 'c'
	var pats []string
	want := false
	if mode == 0 || mode == 3 {
		pats = append(pats, "^a")
		want = want || m1
	}
	if mode == 1 || mode == 3 {
		pats = append(pats, "b/")
		want = want || m2
	}
	if mode == 2 || mode == 3 {
		pats = append(pats, "c$")
		want = want || m3
	}
	if nd.Choose("delete", 2) == 0 {
		c.updates[k] = nd.Bytes("v", nd.Choose("vlen", 2))
	} else {
		c.deletes[k] = struct{}{}
	}
	msgs := produce(newProducer(nil), c)
	co := newConsumer(config(pats...))
	nd.Assert(len(msgs) == 1, "one message")
	nd.Assert(co.deliver(msgs[0]) == nil, "no error")
	if !want {
		c.updates = map[string][]byte{}
		c.deletes = map[string]struct{}{}
		nd.Reach("dropped")
	} else {
		nd.Reach("kept")
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "emitted at once")
	sameBatch(out[0], c, "tracked part")
}

// C04_nested: several counted prefixes made by one pattern, some tracked.
// Bounds: prefixes "c/1/", "c/2/" and "c/1/d/" counted from two patterns, three
// tracked sets, every order of the 4 messages, untracked ones left out or
// delivered.
func C04_nested() {
	pats := [][]string{{"^c/1/$"}, {"^c/2/"}, {"^c/1/d/"}}[nd.Choose("tracked", 3)]
	p := newProducer(map[string]string{"c/[0-9]+/": "tc", "e/[a-z]/d/": "te"})
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 5, big.NewInt(9), hashOf(1), hashOf(2)
	c.updates["c/1/a"] = nd.Bytes("v", 1)
	c.updates["c/2/a"] = nd.Bytes("v", 1)
	c.updates["e/x/d/c/1/"] = nd.Bytes("v", 1)
	msgs := produce(p, c)
	want := newContent()
	want.number, want.weight, want.hash, want.parent = c.number, c.weight, c.hash, c.parent
	for k, e := range map[string]string{"c/1/a": "c/1/", "c/2/a": "c/2/", "e/x/d/c/1/": "e/x/d/"} {
		if anyMatch(pats, e) {
			want.updates[k] = c.updates[k]
		}
	}
	co := newConsumer(config(pats...))
	all := nd.Choose("all", 2) == 1
	left := 0
	for _, m := range msgs {
		if want.needed(m) {
			left++
		}
	}
	for _, i := range permutation("order", len(msgs)) {
		if !all && !want.needed(msgs[i]) {
			continue
		}
		if left > 0 {
			nd.Assert(len(co.ch) == 0, "incomplete block emitted")
		}
		nd.Assert(co.deliver(msgs[i]) == nil, "no error")
		if want.needed(msgs[i]) {
			left--
		}
		if left == 0 {
			nd.Assert(len(co.ch) == 1, "emitted as soon as the tracked data arrived")
		}
	}
	out := co.emitted()
	nd.Assert(len(out) == 1, "emitted once")
	sameBatch(out[0], want, "tracked part")
	nd.Reach("emitted")
}
