package hd

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

const (
	notFound = "not found"
	waiting  = "pending parent"
	done     = "done, not evicted"
)

// outstanding lists what can truthfully be said about a block of which these
// messages have been delivered; nothing if it is complete.
func outstanding(c *content, msgs []*rm, got []bool) []string {
	var out []string
	for i, m := range msgs {
		if got[i] {
			continue
		}
		switch delivery.MessageType(m.key[0]) {
		case delivery.BatchType:
			return []string{notFound}
		case delivery.SubBatchHeaderType:
			out = append(out, "Pending batches")
		case delivery.SubBatchMsgType:
			header := false
			for j, h := range msgs {
				header = header || got[j] && delivery.MessageType(h.key[0]) == delivery.SubBatchHeaderType && string(h.key[33:65]) == string(m.key[33:65])
			}
			if header {
				n, ok := decodeInt(m.key[65:])
				nd.Assert(ok, "item index")
				out = append(out, fmt.Sprintf("Pending batch '%#x'[%v]", m.key[33:65], n))
			}
		default:
			p := string(m.key[33:])
			out = append(out, fmt.Sprintf("Pending prefix '%v'", p[:strings.Index(p, "/")+1]))
		}
	}
	return out
}

func oneOf(s string, list []string) bool {
	for _, x := range list {
		if s == x {
			return true
		}
	}
	return false
}

func reasonsContent() *content {
	c := newContent()
	c.number, c.weight, c.hash, c.parent = 11, big.NewInt(rootWeight+1), hashOf(1), rootHash()
	c.updates["p/a"], c.updates["p/b"] = nd.Bytes("v", 1), nil
	c.deletes["p/c"] = struct{}{}
	c.batches["s/"] = hashOf(7)
	c.subs[hashOf(7)] = sub{updates: map[string][]byte{"s/x": nd.Bytes("v", 1)}, deletes: []string{"s/y"}}
	return c
}

func (o *ordered) message(m *rm, off int64) {
	x := *m
	x.src, x.off = "s", off
	nd.Assert(o.omp.ProcessMessage(&x) == nil, "no error")
	nd.Settle()
	o.drain()
}

// C25_reasons: what is said about a block while its messages arrive.
// Bounds: a block with two updates and a delete under one prefix and a sub-batch
// of two items, its seven messages in every order; the block's parent is known or
// not.
// Weight: 2
func C25_reasons() {
	c := reasonsContent()
	orphan := nd.Choose("orphan", 2) == 1
	if orphan {
		c.parent = hashOf(150)
	}
	msgs := produce(newProducer(map[string]string{"p/": "tp", "s/": "ts"}), c)
	o := newOrdered(4, nil)
	got := make([]bool, len(msgs))
	why := func() string {
		w := o.omp.WhyNotReady(c.hash)
		nd.Assert(w == o.omp.WhyNotReady(c.hash), "the same when asked again")
		return w
	}
	nd.Assert(why() == notFound, "nothing of the block has arrived")
	for k, i := range permutation("order", len(msgs)) {
		o.message(msgs[i], int64(k))
		got[i] = true
		if out := outstanding(c, msgs, got); len(out) > 0 {
			nd.Assert(oneOf(why(), out), "names something that is missing")
			if out[0] != notFound {
				nd.Reach("missing")
			}
		} else if orphan {
			nd.Assert(why() == waiting, "waits for its parent")
			nd.Reach("orphan")
		} else {
			nd.Assert(why() == done, "delivered")
			nd.Reach("delivered")
		}
		nd.Assert(o.omp.WhyNotReady(hashOf(99)) == notFound, "another block")
	}
	nd.Assert(orphan || len(o.chain) == 2, "the block is delivered")
}

// C25_tree: what is said about the complete blocks of a tree.
// Bounds: every tree of three blocks (thorough: four) on the starting point, on a
// block that never arrives or on each other, every order, arbitrary weights above
// the parents'.
func C25_tree() {
	n := 3
	if nd.Thorough() {
		n = 4
	}
	ns := forest(n, true)
	nd.Assume(depth(ns, 10))
	weigh(ns)
	o := newOrdered(6, nil)
	arrived := make([]bool, n)
	for _, i := range permutation("order", n) {
		o.deliver(ns[i])
		arrived[i] = true
		head := o.head()
		for j, x := range ns {
			w := o.omp.WhyNotReady(x.hash)
			if !arrived[j] {
				nd.Assert(w == notFound, "has not arrived")
				continue
			}
			onChain := false
			for _, b := range o.chain {
				onChain = onChain || b.Hash == x.hash
			}
			connected := true
			m, lowest := x, x
			for m.parent >= 0 {
				connected = connected && arrived[m.parent]
				m = ns[m.parent]
				if connected {
					lowest = m
				}
			}
			connected = connected && m.parent == onRoot
			switch {
			case onChain:
				nd.Assert(w == done, "delivered")
				nd.Reach("delivered")
			case connected:
				nd.Assert(w == done, "decided")
				nd.Reach("decided")
			case lowest.weight.Cmp(head.Weight) > 0:
				nd.Assert(w == waiting, "waits for its parent")
				nd.Reach("waiting")
			default:
				nd.Assert(w == waiting || w == done, "not missing")
			}
		}
	}
}

// C25_concurrent: asking while messages are processed.
// Bounds: two blocks, one of them with seven messages, by one goroutine, two
// questions at any point by another, by a subscriber that is to take
// a chain update, or by one that is to take a complete block; schedules with two
// (thorough: three) deviations.
// Weight: 2
func C25_concurrent() {
	nd.Config("sched", 2)
	nd.Config("preempt", 2)
	if nd.Thorough() {
		nd.Config("preempt", 3)
	}
	c := reasonsContent()
	p := newProducer(map[string]string{"p/": "tp", "s/": "ts"})
	msgs := produce(p, c)
	next := newContent()
	next.number, next.weight, next.hash, next.parent = 12, big.NewInt(rootWeight+2), hashOf(2), hashOf(1)
	msgs = append(msgs, produce(newProducer(map[string]string{}), next)...)
	o := newOrdered(4, nil)
	answers := 0
	ask := func(h types.Hash) {
		w := o.omp.WhyNotReady(h)
		nd.Assert(w != "", "an answer")
		answers++
	}
	finished := make(chan struct{})
	want := 2
	switch nd.Choose("who", 3) {
	case 0:
		go func() {
			ask(c.hash)
			ask(next.hash)
			close(finished)
		}()
	case 1:
		ch := make(chan *delivery.ChainUpdate)
		o.omp.Subscribe(ch)
		want = 4
		go func() {
			for n := 0; n < 2; {
				ask(c.hash)
				u := <-ch
				n += len(u.Added())
				ask(c.hash)
			}
			want = answers
			close(finished)
		}()
	case 2:
		ch := make(chan *delivery.PendingBatch)
		o.omp.Subscribe(ch)
		want = 4
		go func() {
			for n := 0; n < 2; n++ {
				ask(c.hash)
				pb := <-ch
				ask(pb.Hash)
			}
			close(finished)
		}()
	}
	for i, m := range msgs {
		x := *m
		x.src, x.off = "s", int64(i)
		nd.Assert(o.omp.ProcessMessage(&x) == nil, "no error")
	}
	nd.Settle()
	select {
	case <-finished:
	default:
		nd.Assert(false, "every question is answered")
	}
	nd.Assert(answers == want, "every question is answered")
	o.drain()
	nd.Assert(len(o.chain) == 3, "both blocks are delivered")
	nd.Config("sched", 0)
	nd.Assert(o.omp.WhyNotReady(c.hash) == done, "delivered")
	nd.Assert(o.omp.WhyNotReady(next.hash) == done, "delivered")
	nd.Reach("answered")
}
