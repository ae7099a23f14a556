package hd

import (
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"

	"verif/harness/nd"
)

// C10_tree: any tree of blocks, delivered in any order.
// Bounds: 4 blocks (thorough: 5), each on the resumption point, on a block that
// never arrives or on any other block; labels are arrival order, so all orders
// are covered; arbitrary weights above the parent's (ties between branches
// included); the resumption point itself redelivered first, or not.
// Weight: 4
func C10_tree() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	nd.Config("maporder", 3)
	ns := forest(n, true)
	nd.Assume(depth(ns, 10+int64(nd.Choose("unknown", 2))))
	weigh(ns)
	o := newOrdered(8, nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	for _, b := range ns {
		o.deliver(b)
	}
	o.sawReorg()
}

// grow makes a chain of n blocks on the root.
func grow(n int) []*node {
	var ns []*node
	p, h := onRoot, rootHash()
	for i := 0; i < n; i++ {
		ns = append(ns, &node{parent: p, num: 11 + int64(i), hash: hashOf(byte(100 + i)), phash: h, weight: bigOf(rootWeight + 1 + int64(i))})
		p, h = i, ns[i].hash
	}
	return ns
}

// C10_window: any tree of blocks with a window so small that blocks fall out of
// it all the time.
// Bounds: threshold 1 or 2; 4 blocks (thorough: 5) as in C10_tree but with
// weights equal to the number, or to the number plus 3 for one of them and its
// descendants; each block possibly redelivered at the end.
// Weight: 4
func C10_window() {
	nd.Config("maporder", 3)
	n := 4
	if nd.Thorough() {
		n = 5
	}
	ns := forest(n, true)
	nd.Assume(depth(ns, 10+int64(nd.Choose("unknown", 2))))
	heavy := nd.Choose("heavy", n+1)
	for i, b := range ns {
		w := rootWeight + b.num - 10
		for j := i; j >= 0; j = ns[j].parent {
			if j == heavy {
				w += 3
			}
		}
		b.weight = bigOf(w)
	}
	o := newOrdered(1+int64(nd.Choose("threshold", 2)), nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	for _, b := range ns {
		o.deliver(b)
	}
	o.deliver(ns[nd.Choose("again", n)])
	o.sawReorg()
}

// C10_flat: blocks that weigh no more than their parents, as those of chains
// whose blocks all have the same weight.
// Bounds: 4 blocks (thorough: 5), trees and orders as in C10_tree without (thorough:
// with) missing blocks, each weighing as much as its parent or arbitrarily more;
// a resumption point that weighs nothing or something.
// Weight: 4
func C10_flat() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	nd.Config("maporder", 3)
	ns := forest(n, nd.Thorough())
	nd.Assume(depth(ns, 10))
	r := rootNode()
	r.weight = bigOf(int64(nd.Choose("root weight", 2)))
	done := map[int]bool{}
	for len(done) < n {
		for i, b := range ns {
			if done[i] || b.parent >= 0 && !done[b.parent] {
				continue
			}
			done[i] = true
			b.weight = new(big.Int).SetUint64(uint64(nd.Byte("weight")))
			switch {
			case b.parent >= 0:
				nd.Assume(b.weight.Cmp(ns[b.parent].weight) >= 0)
			case b.parent == onRoot:
				nd.Assume(b.weight.Cmp(r.weight) >= 0)
				nd.Reach("on the root")
			}
		}
	}
	cfg := config()
	cfg.ReorgThreshold = 8
	o := newOrderedAt(r, cfg)
	o.flat = true
	for _, b := range ns {
		o.deliver(b)
	}
	o.sawReorg()
}

// C10_fresh: a consumer that does not know any block when it starts.
// Bounds: a first block, which is delivered as it comes; then 4 blocks (thorough: 5)
// on it or on each other with arbitrary weights, parents before their children;
// thresholds 2 and 8; a consumer told a weight or none.
// Weight: 2
func C10_fresh() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	nd.Config("maporder", 3)
	ns := make([]*node, n)
	for i := range ns {
		ns[i] = &node{parent: nd.Choose("parent", i+1) - 1, hash: hashOf(byte(i + 1))}
	}
	nd.Assume(depth(ns, 10))
	weigh(ns)
	r := rootNode()
	cfg := config()
	cfg.ReorgThreshold = []int64{2, 8}[nd.Choose("threshold", 2)]
	if nd.Choose("weight known", 2) == 1 {
		cfg.LastWeight = bigOf(0)
	} else {
		cfg.LastWeight = nil
	}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	nd.Assert(err == nil, "consumer is created")
	o := &ordered{omp: omp, follower: follower{ch: make(chan *delivery.ChainUpdate, 64)}}
	omp.Subscribe(o.ch)
	o.omp.ProcessCompleteBatch(r.batch())
	nd.Settle()
	u := <-o.ch
	nd.Assert(len(u.Added()) == 1 && len(u.Removed()) == 0 && u.Added()[0].Hash == r.hash, "the first block is delivered")
	o.chain = u.Added()
	for i, b := range ns {
		o.deliver(b)
		o.heaviest(ns, func(j int) bool { return j <= i })
	}
	o.sawReorg()
}
