package hd

import "verif/harness/nd"

// C11_tree: any tree of blocks, delivered in any order.
// Bounds: as C10_tree; the head is compared after every block.
// Weight: 4
func C11_tree() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	nd.Config("maporder", 3)
	ns := forest(n, true)
	nd.Assume(depth(ns, 10+int64(nd.Choose("unknown", 2))))
	weigh(ns)
	o := newOrdered(8, nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	for i, b := range ns {
		o.deliver(b)
		o.heaviest(ns, func(j int) bool { return j <= i })
	}
	o.sawReorg()
}

// C11_ties: blocks as heavy as their number, so that branches of equal length
// tie all the time.
// Bounds: 5 blocks (thorough: 6), trees and orders as in C10_tree, weights equal
// to the number; candidates of equal weight picked in every order.
// Weight: 3
func C11_ties() {
	nd.Config("maporder", 3)
	n := 5
	if nd.Thorough() {
		n = 6
	}
	ns := forest(n, true)
	nd.Assume(depth(ns, 10))
	for _, b := range ns {
		b.weight = bigOf(rootWeight + b.num - 10)
	}
	o := newOrdered(8, nil)
	if nd.Choose("root redelivered", 2) == 1 {
		o.deliver(rootNode())
	}
	for i, b := range ns {
		o.deliver(b)
		o.heaviest(ns, func(j int) bool { return j <= i })
	}
	o.sawReorg()
}

// C11_late: trees whose first block arrives after most of the others.
// Bounds: 5 blocks: one on the root, which arrives fourth (thorough: third,
// fourth or last), and any tree of the others on it; arbitrary weights above the parent's.
// Weight: 4
func C11_late() {
	const n = 5
	nd.Config("maporder", 3)
	at := n - 2
	if nd.Thorough() {
		at = 2 + nd.Choose("first", n-2)
	}
	ns := make([]*node, n)
	for i := range ns {
		p := onRoot
		if i != at {
			if p = nd.Choose("parent", n-1); p >= i {
				p++
			}
		}
		ns[i] = &node{parent: p, hash: hashOf(byte(i + 1))}
	}
	nd.Assume(depth(ns, 10))
	weigh(ns)
	o := newOrdered(8, nil)
	for i, b := range ns {
		o.deliver(b)
		o.heaviest(ns, func(j int) bool { return j <= i })
	}
	o.sawReorg()
}
