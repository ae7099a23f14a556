package hd

import (
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// C13_tree: no block that conflicts with the whitelist and nothing on top of one
// is emitted.
// Bounds: trees of 4 blocks (thorough: 5) in any order in which parents come
// first, arbitrary weights above the parents'; one or two pinned numbers among
// the first three heights, pinned to any of the blocks or to one that never
// arrives. The result is compared with a consumer without whitelist that is
// given the permitted blocks only.
// Weight: 2
func C13_tree() {
	n := 4
	if nd.Thorough() {
		n = 5
	}
	var ns []*node
	for i := 0; i < n; i++ {
		ns = append(ns, &node{parent: nd.Choose("parent", i+1) - 1, hash: hashOf(byte(i + 1))})
	}
	depth(ns, 10)
	weigh(ns)
	wl := map[uint64]types.Hash{}
	for k := 1 + nd.Choose("pins", 2); k > 0; k-- {
		num := uint64(11 + nd.Choose("pinned", 3))
		h := hashOf(250)
		if c := nd.Choose("to", n+1); c < n {
			nd.Assume(uint64(ns[c].num) == num)
			h = ns[c].hash
		}
		wl[num] = h
	}
	a, b := newOrdered(8, wl), newOrdered(8, nil)
	bad := map[types.Hash]bool{}
	for _, x := range ns {
		if h, ok := wl[uint64(x.num)]; ok && h != x.hash || bad[x.phash] {
			bad[x.hash] = true
		}
		a.deliver(x)
		if !bad[x.hash] {
			b.deliver(x)
		} else {
			nd.Reach("excluded")
		}
		for _, y := range a.chain {
			nd.Assert(!bad[y.Hash], "no excluded block is emitted")
		}
		nd.Assert(len(a.chain) == len(b.chain), "permitted blocks are emitted as without whitelist")
		for i := range a.chain {
			nd.Assert(a.chain[i].Hash == b.chain[i].Hash, "permitted blocks are emitted as without whitelist")
		}
	}
}

// C13_orders: the pinned block and its competitors in any order.
// Bounds: trees of 4 blocks on the root or on each other in any order, parents
// possibly later; one pinned number. Blocks with a pinned number but another
// hash are never emitted; excluded are also those on top of them that arrive
// later than they do.
// Weight: 2
func C13_orders() {
	n := 4
	ns := forest(n, false)
	nd.Assume(depth(ns, 10))
	for _, b := range ns {
		b.weight = bigOf(rootWeight + b.num - 10)
	}
	num := uint64(11 + nd.Choose("pinned", 3))
	h := hashOf(250)
	if c := nd.Choose("to", n+1); c < n {
		nd.Assume(uint64(ns[c].num) == num)
		h = ns[c].hash
	}
	a := newOrdered(8, map[uint64]types.Hash{num: h})
	bad := map[types.Hash]bool{}
	for _, x := range ns {
		if uint64(x.num) == num && h != x.hash || bad[x.phash] {
			bad[x.hash] = true
			nd.Reach("excluded")
		}
		a.deliver(x)
		for _, y := range a.chain {
			nd.Assert(!bad[y.Hash], "no excluded block is emitted")
			nd.Assert(uint64(y.Number) != num || y.Hash == h, "no other block with a pinned number is emitted")
		}
	}
	a.heaviest(ns, func(i int) bool { return !bad[ns[i].hash] })
}
