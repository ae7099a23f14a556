package hd

import (
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// node is a block of a tree. Parents: index of a node, or one of these.
const (
	onRoot    = -1
	onUnknown = -2
)

type node struct {
	parent int
	num    int64
	hash   types.Hash
	phash  types.Hash
	weight *big.Int
}

const rootWeight = 100

func rootHash() types.Hash { return hashOf(200) }

func (n *node) batch() *delivery.PendingBatch {
	return &delivery.PendingBatch{Number: n.num, Weight: n.weight, Hash: n.hash, ParentHash: n.phash, Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
}

func rootNode() *node {
	return &node{parent: onUnknown, num: 10, hash: rootHash(), phash: hashOf(201), weight: bigOf(rootWeight)}
}

// weigh gives the nodes arbitrary weights above their parents'.
func weigh(ns []*node) {
	done := map[int]bool{}
	for len(done) < len(ns) {
		for i, n := range ns {
			if done[i] || n.parent >= 0 && !done[n.parent] {
				continue
			}
			done[i] = true
			b := nd.Byte("weight")
			n.weight = new(big.Int).SetUint64(uint64(b))
			switch {
			case n.parent >= 0:
				nd.Assume(n.weight.Cmp(ns[n.parent].weight) > 0)
			case n.parent == onRoot:
				nd.Assume(b > rootWeight)
			default:
				nd.Assume(b > 0)
			}
		}
	}
}

// forest chooses any tree of n blocks: each block sits on the root, on a block
// that never arrives (if unknown is set), or on any other block.
func forest(n int, unknown bool) []*node {
	ns := make([]*node, n)
	for i := range ns {
		p := onRoot
		if c := nd.Choose("parent", n+1); c == n && !unknown {
			nd.Assume(false)
		} else if c == n {
			p = onUnknown
		} else if c != i {
			p = c
		}
		ns[i] = &node{parent: p, hash: hashOf(byte(i + 1))}
	}
	return ns
}

// depth fills in numbers and parent hashes; it reports false for cycles.
func depth(ns []*node, base int64) bool {
	for _, n := range ns {
		d := int64(1)
		m := n
		for m.parent >= 0 {
			m = ns[m.parent]
			d++
			if d > int64(len(ns)) {
				return false
			}
		}
		n.num = 10 + d
		if m.parent == onUnknown {
			n.num = base + d
		}
		switch n.parent {
		case onRoot:
			n.phash = rootHash()
		case onUnknown:
			n.phash = hashOf(210)
		default:
			n.phash = ns[n.parent].hash
		}
	}
	return true
}

// follower applies chain updates to a chain as a consumer's user would.
type follower struct {
	ch     chan *delivery.ChainUpdate
	chain  []*delivery.PendingBatch // oldest first, starting with the root
	reorgs int
	flat   bool // blocks may weigh no more than their parents
}

type ordered struct {
	omp *delivery.OrderedMessageProcessor
	follower
}

func newOrdered(threshold int64, whitelist map[uint64]types.Hash) *ordered {
	cfg := config()
	cfg.ReorgThreshold = threshold
	cfg.Whitelist = whitelist
	return newOrderedAt(rootNode(), cfg)
}

// newOrderedAt starts a consumer that knows block r.
func newOrderedAt(r *node, cfg *delivery.ConsumerConfig) *ordered {
	cfg.LastHash, cfg.LastWeight, cfg.LastEmittedNum = r.hash, r.weight, r.num
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	nd.Assert(err == nil, "consumer is created")
	o := &ordered{omp: omp, follower: follower{ch: make(chan *delivery.ChainUpdate, 64), chain: []*delivery.PendingBatch{r.batch()}}}
	omp.Subscribe(o.ch)
	return o
}

// deliver hands a completed block to the consumer and applies what comes out.
func (o *ordered) deliver(n *node) {
	o.omp.ProcessCompleteBatch(n.batch())
	nd.Settle()
	o.drain()
}

func (o *ordered) drain() {
	for {
		select {
		case u := <-o.ch:
			o.apply(u)
		default:
			return
		}
	}
}

func (f *follower) head() *delivery.PendingBatch { return f.chain[len(f.chain)-1] }

func (f *follower) apply(u *delivery.ChainUpdate) {
	old := f.head()
	rm := u.Removed()
	nd.Assert(len(rm) < len(f.chain), "removed blocks are on the chain")
	keep := len(f.chain) - len(rm)
	for i, b := range rm {
		nd.Assert(b.Hash == f.chain[keep+i].Hash, "removed blocks are the top of the chain, oldest first")
	}
	f.chain = f.chain[:keep:keep]
	nd.Assert(len(u.Added()) > 0, "an update adds blocks")
	for _, b := range u.Added() {
		nd.Assert(b.ParentHash == f.head().Hash, "each added block sits on the block before it")
		for _, c := range f.chain {
			nd.Assert(c.Hash != b.Hash, "no block is twice on the chain")
		}
		f.chain = append(f.chain, b)
	}
	nd.Assert(f.flat && len(rm) == 0 || f.head().Weight.Cmp(old.Weight) > 0, "the new head is heavier than the old one")
	if len(rm) > 0 {
		f.reorgs++
	}
}

// heaviest checks that the head is a heaviest block among ns[i] for which
// arrived holds and that hang together with the root through arrived blocks.
func (f *follower) heaviest(ns []*node, arrived func(i int) bool) {
	for i, n := range ns {
		m, j := n, i
		ok := arrived(j)
		for m.parent >= 0 {
			j = m.parent
			m = ns[j]
			ok = ok && arrived(j)
		}
		if !ok || m.parent != onRoot {
			continue
		}
		nd.Assert(f.head().Weight.Cmp(n.weight) >= 0, "the head is a heaviest block")
		nd.Reach("compared")
	}
}

func (f *follower) sawReorg() {
	if f.reorgs > 0 {
		nd.Reach("reorg")
	} else {
		nd.Reach("no reorg")
	}
}
