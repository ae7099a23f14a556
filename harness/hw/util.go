// Package hw holds the harnesses for the waiter package.
package hw

import (
	"math/big"
	"regexp"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// rm is a message as a transport hands it to the consumer.
type rm struct {
	key   []byte
	value []byte
	off   int64
}

func (m *rm) Key() []byte     { return m.key }
func (m *rm) Value() []byte   { return m.value }
func (m *rm) Offset() int64   { return m.off }
func (m *rm) Source() string  { return "t:0" }
func (m *rm) Time() time.Time { return time.Time{} }

func hashOf(b byte) (h types.Hash) {
	h[0] = b
	h[31] = b
	return h
}

func symHash(label string) (h types.Hash) {
	copy(h[:], nd.Bytes(label, 32))
	return h
}

// block is a block and what happened to it.
type block struct {
	num    int64
	hash   types.Hash
	parent types.Hash
	weight int64
	pbs    []*delivery.PendingBatch
	acked  []time.Time
	done   map[*delivery.PendingBatch]bool
	born   map[*delivery.PendingBatch]time.Time
	seen   bool
}

func (b *block) batch() *delivery.PendingBatch {
	pb := &delivery.PendingBatch{Number: b.num, Weight: big.NewInt(b.weight), Hash: b.hash, ParentHash: b.parent, Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
	b.pbs = append(b.pbs, pb)
	if b.born == nil {
		b.born = map[*delivery.PendingBatch]time.Time{}
	}
	b.born[pb] = time.Now()
	return pb
}

// app is an application with a waiter.
type app struct {
	omp     *delivery.OrderedMessageProcessor
	w       waiter.Waiter
	ch      chan *delivery.ChainUpdate
	updates []*delivery.ChainUpdate
	blocks  []*block
	first   map[int64]time.Time // when each number was first acknowledged
}

func rootHash() types.Hash { return hashOf(200) }

func newApp() *app {
	cfg := &delivery.ConsumerConfig{ReorgThreshold: 8, LastWeight: big.NewInt(100), LastEmittedNum: 10, LastHash: rootHash(), TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	nd.Assert(err == nil, "consumer is created")
	a := &app{omp: omp, w: waiter.NewOmpWaiter(omp), ch: make(chan *delivery.ChainUpdate, 64)}
	omp.Subscribe(a.ch)
	return a
}

func (a *app) add(num int64, h, parent types.Hash, weight int64) *block {
	b := &block{num: num, hash: h, parent: parent, weight: weight}
	a.blocks = append(a.blocks, b)
	return b
}

// drain takes the pending chain updates.
func (a *app) drain() {
	for {
		select {
		case u := <-a.ch:
			a.updates = append(a.updates, u)
		default:
			return
		}
	}
}

// see hands the block to the consumer.
func (a *app) see(b *block) {
	b.seen = true
	a.omp.ProcessCompleteBatch(b.batch())
	nd.Settle()
	a.drain()
}

func (a *app) ackUpdate(u *delivery.ChainUpdate) {
	u.Done()
	for _, pb := range append(append([]*delivery.PendingBatch{}, u.Added()...), u.Removed()...) {
		for _, b := range a.blocks {
			if b.hash == pb.Hash {
				a.ack(b, pb)
			}
		}
	}
	nd.Settle()
}

func (a *app) ackBatch(b *block, i int) {
	b.pbs[i].Done()
	a.ack(b, b.pbs[i])
	nd.Settle()
}

// ack notes an acknowledgement. Only the first one of what was handed over
// counts, repetitions are not news; nor is what was handed over known any more
// a minute after its number was acknowledged otherwise.
func (a *app) ack(b *block, pb *delivery.PendingBatch) {
	if b.done == nil {
		b.done = map[*delivery.PendingBatch]bool{}
	}
	now := time.Now()
	since := now
	if t, ok := a.first[b.num]; ok {
		since = t
	} else {
		if a.first == nil {
			a.first = map[int64]time.Time{}
		}
		a.first[b.num] = now
	}
	if t := b.born[pb]; t.After(since) {
		since = t
	}
	if !b.done[pb] && now.Sub(since) < minute {
		b.acked = append(b.acked, now)
	}
	b.done[pb] = true
}

const minute = 60 * time.Second

func recent(ts []time.Time) bool {
	for _, t := range ts {
		if time.Since(t) < minute {
			return true
		}
	}
	return false
}

// checkHash waits for the block and compares the result.
func (a *app) checkHash(b *block, d time.Duration) {
	start := time.Now()
	forgotten := false // its number was acknowledged through another block
	for _, c := range a.blocks {
		if c != b && c.num == b.num && len(c.done) > 0 {
			forgotten = true
		}
	}
	r := a.w.WaitForHashResult(b.hash, d)
	took := time.Since(start)
	switch {
	case !b.seen:
		nd.Assert(r == waiter.NotFound && took == 0, "a block never seen is not found, at once")
	case recent(b.acked):
		nd.Assert(r == waiter.Success, "a block acknowledged within the last minute is a success")
		nd.Assert(took == 0, "an acknowledged block is a success at once")
	case len(b.done) == 0:
		nd.Assert(r != waiter.Success, "no success without acknowledgement")
		nd.Assert(r == waiter.Timeout || forgotten, "a known block is not not-found")
		nd.Assert(r != waiter.Timeout || took == d, "timeout after exactly the given duration")
	}
}

// checkNumber waits for the number and compares the result.
func (a *app) checkNumber(n int64, d time.Duration) {
	start := time.Now()
	seen, rec, acked := false, false, false
	for _, b := range a.blocks {
		if b.num == n {
			seen = seen || b.seen
			acked = acked || len(b.done) > 0
			rec = rec || recent(b.acked)
		}
	}
	r := a.w.WaitForNumberResult(n, d)
	took := time.Since(start)
	switch {
	case !seen:
		nd.Assert(r == waiter.NotFound && took == 0, "a number never seen is not found, at once")
	case rec:
		nd.Assert(r == waiter.Success, "a number acknowledged within the last minute is a success")
		nd.Assert(took == 0, "an acknowledged number is a success at once")
	case !acked:
		nd.Assert(r == waiter.Timeout && took == d, "a number not acknowledged times out after exactly the given duration")
	}
}

func weightOf(n int64) *big.Int { return big.NewInt(n) }
