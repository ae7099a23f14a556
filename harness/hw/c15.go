package hw

import (
	"math/big"
	"regexp"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"

	"verif/harness/nd"
)

// C15_history: what a wait says after any history.
// Bounds: two competing blocks of one number and a child of the first; 5 steps
// (thorough: 6), each handing over a block (again), acknowledging an instance of
// a block or a chain update (again), or letting 1, 30 or 59 seconds pass; then
// waits for every block and number.
// Weight: 8
func C15_history() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(11, hashOf(2), rootHash(), 101+int64(nd.Choose("y heavier", 2)))
	a.add(12, hashOf(3), x.hash, 103)
	n := 5
	if nd.Thorough() {
		n = 6
	}
	for ; n > 0; n-- {
		switch k := nd.Choose("step", 4); k {
		case 0:
			a.see(a.blocks[nd.Choose("see", 3)])
			nd.Reach("seen")
		case 1:
			b := a.blocks[nd.Choose("ack", 3)]
			nd.Assume(len(b.pbs) > 0)
			a.ackBatch(b, nd.Choose("instance", len(b.pbs)))
			nd.Reach("batch acknowledged")
		case 2:
			nd.Assume(len(a.updates) > 0)
			a.ackUpdate(a.updates[nd.Choose("update", len(a.updates))])
			nd.Reach("update acknowledged")
		case 3:
			nd.Advance([]time.Duration{time.Second, 30 * time.Second, 59 * time.Second}[nd.Choose("pass", 3)])
		}
	}
	_ = y
	for _, b := range a.blocks {
		a.checkHash(b, 10*time.Millisecond)
	}
	a.checkNumber(11, 10*time.Millisecond)
	a.checkNumber(12, 10*time.Millisecond)
	a.checkNumber(13, 10*time.Millisecond)
}

// C15_again: a block acknowledged as often as it was handed over, over minutes.
// Bounds: a block handed over twice and a competing one; three times one of:
// an instance of the block or the competing one is acknowledged, the block is
// handed over once more, or nothing, followed by 2, 31 or 59 seconds; then waits.
// Weight: 2
func C15_again() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(11, hashOf(2), rootHash(), 101)
	a.see(x)
	a.see(y)
	a.see(x)
	for i := 0; i < 3; i++ {
		switch nd.Choose("event", 5) {
		case 0:
			a.ackBatch(x, 0)
		case 1:
			a.ackBatch(x, len(x.pbs)-1)
		case 2:
			a.ackBatch(y, 0)
		case 3:
			a.see(x)
		}
		nd.Advance([]time.Duration{2 * time.Second, 31 * time.Second, 59 * time.Second}[nd.Choose("pass", 3)])
	}
	a.checkHash(x, 10*time.Millisecond)
	a.checkNumber(11, 10*time.Millisecond)
	a.checkHash(y, 10*time.Millisecond)
	nd.Reach("waited")
}

// C15_any: two blocks with any hashes, any numbers.
// Bounds: arbitrary distinct 32-byte hashes, arbitrary numbers; one or both are
// seen, at most one is acknowledged.
func C15_any() {
	a := newApp()
	h1, h2 := symHash("first"), symHash("second")
	nd.Assume(h1 != h2)
	x := a.add(nd.Int64("number"), h1, hashOf(201), 101)
	y := a.add(nd.Int64("number"), h2, hashOf(201), 101)
	if nd.Choose("x", 2) == 1 {
		a.see(x)
	}
	if nd.Choose("y", 2) == 1 {
		a.see(y)
		if nd.Choose("ack", 2) == 1 {
			a.ackBatch(y, 0)
		}
	}
	a.checkHash(x, time.Second)
	a.checkHash(y, time.Second)
	a.checkNumber(x.num, time.Second)
	a.checkNumber(y.num, time.Second)
}

// C15_during: acknowledgements during a wait.
// Bounds: a wait of 5 s for a block or its number, during which, at 0, 2 and 4
// seconds, one of: the block is acknowledged through its batch or its update, a
// competing block of the same number or a child is, the block is handed over
// again (by another broker), or nothing. It ends exactly when it should.
// Weight: 2
func C15_during() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(11, hashOf(2), rootHash(), 101)
	z := a.add(12, hashOf(3), x.hash, 103)
	held := nd.Choose("held back", 2) == 1 // the block is seen before its parent
	if held {
		x.parent = hashOf(202)
	}
	a.see(x)
	a.see(y)
	a.see(z)
	byNum := nd.Choose("by number", 2) == 1
	var r waiter.WaitResult
	var took time.Duration
	done := make(chan struct{})
	start := time.Now()
	go func() {
		if byNum {
			r = a.w.WaitForNumberResult(11, 5*time.Second)
		} else {
			r = a.w.WaitForHashResult(x.hash, 5*time.Second)
		}
		took = time.Since(start)
		close(done)
	}()
	want, at := waiter.Timeout, 5*time.Second
	for i := 0; i < 3; i++ {
		nd.Settle()
		hit := false
		switch nd.Choose("event", 6) {
		case 0:
			a.ackBatch(x, nd.Choose("instance", len(x.pbs)))
			hit = true
		case 1:
			nd.Assume(len(a.updates) > 0)
			u := a.updates[nd.Choose("update", len(a.updates))]
			a.ackUpdate(u)
			for _, pb := range u.Added() {
				hit = hit || pb.Hash == x.hash || byNum && pb.Number == 11
			}
		case 2:
			a.ackBatch(y, 0)
			hit = byNum
		case 3:
			a.ackBatch(z, 0)
		case 4:
			a.see(x)
		case 5:
		}
		if hit && want == waiter.Timeout {
			want, at = waiter.Success, time.Since(start)
			nd.Reach("success")
		}
		nd.Advance(2 * time.Second)
	}
	<-done
	nd.Assert(r == want, "a wait succeeds if and only if the block is acknowledged")
	nd.Assert(took == at, "a wait ends when the block is acknowledged or its time is up")
	if want == waiter.Timeout {
		nd.Reach("timeout")
	}
}

// C15_messages: a block is known from its block message on.
// Bounds: a block of three messages whose block message arrives first, second or
// last, repeated or not; waits before, in between and after; acknowledged or not.
func C15_messages() {
	a := newApp()
	p, err := delivery.NewProducer("def", map[string]string{"a/": "t"})
	nd.Assert(err == nil, "producer is created")
	h := symHash("hash")
	nd.Assume(h != rootHash())
	tm, err := p.AddBlock(11, h, rootHash(), weightOf(101), map[string][]byte{"a/x": {1}, "a/y": {2}}, nil, nil)
	nd.Assert(err == nil, "producer accepts a valid block")
	var bm *rm
	var rest []*rm
	for _, ms := range tm {
		for _, m := range ms {
			if m.Key()[0] == byte(delivery.BatchType) {
				bm = &rm{key: m.Key(), value: m.Value()}
			} else {
				rest = append(rest, &rm{key: m.Key(), value: m.Value()})
			}
		}
	}
	nd.Assert(bm != nil && len(rest) == 2, "three messages")
	var ms []*rm
	k := nd.Choose("block message", 3)
	for i := 0; i < 3; i++ {
		if i == k {
			ms = append(ms, bm)
			if nd.Choose("repeated", 2) == 1 {
				ms = append(ms, bm)
			}
		} else {
			ms = append(ms, rest[0])
			rest = rest[1:]
		}
	}
	b := a.add(11, h, rootHash(), 101)
	for i, m := range ms {
		a.checkHash(b, time.Second)
		a.checkNumber(11, time.Second)
		m.off = int64(i)
		nd.Assert(a.omp.ProcessMessage(m) == nil, "no error")
		nd.Settle()
		a.drain()
		b.seen = b.seen || m == bm
	}
	nd.Assert(len(a.updates) == 1, "the block is emitted")
	a.checkHash(b, time.Second)
	if nd.Choose("ack", 2) == 1 {
		a.ackUpdate(a.updates[0])
	}
	a.checkHash(b, time.Second)
	a.checkNumber(11, time.Second)
	nd.Reach("end")
}

// concurrent sets the exploration of schedules up: from here on at most n
// deviations from the default schedule.
func concurrent(preempt int) {
	nd.Config("sched", 2)
	nd.Config("mempoints", 1)
	nd.Config("preempt", preempt)
}

// C15_twice: concurrent acknowledgements of one block.
// Bounds: a block acknowledged by two goroutines, through its batch and its
// update; all schedules with at most 3 (thorough: 4) deviations from round robin, at
// memory accesses, locks, channel operations of the repository's code and where a
// goroutine blocks; then waits for it and for another block.
// Weight: 2
func C15_twice() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(12, hashOf(2), hashOf(202), 102)
	a.see(x)
	a.see(y)
	nd.Assert(len(a.updates) == 1, "one update")
	if nd.Thorough() {
		concurrent(4)
	} else {
		concurrent(3)
	}
	done := make(chan bool, 1)
	go func() {
		a.updates[0].Done()
		done <- true
	}()
	x.pbs[0].Done()
	<-done
	concurrent(0)
	nd.Assert(a.w.WaitForHashResult(x.hash, time.Second) == waiter.Success, "the wait for the acknowledged block succeeds")
	nd.Assert(a.w.WaitForNumberResult(11, time.Second) == waiter.Success, "the wait for its number succeeds")
	nd.Assert(a.w.WaitForHashResult(y.hash, time.Second) == waiter.Timeout, "the wait for another block does not")
	nd.Reach("end")
}

// C15_while: an acknowledgement during a wait.
// Bounds: a wait for a block, by hash or number, concurrent with its
// acknowledgement; schedules as in C15_twice.
// Weight: 2
func C15_while() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	a.see(x)
	byNum := nd.Choose("by number", 2) == 1
	if nd.Thorough() {
		concurrent(4)
	} else {
		concurrent(3)
	}
	go func() { x.pbs[0].Done() }()
	r := waiter.NotFound
	if byNum {
		r = a.w.WaitForNumberResult(11, time.Second)
	} else {
		r = a.w.WaitForHashResult(x.hash, time.Second)
	}
	nd.Assert(r == waiter.Success, "the wait for the acknowledged block succeeds")
	nd.Reach("end")
}

// C15_siblings: two blocks of one number acknowledged concurrently.
// Bounds: as C15_twice with 2 (thorough: 3) deviations, for two competing blocks.
// Weight: 2
func C15_siblings() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(11, hashOf(2), rootHash(), 101)
	a.see(x)
	a.see(y)
	if nd.Thorough() {
		concurrent(3)
	} else {
		concurrent(2)
	}
	done := make(chan bool, 1)
	go func() {
		x.pbs[0].Done()
		done <- true
	}()
	y.pbs[0].Done()
	<-done
	nd.Assert(a.w.WaitForNumberResult(11, time.Second) == waiter.Success, "the wait for the number succeeds")
	concurrent(0)
	nd.Assert(a.w.WaitForHashResult(x.hash, time.Second) == waiter.Success, "the wait for the first block succeeds")
	nd.Assert(a.w.WaitForHashResult(y.hash, time.Second) == waiter.Success, "the wait for the second block succeeds")
	nd.Reach("end")
}

// C15_reorg: acknowledging a chain update acknowledges what it adds and what it
// removes, also when several goroutines do.
// Bounds: a reorg of one block for two, acknowledged by two goroutines; schedules
// as in C15_twice with 2 (thorough: 3) deviations.
func C15_reorg() {
	a := newApp()
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(11, hashOf(2), rootHash(), 101)
	z := a.add(12, hashOf(3), y.hash, 102)
	a.see(x)
	a.see(y)
	a.see(z)
	nd.Assert(len(a.updates) == 2, "two updates")
	u := a.updates[1]
	nd.Assert(len(u.Added()) == 2 && len(u.Removed()) == 1, "a reorg")
	if nd.Thorough() {
		concurrent(3)
	} else {
		concurrent(2)
	}
	done := make(chan bool, 1)
	go func() {
		u.Done()
		done <- true
	}()
	u.Done()
	<-done
	concurrent(0)
	for _, b := range a.blocks {
		nd.Assert(a.w.WaitForHashResult(b.hash, time.Second) == waiter.Success, "a block of an acknowledged update is a success")
	}
	nd.Assert(len(u.Added()) == 2 && u.Added()[0].Hash == y.hash && u.Added()[1].Hash == z.hash && u.Removed()[0].Hash == x.hash, "acknowledging leaves the update alone")
	nd.Reach("end")
}

// C15_announced: blocks known from their block messages, on and off the chain,
// complete or not.
// Bounds: a chain of two blocks and a side block numbered from two below to one
// above the last known one, announced in any order; the data of each block
// comes before, after or never; what comes out is acknowledged at once, at the
// end or never.
// Weight: 2
func C15_announced() {
	a := newApp()
	p, err := delivery.NewProducer("def", map[string]string{"a/": "t"})
	nd.Assert(err == nil, "producer is created")
	x := a.add(11, hashOf(1), rootHash(), 101)
	a.add(12, hashOf(2), x.hash, 102)
	a.add(9+int64(nd.Choose("side", 4)), hashOf(3), hashOf(209), 99+int64(nd.Choose("side weight", 2)))
	off := int64(0)
	send := func(m delivery.Message) {
		nd.Assert(a.omp.ProcessMessage(&rm{key: m.Key(), value: m.Value(), off: off}) == nil, "no error")
		off++
		nd.Settle()
		a.drain()
	}
	when := nd.Choose("acknowledged", 3)
	acked := 0
	ack := func() {
		for ; acked < len(a.updates); acked++ {
			a.ackUpdate(a.updates[acked])
		}
	}
	var order []*block
	left := append([]*block{}, a.blocks...)
	for len(left) > 0 {
		i := nd.Choose("order", len(left))
		order = append(order, left[i])
		left = append(left[:i:i], left[i+1:]...)
	}
	var late []delivery.Message
	for _, b := range order {
		tm, err := p.AddBlock(b.num, b.hash, b.parent, weightOf(b.weight), map[string][]byte{"a/x": {1}}, nil, nil)
		nd.Assert(err == nil && len(tm["def"]) == 1 && len(tm["t"]) == 1, "two messages")
		data := nd.Choose("data", 3)
		if data == 0 {
			send(tm["t"][0])
			a.checkHash(b, time.Second)
		}
		send(tm["def"][0])
		b.seen = true
		a.checkHash(b, time.Second)
		if data == 1 {
			late = append(late, tm["t"][0])
		}
		if when == 0 {
			ack()
		}
	}
	for _, m := range late {
		send(m)
		if when == 0 {
			ack()
		}
	}
	if when == 1 {
		ack()
	}
	for _, b := range a.blocks {
		a.checkHash(b, time.Second)
		a.checkNumber(b.num, time.Second)
	}
	nd.Reach("end")
}

// C15_stop: stopping a waiter.
// Bounds: a block known before, possibly acknowledged; the waiter stopped by one
// or two goroutines while another block is handed over and the known one is
// waited for and acknowledged; schedules with at most 1 (thorough: 2) deviations
// at locks, channel operations and where a goroutine blocks; then another block.
// Weight: 2
func C15_stop() {
	cfg := &delivery.ConsumerConfig{ReorgThreshold: 8, LastWeight: big.NewInt(100), LastEmittedNum: 10, LastHash: rootHash(), TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	nd.Assert(err == nil, "consumer is created")
	a := &app{omp: omp, ch: make(chan *delivery.ChainUpdate, 64)}
	omp.Subscribe(a.ch)
	nd.Settle()
	running := nd.Goroutines()
	a.w = waiter.NewOmpWaiter(omp)
	x := a.add(11, hashOf(1), rootHash(), 101)
	y := a.add(12, hashOf(2), x.hash, 102)
	z := a.add(13, hashOf(3), y.hash, 103)
	a.see(x)
	before := nd.Choose("acknowledged before", 2) == 1
	if before {
		x.pbs[0].Done()
		nd.Settle()
	}
	twice := nd.Choose("stopped twice", 2) == 1
	deviations := 1
	if nd.Thorough() {
		deviations = 2
	}
	nd.Config("sched", 2)
	nd.Config("preempt", deviations)
	done := make(chan bool, 4)
	n := 3
	go func() {
		omp.ProcessCompleteBatch(y.batch())
		done <- true
	}()
	go func() {
		a.w.Stop()
		done <- true
	}()
	if twice {
		n++
		go func() {
			a.w.Stop()
			done <- true
		}()
	}
	go func() {
		r := a.w.WaitForHashResult(x.hash, time.Second)
		nd.Assert(r == waiter.Success, "the wait for a block known before succeeds")
		done <- true
	}()
	x.pbs[0].Done()
	for ; n > 0; n-- {
		<-done
	}
	nd.Settle()
	nd.Config("preempt", 0)
	a.see(z)
	nd.Assert(len(a.updates) == 3, "blocks are delivered whether there is a waiter or not")
	nd.Assert(a.w.WaitForHashResult(z.hash, time.Second) == waiter.NotFound, "a block that comes afterwards is not known")
	nd.Assert(a.w.WaitForNumberResult(13, time.Second) == waiter.NotFound, "nor is its number")
	y.pbs[0].Done()
	z.pbs[0].Done()
	nd.Advance(3 * time.Minute)
	nd.Assert(nd.Goroutines() <= running, "nothing of the waiter is left running")
	nd.Assert(a.w.WaitForHashResult(x.hash, time.Second) == waiter.NotFound, "nor of what it knew")
	nd.Reach("end")
}

// C15_many: many blocks at once.
// Bounds: 100 blocks, each handed over before any is acknowledged, every other one acknowledged;
// in order or in reverse.
func C15_many() {
	a := newApp()
	parent := rootHash()
	for i := 0; i < 100; i++ {
		h := hashOf(1)
		h[1] = byte(i)
		a.add(int64(11+i), h, parent, int64(101+i))
		parent = h
	}
	back := nd.Choose("reverse", 2) == 1
	for i := range a.blocks {
		if back {
			i = 99 - i
		}
		a.see(a.blocks[i])
	}
	for i := 0; i < 100; i += 2 {
		a.ackBatch(a.blocks[i], 0)
	}
	for _, b := range a.blocks {
		a.checkHash(b, 10*time.Millisecond)
		a.checkNumber(b.num, 10*time.Millisecond)
	}
	nd.Reach("checked")
}
