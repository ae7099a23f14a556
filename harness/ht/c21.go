package ht

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// publish publishes blocks with their sub-batches.
func (s *station) publish(cs []*content) {
	for _, c := range cs {
		s.bundle(c)
	}
}

// all checks that the client ends up with the blocks; while it connects a block
// may reach it both from the history and from the feed.
func (r *reader) all(cs []*content) {
	r.drain()
	nd.Assert(len(r.got) == len(cs), "every block is delivered, once")
	for i, c := range cs {
		c.same(r.got[i])
	}
}

// A client connects while blocks are published, under any schedule.
func C21_catchup() {
	nd.Config("sched", 2)
	k := 1
	if nd.Thorough() {
		k = 2
	}
	nd.Config("preempt", k)
	s := newStation()
	cs := blocks(3)
	n := nd.Choose("before", 2)
	s.publish(cs[:n])
	r := client()
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.publish(cs[n : n+1])
	}()
	nd.Assert(r.c.Start() == nil, "consumer starts")
	<-done
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	s.publish(cs[n+1:])
	nd.Settle()
	r.all(cs)
	nd.Reach("delivered")
}

// Clients come and go without affecting the others or the producer.
func C21_clients() {
	s := newStation()
	cs := blocks(4)
	a, b := client(), client()
	nd.Assert(a.c.Start() == nil && b.c.Start() == nil, "consumers start")
	nd.Settle()
	left := nd.Choose("left after", 4)
	how := nd.Choose("how", 2)
	seen := nd.Bool("seen")
	for i, c := range cs {
		if i == left {
			if seen {
				nd.Settle()
			}
			if how == 0 {
				b.c.Close()
			} else {
				s.mu.Lock()
				s.down = 100 // it does not come back
				s.mu.Unlock()
				s.cut()
			}
		}
		s.bundle(c)
	}
	nd.Settle()
	a.all(cs)
	b.drain()
	for i, pb := range b.got {
		cs[i].same(pb)
	}
	if seen {
		nd.Assert(len(b.got) >= left, "the other client has received the blocks before it left")
	}
	nd.Assert(len(b.got) <= left, "nothing after it left")
	nd.Reach("delivered")
}

// The server may be unreachable, or unable to serve the stream, for some time.
func C21_refused() {
	s := newStation()
	cs := blocks(3)
	r := client()
	s.down = nd.Choose("unreachable", 3)
	s.h.fail = nd.Choose("unable", 3)
	s.publish(cs[:1])
	started := make(chan struct{})
	go func() {
		nd.Assert(r.c.Start() == nil, "consumer starts")
		close(started)
	}()
	nd.Settle()
	s.publish(cs[1:2])
	for i := 0; i < 6; i++ {
		nd.Advance(2 * 1e9)
	}
	<-started
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	s.publish(cs[2:])
	nd.Settle()
	r.all(cs)
	nd.Reach("delivered")
}

// A client that fails again and again in the middle of its history makes
// progress.
func C21_history() {
	s := newStation()
	cs := blocks(4)
	s.publish(cs)
	r := client()
	nd.Assert(r.c.Start() == nil, "consumer starts")
	for i := 0; i < 2; i++ {
		if nd.Bool("cut") {
			s.cut()
			nd.Advance(3 * 1e9)
		}
	}
	nd.Advance(3 * 1e9)
	nd.Assert(r.isReady(), "client is ready")
	r.all(cs)
	more := blocks(6)[4:]
	s.publish(more)
	nd.Settle()
	r.all(append(cs, more...))
	nd.Reach("delivered")
}

// Blocks up to a given one are not sent again.
func C21_resume() {
	s := newStation()
	cs := blocks(4)
	s.publish(cs)
	n := nd.Choose("known", 5)
	cfg := consumerConfig()
	if n > 0 {
		last := cs[n-1]
		cfg = &delivery.ConsumerConfig{ReorgThreshold: 8, LastWeight: last.weight, LastEmittedNum: last.number, LastHash: last.hash, TrackedPrefixes: cfg.TrackedPrefixes}
	}
	r := clientAt(cfg)
	nd.Assert(r.c.Start() == nil, "consumer starts")
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	r.all(cs[n:])
	asked := s.h.asked()
	want := resumption{10, rootHash()}
	if n > 0 {
		want = resumption{uint64(cs[n-1].number), cs[n-1].hash}
	}
	nd.Assert(len(asked) == 1 && asked[0] == want, "asks for what follows its last block")
	nd.Reach("delivered")
}

// session is a connection on which the harness calls and listens itself.
type session struct {
	c *websocket.Conn
	n int
}

func (s *station) session() *session {
	c, err := websocket.Accept("ws://h:8000")
	nd.Assert(err == nil, "connected")
	return &session{c: c}
}

func (x *session) call(method, params string) {
	x.n++
	x.c.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"%s","params":[%s]}`, x.n, method, params)))
}

func (x *session) subscribe(number int64, hash types.Hash) {
	x.call("cardinal_subscribe", fmt.Sprintf(`"streams","%#x",%s`, number, quoted(hash)))
}

// item is something that was received.
type item struct {
	id   string // of the answer
	sub  string // of the subscription
	typ  string
	hash types.Hash // of the block
	part types.Hash // of the sub-batch
}

// receive reads everything that has arrived.
func (x *session) receive() []item {
	nd.Settle()
	var r []item
	for _, m := range x.c.Pending() {
		var msg struct {
			ID     json.RawMessage
			Result json.RawMessage
			Params struct {
				Subscription string
				Result       struct {
					Type     string
					Batch    *struct{ Hash types.Hash }
					Subbatch *struct{ Hash, Batchid types.Hash }
				}
			}
		}
		nd.Assert(json.Unmarshal(m, &msg) == nil, "message can be read")
		it := item{id: string(msg.ID), sub: msg.Params.Subscription, typ: msg.Params.Result.Type}
		if b := msg.Params.Result.Batch; b != nil {
			it.hash = b.Hash
		}
		if b := msg.Params.Result.Subbatch; b != nil {
			it.hash, it.part = b.Hash, b.Batchid
		}
		r = append(r, it)
	}
	return r
}

// of are the items of a subscription.
func of(items []item, sub string) []item {
	var r []item
	for _, it := range items {
		if it.id == "" && it.sub == sub {
			it.sub = ""
			r = append(r, it)
		}
	}
	return r
}

// expected items of a subscription.
func history2(cs []*content) (r []item) {
	for _, c := range cs {
		r = append(r, item{typ: "batch", hash: c.hash})
	}
	return r
}

func live(cs []*content) (r []item) {
	for _, c := range cs {
		r = append(r, item{typ: "batch", hash: c.hash})
		for _, id := range sortedIDs(c.batches) {
			r = append(r, item{typ: "subbatch", hash: c.hash, part: id})
		}
	}
	return r
}

func equal(got, want []item, what string) {
	nd.Assert(len(got) == len(want), what)
	for i := range got {
		nd.Assert(got[i] == want[i], what)
	}
}

// What a subscription sends: history, ready, and what is published afterwards.
func C21_items() {
	s := newStation()
	cs := blocks(4)
	n := nd.Choose("history", 3)
	s.publish(cs[:n])
	x := s.session()
	known := nd.Choose("known", n+1)
	number, hash := int64(10), rootHash()
	if known > 0 {
		number, hash = cs[known-1].number, cs[known-1].hash
	}
	x.subscribe(number, hash)
	got := of(x.receive(), "0x0")
	equal(got, append(history2(cs[known:n]), item{typ: "ready"}), "the history, then the end of it")
	asked := s.h.asked()
	nd.Assert(len(asked) == 1 && asked[0] == resumption{uint64(number), hash}, "the history is looked up from the block asked for")
	reorg := nd.Bool("reorg")
	s.publish(cs[n:3])
	want := live(cs[n:3])
	if reorg {
		done, err := s.p.Reorg(12, cs[1].hash)
		nd.Assert(err == nil && done != nil, "reorg is published")
		done()
		want = append(want, item{typ: "reorg", hash: cs[1].hash})
	}
	s.publish(cs[3:])
	want = append(want, live(cs[3:])...)
	equal(of(x.receive(), "0x0"), want, "what is published, in order")
	nd.Reach("received")
}

// Two subscriptions on one connection, of which either or both end.
func C21_unsubscribe() {
	s := newStation()
	cs := blocks(4)
	s.publish(cs[:1])
	x := s.session()
	x.subscribe(10, rootHash())
	x.subscribe(cs[0].number, cs[0].hash)
	got := x.receive()
	equal(of(got, "0x0"), append(history2(cs[:1]), item{typ: "ready"}), "history of the first")
	equal(of(got, "0x1"), []item{{typ: "ready"}}, "history of the second")
	ended := nd.Choose("ended", 3)
	if nd.Bool("in between") {
		s.publish(cs[1:2])
		got := x.receive()
		equal(of(got, "0x0"), live(cs[1:2]), "first")
		equal(of(got, "0x1"), live(cs[1:2]), "second")
	} else {
		cs = append(cs[:1:1], cs[2:]...)
		nd.Settle()
	}
	cs = cs[len(cs)-2:]
	if ended != 1 {
		x.call("cardinal_unsubscribe", `"0x0"`)
	}
	if ended != 0 {
		x.call("cardinal_unsubscribe", `"0x1"`)
	}
	x.receive()
	s.publish(cs[:1])
	s.publish(cs[1:])
	got = x.receive()
	for i, sub := range []string{"0x0", "0x1"} {
		var want []item
		if ended == 1-i {
			want = live(cs)
		}
		equal(of(got, sub), want, "only the subscription that is left")
	}
	nd.Reach("received")
}

// A subscriber that does not take what it is sent, and leaves in the end, does
// not stop the producer or another subscriber.
func C21_stalled() {
	s := newStation()
	x, y := s.session(), s.session()
	x.subscribe(10, rootHash())
	y.subscribe(10, rootHash())
	nd.Settle()
	srv := s.conns[0]
	srv.Stall()
	x.receive()
	y.receive()
	k := 1300
	when := nd.Choose("leaves", 3) // at once, after 100 blocks, when the producer waits for it
	var want []item
	done := make(chan struct{})
	go func() {
		for i := 0; i < k; i++ {
			if when < 2 && i == when*100 {
				srv.Close()
			}
			nd.Assert(s.p.AddBlock(int64(11+i), hashOf(byte(i)), rootHash(), big.NewInt(1), nil, nil, nil) == nil, "block is published")
		}
		close(done)
	}()
	if when == 2 {
		nd.Settle()
		srv.Close()
	}
	<-done
	for i := 0; i < k; i++ {
		want = append(want, item{typ: "batch", hash: hashOf(byte(i))})
	}
	equal(of(y.receive(), "0x0"), want, "everything, in order")
	nd.Reach("received")
}

// C21_leftovers: subscriptions that were refused or have ended leave nothing behind that
// the producer waits for.
// Bounds: none to two subscriptions that are refused, one that ends by itself, with its
// connection or not at all, at the ready marker or ahead of it; then 1100 blocks.
func C21_leftovers() {
	s := newStation()
	s.h.add(smallBlocks(1)[0])
	x := s.session()
	s.h.fail = nd.Choose("refused", 3)
	for i := s.h.fail; i > 0; i-- {
		x.subscribe(10, rootHash())
		nd.Settle()
	}
	end := nd.Choose("end", 3)
	if end > 0 {
		y := s.session()
		y.subscribe(10, rootHash())
		if nd.Choose("ready", 2) == 1 {
			nd.Settle()
		}
		if end == 1 {
			nd.Settle()
			y.call("cardinal_unsubscribe", `"0x0"`)
		} else {
			s.conns[1].Close()
		}
		nd.Settle()
	}
	done := false
	go func() {
		for i := 0; i < 1100; i++ {
			nd.Assert(s.p.AddBlock(int64(11+i), hashOf(byte(i)), rootHash(), big.NewInt(1), nil, nil, nil) == nil, "block is published")
		}
		done = true
	}()
	nd.Settle()
	nd.Assert(done, "the producer does not wait for anybody")
	nd.Reach("published")
}
