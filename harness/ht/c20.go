package ht

import (
	"encoding/json"
	"math/big"

	"github.com/gorilla/websocket"
	rpc "github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"

	"verif/harness/nd"
)

// key is a symbolic ASCII string.
func key(label string, n int) string {
	s := nd.String(label, n)
	for i := 0; i < n; i++ {
		nd.Assume(s[i] < 0x80)
	}
	return s
}

// connected is a client with a connection, before any block.
func connected() (*station, *reader) {
	s := newStation()
	r := client()
	nd.Assert(r.c.Start() == nil, "consumer starts")
	nd.Settle()
	nd.Assert(r.isReady(), "consumer is ready")
	return s, r
}

// Blocks with symbolic contents over a healthy connection.
func C20_contents() {
	s, r := connected()
	c := newContent(11, hashOf(1), rootHash())
	switch nd.Choose("part", 6) {
	case 0: // keys and values
		c.updates["a/"+key("k", 1)] = nd.Bytes("v", 2)
		c.updates["b"] = []byte{}
		c.updates["\u00e9\U0001f600"] = nd.Bytes("v2", 1)
	case 1: // deletes
		c.deletes["a/"+key("k", 1)] = struct{}{}
		c.deletes["b"] = struct{}{}
	case 2: // hashes
		c.hash = symHash("hash")
		nd.Assume(c.hash != rootHash())
		c.updates["a"] = []byte{1}
	case 3: // weight
		n := 1 + nd.Choose("weight length", 33)
		b := nd.Bytes("weight", 1)
		nd.Assume(b[0] != 0)
		w := new(big.Int).SetBytes(b)
		c.weight = w.Lsh(w, uint(8*(n-1)))
		if n == 33 {
			c.weight = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
	case 4: // number
		n := nd.Uint64("number")
		nd.Assume(n < 1<<63)
		c.number = int64(n)
	case 5: // sub-batches
		for i, p := range []string{"s/", "t/"} {
			id := symHash("id" + p)
			for _, o := range c.batches {
				nd.Assume(id != o)
			}
			c.batches[p] = id
			c.subs[id] = sub{updates: map[string][]byte{p + key("k", 1): nd.Bytes("v", 1+i), p: {}, p + "z9": nil}, deletes: []string{p + key("d", 1)}}
		}
	}
	s.bundle(c)
	r.delivered(c)
	nd.Reach("delivered")
}

// order chooses the order of a few events: every block is published after the
// one before, every sub-batch after its block.
type event struct {
	c  *content
	id *types.Hash
}

func (s *station) do(e event) {
	if e.id == nil {
		s.add(e.c)
	} else {
		s.send(e.c, *e.id)
	}
}

func choose(next int, cs []*content, open []event) (event, int, []event) {
	n := len(open)
	if next < len(cs) {
		n++
	}
	i := nd.Choose("event", n)
	if i < len(open) {
		e := open[i]
		return e, next, append(append([]event{}, open[:i]...), open[i+1:]...)
	}
	c := cs[next]
	for _, id := range sortedIDs(c.batches) {
		id := id
		open = append(open[:len(open):len(open)], event{c, &id})
	}
	return event{c, nil}, next + 1, open
}

// done are the first blocks without outstanding sub-batches.
func done(cs []*content, next int, open []event) []*content {
	for i := 0; i < next; i++ {
		for _, e := range open {
			if e.c == cs[i] {
				return cs[:i]
			}
		}
	}
	return cs[:next]
}

// Sub-batches may follow in any order, and after later blocks.
func C20_interleaved() {
	s, r := connected()
	n := 2
	if nd.Thorough() {
		n = 4
	}
	cs := blocks(n)
	id := hashOf(77)
	cs[0].batches["x/"] = id
	cs[0].subs[id] = sub{updates: map[string][]byte{"x/1": {1}}}
	id2 := hashOf(78)
	cs[0].batches["y/"] = id2
	cs[0].subs[id2] = sub{updates: map[string][]byte{"y/1": {1}}, deletes: []string{"y/2"}}
	var open []event
	next := 0
	var e event
	for next < len(cs) || len(open) > 0 {
		e, next, open = choose(next, cs, open)
		s.do(e)
		r.delivered(done(cs, next, open)...)
	}
	nd.Reach("delivered")
}

// A connection may end at any time; the next one takes up after the last block
// before which everything was delivered.
func C20_dropped() {
	s, r := connected()
	n := 3
	if nd.Thorough() {
		n = 4
	}
	cs := blocks(n)
	var open []event
	next := 0
	var e event
	cuts := 1
	for next < len(cs) || len(open) > 0 {
		e, next, open = choose(next, cs, open)
		s.do(e)
		if cuts > 0 && nd.Bool("cut") {
			cuts--
			if nd.Bool("seen") {
				nd.Settle()
			}
			s.cut()
			if nd.Bool("away") {
				s.mu.Lock()
				s.down = 1
				s.mu.Unlock()
			}
			if nd.Bool("back") {
				nd.Advance(3 * 1e9)
			}
		}
	}
	nd.Advance(5 * 1e9)
	r.delivered(cs...)
	asked := s.h.asked()
	for _, q := range asked {
		ok := q.number == 10 && q.hash == rootHash()
		for _, c := range cs {
			ok = ok || q.number == uint64(c.number) && q.hash == c.hash
		}
		nd.Assert(ok, "asks for what follows a block of the chain")
	}
	if len(asked) > 1 {
		nd.Reach("resumed")
	}
	nd.Reach("delivered")
}

// The blocks of the history can be asked for one by one.
func C20_block() {
	s := newStation()
	cs := blocks(2)
	cs[1].deletes["d/"+key("k", 1)] = struct{}{}
	cs[1].updates["k2"] = nd.Bytes("v2", 2)
	s.publish(cs)
	c, err := websocket.Accept("ws://h:8000")
	nd.Assert(err == nil, "connected")
	n := nd.Uint64("number")
	call, err := rpc.NewCall("cardinal_streamsBlock", hexutil.Uint64(n))
	nd.Assert(err == nil, "call")
	nd.Assert(c.WriteJSON(call) == nil, "call is sent")
	_, m, err := c.ReadMessage()
	nd.Assert(err == nil, "answer")
	var res struct {
		Result *struct {
			Type  string
			Batch *transports.TransportBatch
		}
		Error *rpc.RPCError
	}
	nd.Assert(json.Unmarshal(m, &res) == nil, "answer can be read")
	for _, c := range cs {
		if uint64(c.number) == n {
			nd.Assert(res.Error == nil && res.Result != nil && res.Result.Type == "batch" && res.Result.Batch != nil, "the block is found")
			nd.Assert(len(res.Result.Batch.Batches) == 0, "nothing is outstanding")
			c.same(res.Result.Batch.ToPendingBatch())
			nd.Reach("found")
			return
		}
	}
	nd.Assert(res.Error != nil && res.Result == nil, "an unknown block is an error")
	nd.Reach("unknown")
}
