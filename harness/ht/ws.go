package ht

import (
	"context"
	"errors"
	"sync"

	"github.com/gorilla/websocket"
	rpctransports "github.com/openrelayxyz/cardinal-rpc/transports"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// history is what the resumer of a websocket producer reads.
type history struct {
	mu     sync.Mutex
	blocks []*content
	fail   int // so many calls of BlocksFrom fail
	calls  []resumption
}

type resumption struct {
	number uint64
	hash   types.Hash
}

// whole is a block with all its sub-batches.
func whole(c *content) *delivery.PendingBatch {
	pb := &delivery.PendingBatch{Number: c.number, Weight: c.weight, Hash: c.hash, ParentHash: c.parent,
		Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
	for k, v := range c.updates {
		pb.Values[k] = v
	}
	for k := range c.deletes {
		pb.Deletes[k] = struct{}{}
	}
	for _, s := range c.subs {
		for k, v := range s.updates {
			pb.Values[k] = v
		}
		for _, k := range s.deletes {
			pb.Deletes[k] = struct{}{}
		}
	}
	return pb
}

func (h *history) add(c *content) {
	h.mu.Lock()
	h.blocks = append(h.blocks, c)
	h.mu.Unlock()
}

func (h *history) asked() []resumption {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]resumption{}, h.calls...)
}

// BlocksFrom streams the blocks that are known when it is called.
func (h *history) BlocksFrom(ctx context.Context, number uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls = append(h.calls, resumption{number, hash})
	if h.fail > 0 {
		h.fail--
		return nil, errors.New("not yet")
	}
	var pbs []*delivery.PendingBatch
	for _, c := range h.blocks {
		if c.number > int64(number) {
			pbs = append(pbs, whole(c))
		}
	}
	ch := make(chan *delivery.PendingBatch)
	go func() {
		defer close(ch)
		for _, pb := range pbs {
			select {
			case ch <- pb:
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch, nil
}

func (h *history) GetBlock(ctx context.Context, number uint64) *delivery.PendingBatch {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, c := range h.blocks {
		if c.number == int64(number) {
			return whole(c)
		}
	}
	return nil
}

// station is a websocket producer and its connections.
type station struct {
	h     *history
	p     transports.Producer
	tm    *rpctransports.TransportManager
	mu    sync.Mutex
	conns []*websocket.Conn
	down  int // so many connection attempts fail
}

func newStation() *station {
	s := &station{h: &history{}}
	p, err := transports.NewWebsocketProducer("ws://h:8000", s.h)
	nd.Assert(err == nil && p != nil, "producer is created")
	s.p = p
	n := len(rpctransports.Managers)
	nd.Assert(n > 0, "producer serves")
	s.tm = rpctransports.Managers[n-1]
	websocket.Accept = func(url string) (*websocket.Conn, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.down > 0 {
			s.down--
			return nil, errors.New("connection refused")
		}
		c, srv := websocket.Pair()
		s.conns = append(s.conns, srv)
		go s.tm.Serve(srv)
		return c, nil
	}
	return s
}

// cut ends the newest connection.
func (s *station) cut() {
	s.mu.Lock()
	c := s.conns[len(s.conns)-1]
	s.mu.Unlock()
	c.Close()
}

// add publishes a block, send one of its sub-batches.
func (s *station) add(c *content) {
	s.h.add(c)
	nd.Assert(add(s.p, c) == nil, "block is published")
}

func (s *station) send(c *content, id types.Hash) {
	nd.Assert(send(s.p, c, id) == nil, "sub-batch is published")
}

func (s *station) bundle(c *content) {
	s.add(c)
	for _, id := range sortedIDs(c.batches) {
		s.send(c, id)
	}
}

// client connects a consumer that starts at the block root.
func client() *reader { return clientAt(consumerConfig()) }

func clientAt(cfg *delivery.ConsumerConfig) *reader {
	c, err := transports.ResolveConsumer("ws://h:8000", "", nil, nil, 0, cfg)
	nd.Assert(err == nil && c != nil, "consumer is created")
	r := &reader{c: c, ch: make(chan *delivery.ChainUpdate, 64)}
	c.Subscribe(r.ch)
	return r
}

// delivered checks what the client has received so far.
func (r *reader) delivered(cs ...*content) {
	nd.Settle()
	r.drain()
	nd.Assert(len(r.got) == len(cs), "every block is delivered, once")
	for i, c := range cs {
		c.same(r.got[i])
	}
}

// same checks that pb is the block with all its sub-batches.
func (c *content) same(pb *delivery.PendingBatch) {
	w := whole(c)
	nd.Assert(pb.Number == w.Number && pb.Hash == w.Hash && pb.ParentHash == w.ParentHash && pb.Weight != nil && pb.Weight.Cmp(w.Weight) == 0, "the block as it was produced")
	nd.Assert(len(pb.Values) == len(w.Values) && len(pb.Deletes) == len(w.Deletes), "the block's contents")
	for k, v := range w.Values {
		g, ok := pb.Values[k]
		nd.Assert(ok && string(g) == string(v), "the block's values")
	}
	for k := range w.Deletes {
		_, ok := pb.Deletes[k]
		nd.Assert(ok, "the block's deletes")
	}
}

// blocks makes n blocks on the root; every other one has a sub-batch.
func blocks(n int) []*content {
	var cs []*content
	parent := rootHash()
	for i := 0; i < n; i++ {
		c := newContent(int64(11+i), hashOf(byte(i+1)), parent)
		parent = c.hash
		c.updates["k"] = []byte{byte(i)}
		if i%2 == 1 {
			id := hashOf(byte(100 + i))
			c.batches["s/"] = id
			c.subs[id] = sub{updates: map[string][]byte{"s/u": nd.Bytes("v", 1)}, deletes: []string{"s/d"}}
		}
		cs = append(cs, c)
	}
	return cs
}
