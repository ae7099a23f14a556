package ht

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/gorilla/websocket"
	rpc "github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// peer is the server's side of the connections of a client, message by message.
type peer struct {
	conns chan *websocket.Conn
	c     *websocket.Conn
	id    json.RawMessage
}

func newPeer() *peer {
	p := &peer{conns: make(chan *websocket.Conn, 8)}
	websocket.Accept = func(url string) (*websocket.Conn, error) {
		c, srv := websocket.Pair()
		select {
		case p.conns <- srv:
		default:
			return nil, errors.New("connection refused")
		}
		return c, nil
	}
	return p
}

// accept waits for a connection and its call.
func (p *peer) accept() {
	p.c = <-p.conns
	_, m, err := p.c.ReadMessage()
	nd.Assert(err == nil, "client sends a call")
	var call rpc.Call
	nd.Assert(json.Unmarshal(m, &call) == nil && call.Method == "cardinal_subscribe" && len(call.Params) == 3 && string(call.Params[0]) == `"streams"`, "client subscribes")
	p.id = call.ID
}

func (p *peer) write(s string) { p.c.WriteMessage(websocket.TextMessage, []byte(s)) }

func (p *peer) respond() {
	p.write(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x7"}`, string(p.id)))
}

func notification(result string) string {
	return `{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x7","result":` + result + `}}`
}

func quoted(h types.Hash) string { return `"0x` + hex.EncodeToString(h[:]) + `"` }

// batchItem and subItem are the items of a block and of its sub-batch.
func batchItem(c *content) string {
	var values, deletes, batches []string
	for k, v := range c.updates {
		values = append(values, fmt.Sprintf(`"%s":"0x%x"`, k, v))
	}
	for k := range c.deletes {
		deletes = append(deletes, `"`+k+`"`)
	}
	for k, id := range c.batches {
		batches = append(batches, fmt.Sprintf(`"%s":%s`, k, quoted(id)))
	}
	return fmt.Sprintf(`{"type":"batch","batch":{"number":"%#x","weight":"0x%s","hash":%s,"parent":%s,"values":{%s},"deletes":[%s],"batches":{%s}}}`,
		c.number, c.weight.Text(16), quoted(c.hash), quoted(c.parent), strings.Join(values, ","), strings.Join(deletes, ","), strings.Join(batches, ","))
}

func subItem(c *content, id types.Hash) string {
	var values, deletes []string
	for k, v := range c.subs[id].updates {
		values = append(values, fmt.Sprintf(`"%s":"0x%x"`, k, v))
	}
	for _, k := range c.subs[id].deletes {
		deletes = append(deletes, `"`+k+`"`)
	}
	return fmt.Sprintf(`{"type":"subbatch","subbatch":{"hash":%s,"batchid":%s,"values":{%s},"deletes":[%s]}}`,
		quoted(c.hash), quoted(id), strings.Join(values, ","), strings.Join(deletes, ","))
}

// stream is the notifications of a few blocks.
func stream(cs []*content) []string {
	var r []string
	for _, c := range cs {
		r = append(r, notification(batchItem(c)))
		for _, id := range sortedIDs(c.batches) {
			r = append(r, notification(subItem(c, id)))
		}
	}
	return r
}

// smallBlocks are blocks with concrete contents; the second has a sub-batch.
func smallBlocks(n int) []*content {
	cs := blocks(n)
	for _, c := range cs {
		for id, s := range c.subs {
			s.updates = map[string][]byte{"s/u": {1}}
			c.subs[id] = s
		}
	}
	return cs
}

// open starts a client that gets a connection.
func open() (*peer, *reader) {
	p := newPeer()
	r := client()
	go func() { nd.Assert(r.c.Start() == nil, "consumer starts") }()
	p.accept()
	return p, r
}

// The first items of the stream may overtake the subscription id.
func C21_early() {
	cs := smallBlocks(2)
	msgs := append([]string{notification(`{"type":"ready"}`)}, stream(cs)...)
	p, r := open()
	at := nd.Choose("id", len(msgs)+1)
	for i, m := range msgs {
		if i == at {
			p.respond()
		}
		p.write(m)
	}
	if at == len(msgs) {
		p.respond()
	}
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	r.all(cs)
	nd.Reach("delivered")
}

// strays are messages that are no part of the stream.
func strays(next *content) []string {
	other := newContent(next.number, hashOf(150), next.parent)
	other.weight.SetUint64(1 << 40)
	item := batchItem(other)
	return []string{
		``,
		`{`,
		`null`,
		`5`,
		`[]`,
		`{}`,
		`{"jsonrpc":"2.0","id":12345,"result":"0x8"}`,
		`{"jsonrpc":"2.0","id":-1,"error":{"code":-1,"message":"no"}}`,
		strings.Replace(notification(item), `"0x7"`, `"0x9"`, 1),
		strings.Replace(notification(item), `cardinal_subscribe`, `other_subscribe`, 1),
		strings.Replace(notification(item), `"params"`, `"parms"`, 1),
		notification(`null`),
		notification(`5`),
		notification(`{}`),
		notification(`{"type":"other"}`),
		notification(`{"type":"batch"}`),
		notification(`{"type":"batch","batch":null}`),
		notification(`{"type":"batch","batch":{}}`),
		notification(`{"type":"subbatch"}`),
		notification(`{"type":"reorg"}`),
		notification(strings.Replace(item, `"weight"`, `"wait"`, 1)),
		notification(strings.Replace(item, `"values":{`, `"values":{"k":"0x1"`, 1)),
		notification(strings.Replace(item, `"number":"0x`, `"number":"0`, 1)),
		notification(strings.Replace(item, `"deletes":[`, `"deletes":[5`, 1)),
	}
}

// Messages that are no part of the stream do not disturb it.
func C21_strays() {
	cs := smallBlocks(3)
	msgs := append([]string{notification(`{"type":"ready"}`)}, stream(cs)...)
	p, r := open()
	p.respond()
	st := strays(cs[0])
	which := nd.Choose("stray", len(st))
	at := nd.Choose("at", len(msgs)+1)
	for i, m := range msgs {
		if i == at {
			p.write(st[which])
		}
		p.write(m)
	}
	if at == len(msgs) {
		p.write(st[which])
	}
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	r.all(cs)
	nd.Reach("delivered")
}

// Anything but a subscription id makes the client try again.
func C21_answer() {
	cs := smallBlocks(2)
	p, r := open()
	answers := []string{
		`{"jsonrpc":"2.0","id":%s,"result":null}`,
		`{"jsonrpc":"2.0","id":%s}`,
		`{"jsonrpc":"2.0","id":%s,"error":{"code":-32601,"message":"no"}}`,
		`{"jsonrpc":"2.0","id":%s,"result":"seven"}`,
		`{"jsonrpc":"2.0","id":%s,"result":7}`,
		`{"jsonrpc":"2.0","id":%s,"result":{}}`,
	}
	again := make(chan struct{})
	i := nd.Choose("answer", len(answers)+1)
	if i == len(answers) {
		p.c.Close()
	} else {
		p.write(fmt.Sprintf(answers[i], string(p.id)))
	}
	go func() {
		p.accept()
		p.respond()
		for _, m := range append(stream(cs[:1]), notification(`{"type":"ready"}`)) {
			p.write(m)
		}
		close(again)
	}()
	for n := 0; n < 4; n++ {
		nd.Advance(2 * 1e9)
	}
	<-again
	nd.Settle()
	nd.Assert(r.isReady(), "client is ready")
	r.all(cs[:1])
	nd.Reach("delivered")
}

// A reorg takes its place among the blocks.
func C21_reorg() {
	nd.Config("sched", 2)
	nd.Config("preempt", 1)
	a := smallBlocks(3)
	p := newPeer()
	r := client()
	reorgs := make(chan map[int64]types.Hash, 8)
	r.c.SubscribeReorg(reorgs)
	go func() { nd.Assert(r.c.Start() == nil, "consumer starts") }()
	p.accept()
	p.respond()
	n := 1 + nd.Choose("reverted", 2)
	p.write(notification(`{"type":"ready"}`))
	for _, m := range stream(a) {
		p.write(m)
	}
	anc := a[2-n]
	p.write(notification(fmt.Sprintf(`{"type":"reorg","batch":{"number":"%#x","weight":null,"hash":%s,"parent":%s,"values":null,"deletes":null,"batches":null}}`, anc.number, quoted(anc.hash), quoted(types.Hash{}))))
	b := newContent(anc.number+1, hashOf(60), anc.hash)
	for _, m := range stream([]*content{b}) {
		p.write(m)
	}
	nd.Settle()
	r.drain()
	nd.Assert(len(r.got) == 4, "the blocks before and after the reorg")
	for i, c := range append(append([]*content{}, a...), b) {
		c.same(r.got[i])
	}
	nd.Assert(len(reorgs) == 1, "the reorg is announced")
	nd.Assert((<-reorgs)[anc.number] == anc.hash, "the common ancestor is announced")
	nd.Reach("delivered")
}

// A consumer can be closed whatever it is doing.
func C21_close() {
	nd.Config("sched", 2)
	nd.Config("preempt", 1)
	if nd.Thorough() {
		nd.Config("preempt", 2)
	}
	s := newStation()
	cs := smallBlocks(2)
	r := client()
	nd.Settle()
	running := nd.Goroutines()
	s.publish(cs[:1])
	phase := nd.Choose("phase", 4)
	if phase == 0 {
		s.down = 1000 // never reachable
	}
	if phase == 1 {
		r.c.Close()
	}
	done := make(chan struct{})
	go func() {
		nd.Assert(r.c.Start() == nil, "consumer starts")
		close(done)
	}()
	if phase == 2 {
		<-done
	}
	r.c.Close()
	if nd.Bool("twice") {
		r.c.Close()
	}
	nd.Advance(3 * 1e9)
	<-done
	nd.Settle()
	r.drain()
	n := len(r.got)
	nd.Assert(n <= 1, "blocks that were published")
	s.mu.Lock()
	asked := len(s.conns)
	s.mu.Unlock()
	s.publish(cs[1:])
	nd.Advance(5 * 1e9)
	r.drain()
	nd.Assert(len(r.got) == n, "nothing arrives after the consumer was closed")
	s.mu.Lock()
	nd.Assert(len(s.conns) == asked, "no further connections")
	s.mu.Unlock()
	nd.Advance(60 * 1e9)
	nd.Assert(nd.Goroutines() <= running, "nothing is left running")
	nd.Reach("closed")
}

// C20_order: a server may send sub-batches ahead of their blocks.
// Bounds: two blocks with two sub-batches and one, the five items in any order.
func C20_order() {
	cs := smallBlocks(2)
	for i := 0; i < 2; i++ {
		id := hashOf(byte(77 + i))
		k := fmt.Sprintf("%d/", i)
		cs[0].batches[k] = id
		cs[0].subs[id] = sub{updates: map[string][]byte{k + "u": {byte(i)}}, deletes: []string{k + "d"}}
	}
	type item struct {
		block int
		text  string
	}
	var items []item
	for i, c := range cs {
		items = append(items, item{i, notification(batchItem(c))})
		for _, id := range sortedIDs(c.batches) {
			items = append(items, item{i, notification(subItem(c, id))})
		}
	}
	p, r := open()
	p.respond()
	left := []int{3, 2}
	for len(items) > 0 {
		i := nd.Choose("item", len(items))
		p.write(items[i].text)
		left[items[i].block]--
		items = append(items[:i:i], items[i+1:]...)
		n := 0
		if left[0] == 0 {
			n = 1
			if left[1] == 0 {
				n = 2
			}
		}
		r.delivered(cs[:n]...)
	}
	nd.Reach("delivered")
}
