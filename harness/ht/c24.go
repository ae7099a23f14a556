package ht

import (
	"bytes"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"

	"verif/harness/nd"
)

// C24_numbers: the latest block among the messages on the feed.
// Bounds: two partitions with up to two blocks on either, one of
// any number and one below 2^13, with garbage of eight kinds anywhere (thorough: without garbage, three blocks
// of any number).
func C24_numbers() {
	w := cluster()
	w.AddTopic("def", 2)
	ref := newReference()
	n := 2
	if nd.Thorough() {
		n = 3
	}
	var numbers []int64
	k := nd.Choose("blocks", n+1)
	g := 8
	if !nd.Thorough() || k < 2 {
		g = nd.Choose("garbage", 9)
	}
	at, gpart := 0, 0
	if g < 8 {
		at = nd.Choose("at", k+1)
		gpart = nd.Choose("garbage partition", 2)
	}
	for i := 0; i <= k; i++ {
		if i == at && g < 6 {
			m := garbage()[g]
			put(w, gpart, m)
		} else if i == at && g == 6 {
			put(w, gpart, message{"def", append([]byte{byte(delivery.BatchMsgType)}, make([]byte, 40)...), nd.Bytes("value", 2)})
		} else if i == at && g == 7 {
			// a number of more than ten bytes
			put(w, gpart, message{"def", append([]byte{byte(delivery.BatchType)}, make([]byte, 32)...), bytes.Repeat([]byte{255}, 20)})
		}
		if i < k {
			part := nd.Choose("partition", 2)
			c := newContent(nd.Int64("number"), hashOf(byte(i+1)), hashOf(100))
			nd.Assume(c.number >= 0)
			if i == 1 && !nd.Thorough() {
				nd.Assume(c.number < 1<<13)
			}
			put(w, part, ref.block(c)...)
			numbers = append(numbers, c.number)
		}
	}
	latest(numbers, kafkaProducer().LatestBlockFromFeed)
	if k == 0 {
		nd.Reach("none")
	}
}

// latest checks what is reported for blocks with these numbers.
func latest(numbers []int64, report func() (int64, error)) {
	got, err := report()
	nd.Assert(err == nil, "the feed can be read")
	if len(numbers) == 0 {
		nd.Assert(got == 0, "no block on the feed")
		return
	}
	is := false
	for _, x := range numbers {
		nd.Assert(got >= x, "no block on the feed is later")
		is = nd.Or(is, got == x)
	}
	nd.Assert(is, "a block on the feed")
	nd.Reach("latest")
}

// C24_window: long, trimmed and expired feeds.
// Bounds: a feed of 3, 99 to 101 or 150 messages, of which the first 0, 2 or all
// have expired; a block at one of eight distances from the end and a later one
// that is out of the window.
func C24_window() {
	w := cluster()
	l := w.AddTopic("def", 1+nd.Choose("empty partition", 2))[0]
	n := []int{3, 99, 100, 101, 150}[nd.Choose("length", 5)]
	back := []int{0, 1, 2, 97, 98, 99, 100, 101}[nd.Choose("back", 8)]
	at := n - 1 - back
	nd.Assume(at >= 0)
	ref := newReference()
	expired := []int{0, 2, n}[nd.Choose("expired", 3)]
	number := nd.Int64("number")
	nd.Assume(number >= 0)
	for i := 0; i < n; i++ {
		if i == at {
			put(w, 0, ref.block(newContent(number, hashOf(3), hashOf(1)))...)
		} else {
			put(w, 0, message{"def", []byte{byte(delivery.PingType), byte(i)}, nil})
		}
	}
	p := kafkaProducer()
	l.Start, l.Msgs = int64(expired), l.Msgs[expired:]
	var numbers []int64
	if back < 100 && at >= expired {
		numbers = []int64{number}
	}
	if back >= 100 && n-expired > 100 && at >= expired {
		// whether older blocks count is left open
		_, err := p.LatestBlockFromFeed()
		nd.Assert(err == nil, "the feed can be read")
		nd.Reach("older")
		return
	}
	latest(numbers, p.LatestBlockFromFeed)
}

// C24_again: asking again and again, while blocks are added, and what is left
// behind.
// Bounds: three calls, a block on either of two partitions before each, the first
// of any number, the others below 2^13.
func C24_again() {
	w := cluster()
	w.AddTopic("def", 2)
	p := kafkaProducer()
	nd.Settle()
	nd.Advance(time.Minute)
	open, clients, running := w.Open(), w.Connected(), nd.Goroutines()
	var numbers []int64
	for i := 0; i < 3; i++ {
		c := newContent(nd.Int64("number"), hashOf(byte(i+1)), hashOf(100))
		nd.Assume(c.number >= 0)
		if i > 0 {
			nd.Assume(c.number < 1<<13)
		}
		put(w, nd.Choose("partition", 2), newReference().block(c)...)
		numbers = append(numbers, c.number)
		latest(numbers, p.LatestBlockFromFeed)
		nd.Settle()
		nd.Assert(w.Open() == open, "no partition is read any longer")
		nd.Assert(w.Connected() == clients, "no connection is left open")
	}
	nd.Advance(time.Minute)
	nd.Assert(nd.Goroutines() <= running, "nothing is left running")
}

// C24_failures: a cluster that cannot be reached.
func C24_failures() {
	w := cluster()
	ls := w.AddTopic("def", 2)
	p := kafkaProducer()
	c := newContent(nd.Int64("number"), hashOf(1), hashOf(100))
	nd.Assume(c.number >= 0)
	part := nd.Choose("partition", 2)
	put(w, part, newReference().block(c)...)
	switch nd.Choose("failure", 2) {
	case 0:
		w.Down = true
	case 1:
		ls[part].Refuse = func(int64) bool { return true }
	}
	nd.Advance(time.Minute)
	open, clients, running := w.Open(), w.Connected(), nd.Goroutines()
	_, err := p.LatestBlockFromFeed()
	nd.Assert(err != nil, "failure is reported")
	nd.Advance(time.Minute)
	nd.Assert(w.Open() == open && w.Connected() == clients, "no connection is left open")
	nd.Assert(nd.Goroutines() <= running, "nothing is left running")
	nd.Reach("failure")
}
