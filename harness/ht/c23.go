package ht

import (
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// C23_heartbeats: when a producer announces itself.
// Bounds: four periods (thorough: six), in each of which the producer is healthy,
// unhealthy, or changes from one to the other.
func C23_heartbeats() {
	w := cluster()
	p := kafkaProducer()
	nd.Assert(len(w.Pings()) == 0, "not before the first period is over")
	healthy := true
	var id []byte
	n := 4
	if nd.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		if nd.Bool("change") {
			healthy = !healthy
			p.SetHealth(healthy)
		}
		nd.Advance(29 * time.Second)
		nd.Assert(len(w.Pings()) == 0, "one per period")
		if nd.Bool("late change") {
			healthy = !healthy
			p.SetHealth(healthy)
		}
		nd.Advance(time.Second)
		got := w.Pings()
		want := 0
		if healthy {
			want = 1
		}
		nd.Assert(len(got) == want, "a heartbeat per period while healthy")
		for _, k := range got {
			nd.Assert(len(k) == 33 && k[0] == byte(delivery.PingType), "a heartbeat")
			nd.Assert(id == nil || string(id) == string(k), "always the same identity")
			id = k
			nd.Reach("heartbeat")
		}
	}
	nd.Assert(p.ProducerCount(time.Hour) == 0, "its own heartbeats do not count")
	nd.Reach("end")
}

// C23_each_other: producers and consumers see each other's heartbeats.
// Bounds: two or three producers, created a millisecond apart, of which any have
// stopped announcing themselves after the first period; a consumer.
func C23_each_other() {
	w := cluster()
	w.AddTopic("def", 1+nd.Choose("partitions", 2))
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	n := 2 + nd.Choose("third", 2)
	var ps []transports.Producer
	for i := 0; i < n; i++ {
		ps = append(ps, kafkaProducer())
		nd.Advance(time.Millisecond)
	}
	r := newReader("", 0, consumerConfig())
	nd.Assert(r.c.Start() == nil, "consumer starts")
	nd.Advance(30 * time.Second)
	var off []bool
	active := 0
	for _, p := range ps {
		o := nd.Bool("off")
		off = append(off, o)
		p.SetHealth(!o)
		if !o {
			active++
		}
	}
	nd.Advance(30 * time.Second)
	for i, p := range ps {
		nd.Assert(p.ProducerCount(45*time.Second) == uint(n-1), "all others within two periods")
		want := active
		if !off[i] {
			want--
		}
		nd.Assert(p.ProducerCount(15*time.Second) == uint(want), "the others that are healthy")
	}
	nd.Assert(r.c.ProducerCount(45*time.Second) == uint(n), "all within two periods")
	nd.Assert(r.c.ProducerCount(15*time.Second) == uint(active), "those that are healthy")
	nd.Reach("counted")
}

// C23_counts: what counts as a producer.
// Bounds: three (thorough: four) messages a second apart, each a heartbeat with any identity or a
// block, on either of two partitions; counted within any of five durations, then any
// other of them, by a producer and a consumer.
func C23_counts() {
	w := cluster()
	w.AddTopic("def", 2)
	w.AddTopic("tp", 1)
	w.AddTopic("ts", 1)
	p := kafkaProducer()
	r := newReader("", 0, consumerConfig())
	nd.Assert(r.c.Start() == nil, "consumer starts")
	nd.Settle()
	nd.Advance(40 * time.Second) // after its heartbeat, which tells its identity
	own := w.Pings()
	nd.Assert(len(own) == 1, "a heartbeat")
	n := 3
	if nd.Thorough() {
		n = 4
	}
	last := map[types.Hash]int{}
	for i := 0; i < n; i++ {
		part := nd.Choose("partition", 2)
		if nd.Bool("ping") {
			id := symHash("id")
			nd.Assume(string(id[:]) != string(own[0][1:]))
			put(w, part, message{"def", append([]byte{byte(delivery.PingType)}, id[:]...), []byte{1}})
			last[id] = i
		} else {
			put(w, part, newReference().block(newContent(int64(11+i), hashOf(byte(i)), hashOf(9)))...)
		}
		nd.Advance(time.Second)
	}
	for _, what := range []string{"", " when asked again"} {
		k := nd.Choose("duration"+what, 5)
		want := uint(0)
		for _, i := range last {
			if n-i <= k {
				want++
			}
		}
		d := time.Duration(k)*time.Second + time.Millisecond
		nd.Assert(p.ProducerCount(d) == want, "producers a producer counts"+what)
		nd.Assert(r.c.ProducerCount(d) == want, "producers a consumer counts"+what)
	}
	nd.Reach("counted")
}
