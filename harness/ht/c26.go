package ht

import (
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"

	"verif/harness/nd"
)

// moved puts the messages on other topics.
func moved(ms []message, suffix string) []message {
	r := append([]message{}, ms...)
	for i := range r {
		r[i].topic += suffix
	}
	return r
}

func newMux(params []transports.BrokerParams) *reader {
	c, err := transports.ResolveMuxConsumer(params, nil, consumerConfig())
	nd.Assert(err == nil && c != nil, "consumer is created")
	r := &reader{c: c, ch: make(chan *delivery.ChainUpdate, 64)}
	c.Subscribe(r.ch)
	return r
}

func twoBrokers() []transports.BrokerParams {
	return []transports.BrokerParams{
		{URL: "kafka://a:1", DefaultTopic: "def", Topics: []string{"def", "tp", "ts"}},
		{URL: "cardinal://kafka://b:1", DefaultTopic: "def2", Topics: []string{"def2", "tp2", "ts2"}},
	}
}

func twoClusters() (*reader, []*bundle, func(i, broker int)) {
	w := cluster()
	for _, s := range []string{"", "2"} {
		for _, t := range allTopics {
			w.AddTopic(t+s, 1)
		}
	}
	bs := chain(2)
	produce := func(i, broker int) { put(w, 0, moved(bs[i].all(), []string{"", "2"}[broker])...) }
	return newMux(twoBrokers()), bs, produce
}

// becameReady asks whether the consumer is ready, and once more later.
func (r *reader) becameReady() bool {
	if r.isReady() {
		return true
	}
	nd.Settle()
	return r.isReady()
}

func (r *reader) same(bs []*bundle) {
	r.drain()
	nd.Assert(len(r.got) == len(bs), "every block is emitted once")
	for i, b := range bs {
		b.holds(r.got[i])
	}
}

// C26_merge: the blocks of two brokers.
// Bounds: two blocks, each on the first broker, the second or both, in any
// order, there before or after the consumer starts.
func C26_merge() {
	r, bs, produce := twoClusters()
	w1, w2 := nd.Choose("brokers", 3), nd.Choose("brokers", 3)
	var todo [][2]int
	for i, on := range []int{w1, w2} {
		for b := 0; b < 2; b++ {
			if on == 2 || on == b {
				todo = append(todo, [2]int{i, b})
			}
		}
	}
	start := nd.Choose("start", len(todo)+1)
	for k := 0; k <= len(todo); k++ {
		if k == start {
			nd.Assert(r.c.Start() == nil, "started")
			nd.Settle()
		}
		if k < len(todo) {
			j := k + nd.Choose("next", len(todo)-k)
			todo[k], todo[j] = todo[j], todo[k]
			produce(todo[k][0], todo[k][1])
			nd.Settle()
		}
	}
	r.same(bs)
	nd.Advance(10 * time.Second)
	nd.Assert(r.becameReady(), "ready when everything has been read")
	r.c.Close()
	nd.Settle()
	nd.Reach("merged")
}

// C26_schedules: brokers that deliver at once.
// Bounds: two blocks, one on each broker (thorough: or both on both), there when
// the consumer starts or coming afterwards, all messages on one topic per broker;
// schedules with
// one deviation at synchronisation; unsynchronised uses of maps.
// Weight: 2
func C26_schedules() {
	w := cluster()
	w.AddTopic("def", 1)
	w.AddTopic("def2", 1)
	r := newMux([]transports.BrokerParams{
		{URL: "kafka://a:1", DefaultTopic: "def", Topics: []string{"def"}},
		{URL: "kafka://b:1", DefaultTopic: "def2", Topics: []string{"def2"}},
	})
	bs := chain(2)
	produce := func(i int, topic string) {
		for _, m := range bs[i].all() {
			w.Put(topic, 0, m.key, m.value)
		}
	}
	early := nd.Choose("early", 2) == 1
	both := false
	if nd.Thorough() {
		both = nd.Choose("both", 2) == 1
	}
	all := func() {
		produce(0, "def")
		produce(1, "def2")
		if both {
			produce(0, "def2")
			produce(1, "def")
		}
	}
	if early {
		all()
	}
	nd.Config("sched", 2)
	nd.Config("preempt", 1)
	nd.Assert(r.c.Start() == nil, "started")
	if !early {
		all()
	}
	nd.Settle()
	nd.Config("sched", 0)
	r.same(bs)
	nd.Advance(10 * time.Second)
	nd.Assert(r.becameReady(), "ready when everything has been read")
	r.c.Close()
	nd.Settle()
	nd.Assert(len(r.ch) == 0, "nothing else is emitted")
	nd.Reach("merged")
}

// C26_failing: brokers that cannot be read.
// Bounds: two brokers, either or both of which lack a topic.
func C26_failing() {
	w := cluster()
	lack := nd.Choose("lacking", 4)
	for i, s := range []string{"", "2"} {
		for _, t := range allTopics {
			if t != "tp" || lack>>i&1 == 0 {
				w.AddTopic(t+s, 1)
			}
		}
	}
	bs := chain(2)
	r := newMux(twoBrokers())
	nd.Settle()
	idle := nd.Goroutines()
	err := r.c.Start()
	nd.Assert((err != nil) == (lack == 3), "starting fails when no broker can be read")
	if lack == 3 {
		r.c.Close()
		nd.Advance(time.Minute)
		nd.Assert(w.Connected() == 0, "no connection is left open")
		nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
		nd.Reach("failed")
		return
	}
	for i, s := range []string{"", "2"} {
		if lack>>i&1 == 0 {
			for _, b := range bs {
				put(w, 0, moved(b.all(), s)...)
			}
		}
	}
	nd.Settle()
	r.same(bs)
	nd.Advance(10 * time.Second)
	nd.Assert(r.becameReady(), "ready when everything has been read")
	nd.Assert(r.becameReady(), "ready whenever asked")
	r.c.Close()
	nd.Advance(time.Minute)
	nd.Assert(w.Open() == 0, "no partition is read any more")
	nd.Assert(w.Connected() == 0, "no connection is left open")
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Reach("read")
}

// C26_resolve: consumers that cannot be created.
// Bounds: two Kafka brokers and one of an unknown kind or that refuses the connection, in any order, or
// brokers of which the second or third refuses the connection; malformed tokens.
func C26_resolve() {
	w := cluster()
	params := twoBrokers()
	token := ""
	switch nd.Choose("failure", 3) {
	case 0:
		bad := transports.BrokerParams{URL: "other://h:1", DefaultTopic: "def", Topics: []string{"def"}}
		at := nd.Choose("at", 3)
		params = append(append(append([]transports.BrokerParams{}, params[:at]...), bad), params[at:]...)
	case 1:
		w.Limit = 1 + nd.Choose("connections", 2)
		params = append(params, params[0])
	case 2:
		token = "def:0=x"
	}
	c, err := transports.ResolveMuxConsumer(params, []byte(token), consumerConfig())
	nd.Assert(err != nil && c == nil, "failure is reported")
	nd.Settle()
	nd.Assert(w.Connected() == 0, "no connection is left open")
	nd.Reach("refused")
}

// C26_waiter: waiting for blocks of several brokers.
// Bounds: a block from either broker that is applied before or while it is
// waited for; with a null broker in front or not.
func C26_waiter() {
	w := cluster()
	for _, s := range []string{"", "2"} {
		for _, t := range allTopics {
			w.AddTopic(t+s, 1)
		}
	}
	params := twoBrokers()
	if nd.Choose("null", 2) == 1 {
		params = append([]transports.BrokerParams{{URL: "null://"}}, params...)
	}
	bs := chain(1)
	r := newMux(params)
	wt := r.c.Waiter()
	nd.Assert(r.c.Start() == nil, "started")
	nd.Settle()
	put(w, 0, moved(bs[0].all(), []string{"", "2"}[nd.Choose("broker", 2)])...)
	nd.Settle()
	r.same(bs)
	before := nd.Choose("before", 2) == 1
	if before {
		r.got[0].Done()
		nd.Settle()
	}
	var res waiter.WaitResult
	finished := false
	go func() {
		res = wt.WaitForHashResult(bs[0].c.hash, time.Second)
		finished = true
	}()
	nd.Settle()
	nd.Assert(finished == before, "waits for the block to be applied")
	r.got[0].Done()
	nd.Settle()
	nd.Assert(finished && res == waiter.Success, "found")
	nd.Reach("found")
}
