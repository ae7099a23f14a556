package ht

import (
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/utils"

	"verif/harness/nd"
)

// fed is a topic consumer and what was put on the topic since it was created.
type fed struct {
	w    *sarama.World
	tc   utils.TopicConsumer
	put  [][]*sarama.ConsumerMessage // per partition
	got  [][]*sarama.ConsumerMessage
	left int
}

func newFed(parts, buffer int) *fed {
	f := &fed{w: cluster(), put: make([][]*sarama.ConsumerMessage, parts), got: make([][]*sarama.ConsumerMessage, parts)}
	f.w.AddTopic("tp", parts)
	f.w.AddTopic("other", 1)
	for i := nd.Choose("earlier", 2); i > 0; i-- {
		f.w.Put("tp", parts-1, []byte("old"), nil)
		f.w.Put("tp", 0, []byte("old"), nil)
	}
	f.tc = f.open(buffer)
	return f
}

func (f *fed) open(buffer int) utils.TopicConsumer {
	tc, err := utils.NewTopicConsumer("kafka://h:1", "tp", buffer)
	nd.Assert(err == nil && tc != nil, "consumer is created")
	nd.Assert(tc.Messages() != nil, "messages can be received")
	return tc
}

func (f *fed) add(part int) {
	n := 2 * nd.Choose("length", 2)
	m := f.w.Put("tp", part, nd.Bytes("key", n), nd.Bytes("value", 2-n))
	f.put[part] = append(f.put[part], m)
	f.left++
}

// take receives a message if there is one.
func (f *fed) take() bool {
	nd.Settle()
	select {
	case m, ok := <-f.tc.Messages():
		nd.Assert(ok && m != nil, "a message")
		nd.Assert(m.Topic == "tp" && int(m.Partition) < len(f.put), "of the topic")
		p := m.Partition
		n := len(f.got[p])
		nd.Assert(n < len(f.put[p]), "each message once, and none from before")
		want := f.put[p][n]
		nd.Assert(m.Offset == want.Offset && string(m.Key) == string(want.Key) && string(m.Value) == string(want.Value), "as it is on the topic, in the order of its partition")
		f.got[p] = append(f.got[p], m)
		f.left--
		return true
	default:
		return false
	}
}

// C28_delivers: the messages of a topic.
// Bounds: one to three partitions, with messages from before or none; up to
// three (thorough: four) messages with a key or a value of two arbitrary
// bytes, each on any partition; received as they come or at the end, through a
// buffer of none, one or many.
func C28_delivers() {
	parts := 1 + nd.Choose("partitions", 3)
	f := newFed(parts, []int{0, 1, 64}[nd.Choose("buffer", 3)])
	n := 3
	if nd.Thorough() {
		n = 4
	}
	at := nd.Choose("received at", 3)
	for n := 1 + nd.Choose("messages", n); n > 0; n-- {
		f.add(nd.Choose("partition", parts))
		if at == 0 {
			nd.Assert(f.take(), "delivered when it arrives")
		}
		if at == 1 {
			f.w.Put("other", 0, []byte{1}, nil)
			nd.Advance(time.Hour)
		}
	}
	for f.left > 0 {
		nd.Assert(f.take(), "everything is delivered")
	}
	nd.Assert(!f.take(), "nothing else is delivered")
	nd.Reach("delivered")
}

// C28_schedules: partitions that deliver at once, to several receivers.
// Bounds: two partitions with two messages each (thorough: three), two receivers, a buffer of
// none or one; schedules with two deviations (thorough: three) at synchronisation;
// unsynchronised uses of maps.
func C28_schedules() {
	w := cluster()
	w.AddTopic("tp", 2)
	idle := nd.Goroutines()
	nd.Config("sched", 2)
	nd.Config("preempt", 2)
	per := 2
	if nd.Thorough() {
		nd.Config("preempt", 3)
		per = 3
	}
	tc, err := utils.NewTopicConsumer("kafka://h:1", "tp", nd.Choose("buffer", 2))
	nd.Assert(err == nil, "consumer is created")
	got := make(chan *sarama.ConsumerMessage, 64)
	stop := make(chan struct{})
	for i := 0; i < 2; i++ {
		go func() {
			for {
				select {
				case m := <-tc.Messages():
					got <- m
				case <-stop:
					return
				}
			}
		}()
	}
	for i := 0; i < per; i++ {
		w.Put("tp", 0, []byte{byte(i)}, nil)
		w.Put("tp", 1, []byte{byte(10 + i)}, nil)
	}
	nd.Settle()
	nd.Config("sched", 0)
	seen := map[byte]bool{}
	nd.Assert(len(got) == 2*per, "everything is delivered, once")
	for len(got) > 0 {
		m := <-got
		nd.Assert(m != nil && !seen[m.Key[0]], "each message once")
		seen[m.Key[0]] = true
	}
	close(stop)
	nd.Assert(tc.Close() == nil, "closed")
	nd.Settle()
	nd.Assert(nd.Goroutines() <= idle && w.Open() == 0 && w.Connected() == 0, "nothing is left open")
	nd.Reach("delivered")
}

// C28_close: closing a consumer.
// Bounds: two partitions with up to three messages each, of which some are
// received, a buffer of none or one; closed once, twice, or by two at once, while messages arrive;
// schedules with one deviation (thorough: two).
func C28_close() {
	w := cluster()
	w.AddTopic("tp", 2)
	idle := nd.Goroutines()
	tc, err := utils.NewTopicConsumer("kafka://h:1", "tp", nd.Choose("buffer", 2))
	nd.Assert(err == nil, "consumer is created")
	for i := nd.Choose("messages", 4); i > 0; i-- {
		w.Put("tp", 0, []byte{1}, nil)
		w.Put("tp", 1, []byte{2}, nil)
	}
	deviations()
	for i := nd.Choose("received", 2); i > 0; i-- {
		select {
		case <-tc.Messages():
		default:
		}
	}
	switch nd.Choose("again", 3) {
	case 1:
		tc.Close()
	case 2:
		go tc.Close()
	}
	if nd.Choose("arrives", 2) == 1 {
		go w.Put("tp", 0, []byte{3}, nil)
	}
	nd.Assert(tc.Close() == nil, "closed")
	nd.Settle()
	nd.Config("sched", 0)
	nd.Assert(w.Open() == 0, "no partition is read any more")
	nd.Assert(w.Connected() == 0, "no connection is left open")
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Reach("closed")
}

// C28_failing: consumers that cannot be created.
// Bounds: no brokers, no such topic, or a cluster one of whose two partitions refuses to be read.
func C28_failing() {
	w := cluster()
	w.Down = false
	idle := nd.Goroutines()
	switch nd.Choose("failure", 3) {
	case 0:
		w.AddTopic("tp", 1)
		w.Down = true
	case 1:
		w.AddTopic("other", 1)
	case 2:
		logs := w.AddTopic("tp", 2)
		logs[nd.Choose("partition", 2)].NoOffs = true
	}
	_, err := utils.NewTopicConsumer("kafka://h:1", "tp", 1)
	nd.Assert(err != nil, "an error is returned")
	nd.Settle()
	nd.Assert(w.Open() == 0, "no partition is read any more")
	nd.Assert(w.Connected() == 0, "no connection is left open")
	nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
	nd.Reach("failed")
}
