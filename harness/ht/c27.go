package ht

import (
	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"

	"verif/harness/nd"
)

// clusterOf starts a cluster with this many brokers.
func clusterOf(n int) *sarama.World {
	w := cluster()
	w.Brokers = n
	return w
}

// schemas of producers whose default topic is "def".
func topicSchemas() []map[string]string {
	return []map[string]string{
		{},
		{"p/": "tp"},
		{"p/": "tp", "s/": "ts"},
		{"p/": "tp", "s/": "tp"},
		{"p/": "def", "s/": "ts"},
	}
}

// needed are the topics of a schema.
func needed(schema map[string]string) map[string]bool {
	r := map[string]bool{"def": true}
	for _, t := range schema {
		r[t] = true
	}
	return r
}

// C27_create: which topics are created, and how.
// Bounds: one to five brokers; five schemas with up to three topics, any of which
// exist with one to three partitions, besides others; a second producer afterwards.
func C27_create() {
	nd.Config("maporder", 1)
	w := clusterOf(1 + nd.Choose("brokers", 5))
	schema := topicSchemas()[nd.Choose("schema", 5)]
	had := map[string]int{"other": 2}
	w.AddTopic("other", 2)
	for _, t := range []string{"def", "tp", "ts"} {
		if needed(schema)[t] {
			if n := nd.Choose("partitions", 4); n > 0 {
				w.AddTopic(t, n)
				had[t] = n
			}
		}
	}
	p, err := transports.NewKafkaProducer("kafka://h:1", "def", schema)
	nd.Assert(err == nil && p != nil, "producer is created")
	nd.Settle()
	made := map[string]*sarama.TopicDetail{}
	for _, c := range w.Created {
		nd.Assert(made[c.Topic] == nil && needed(schema)[c.Topic] && had[c.Topic] == 0, "only what is missing is created, once")
		made[c.Topic] = c.Detail
	}
	rf := w.Brokers
	if rf > 3 {
		rf = 3
	}
	for t := range needed(schema) {
		if had[t] > 0 {
			nd.Assert(len(w.Topics[t]) == had[t], "what exists is left as it is")
			nd.Reach("kept")
			continue
		}
		d := made[t]
		nd.Assert(d != nil, "what is missing is created")
		nd.Assert(d.NumPartitions == int32(2*w.Brokers) && len(w.Topics[t]) == 2*w.Brokers, "two partitions for each broker")
		nd.Assert(int(d.ReplicationFactor) == rf && len(d.ReplicaAssignment) == 0, "replicas")
		e := d.ConfigEntries["max.message.bytes"]
		nd.Assert(len(d.ConfigEntries) == 1 && e != nil && *e == "10000024", "size of messages")
		nd.Reach("created")
	}
	nd.Assert(len(w.Topics) == len(needed(schema))+1, "no other topics")
	nd.Assert(w.Admin() == 0, "administrative connections are closed")
	n, k := w.Connected(), len(w.Created)
	_, err = transports.NewKafkaProducer("kafka://h:1", "def", schema)
	nd.Assert(err == nil, "another producer is created")
	nd.Settle()
	nd.Assert(len(w.Created) == k && w.Admin() == 0, "everything is there")
	nd.Assert(w.Connected() == 2*n, "connections only used to create topics are closed")
}

// C27_failures: whatever goes wrong is reported.
// Bounds: up to three topics, one of which may exist; brokers that cannot be reached, from the start
// or after any number of connections, that have no controller, refuse requests, or refuse one of the topics with an arbitrary
// error; one that somebody else creates in the meantime; a schema with an empty topic.
func C27_failures() {
	nd.Config("maporder", 1)
	w := clusterOf(2)
	schema := topicSchemas()[nd.Choose("schema", 3)]
	topics := []string{"def", "tp", "ts"}[:len(needed(schema))]
	exists := nd.Choose("exists", len(topics)+1)
	if exists < len(topics) {
		w.AddTopic(topics[exists], 1)
	}
	missing := len(topics) > 1 || exists == len(topics)
	at := nd.Choose("topic", len(topics))
	code := sarama.KError(nd.Int64("error"))
	nd.Assume(code != sarama.ErrNoError)
	ok := false
	switch f := nd.Choose("failure", 8); f {
	case 0:
		w.Down = true
	case 1:
		w.NoController = true
	case 2:
		w.NoMetadata = true
	case 3:
		nd.Assume(missing)
		w.NoCreate = true
	case 4:
		nd.Assume(at != exists)
		nd.Assume(code != sarama.ErrTopicAlreadyExists)
		w.Creating = func(t string) sarama.KError {
			if t == topics[at] {
				return code
			}
			return sarama.ErrNoError
		}
	case 5:
		nd.Assume(at != exists)
		ok = true
		w.Creating = func(t string) sarama.KError {
			if t == topics[at] {
				w.AddTopicLocked(t, 3)
			}
			return sarama.ErrNoError
		}
	case 6:
		schema["z/"] = ""
	case 7:
		w.Limit = 1 + nd.Choose("connections", len(topics)+1)
	}
	idle := nd.Goroutines()
	p, err := transports.NewKafkaProducer("kafka://h:1", "def", schema)
	nd.Settle()
	if ok {
		nd.Assert(err == nil && p != nil, "a topic that somebody else created is as good")
		nd.Assert(len(w.Topics[topics[at]]) == 3, "and left as it is")
		for _, t := range topics {
			nd.Assert(len(w.Topics[t]) > 0, "the others are created")
		}
		nd.Reach("created by somebody else")
	} else {
		nd.Assert(err != nil && p == nil, "failure is reported")
		nd.Assert(w.Connected() == 0, "no connection is left open")
		nd.Assert(nd.Goroutines() <= idle, "nothing is left running")
		nd.Reach("failure")
	}
	nd.Assert(w.Admin() == 0, "administrative connections are closed")
}

// C27_together: producers created at the same time.
// Bounds: two producers on the same two topics, one (thorough: two)
// deviations from the default schedule.
func C27_together() {
	nd.Config("sched", 2)
	nd.Config("preempt", 1)
	if nd.Thorough() {
		nd.Config("preempt", 2)
	}
	w := clusterOf(2)
	if nd.Bool("default topic exists") {
		w.AddTopic("def", 1)
	}
	errs := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() {
			_, err := transports.NewKafkaProducer("kafka://h:1", "def", map[string]string{"p/": "tp"})
			errs <- err
		}()
	}
	for i := 0; i < 2; i++ {
		nd.Assert(<-errs == nil, "both are created")
	}
	n := map[string]int{}
	for _, c := range w.Created {
		n[c.Topic]++
	}
	nd.Assert(n["def"] <= 1 && n["tp"] == 1, "topics are created once")
	nd.Reach("both")
}
