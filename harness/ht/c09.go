package ht

import (
	"strconv"
	"strings"
	"time"

	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

// fill makes a partition hold n messages from offset start on.
func fill(l *sarama.Log, topic string, part int, start int64, n int) {
	l.Start = start
	for i := 0; i < n; i++ {
		l.Msgs = append(l.Msgs, &sarama.ConsumerMessage{Topic: topic, Partition: int32(part), Offset: start + int64(i)})
	}
}

// positions are where a partition is expected to be opened, in order of
// preference.
func positions(l *sarama.Log, named bool, offset, rollback int64, empty bool) []int64 {
	end := l.Start + int64(len(l.Msgs))
	switch {
	case named && offset >= rollback:
		return []int64{offset - rollback, offset}
	case empty && len(l.Msgs) > 0:
		return []int64{end - 1, end}
	case empty:
		return []int64{end}
	}
	return []int64{l.Start}
}

// opened checks where the partitions were opened.
func opened(w *sarama.World, err error, want [][]int64, ok func(part int, at int64) bool) {
	var at []int64
	for i, ps := range want {
		for _, p := range ps {
			if ok(i, p) {
				at = append(at, p)
				break
			}
		}
		if len(at) == i {
			nd.Assert(err != nil, "starting fails when no position is accepted")
			nd.Reach("failed")
			return
		}
	}
	nd.Assert(err == nil, "started")
	nd.Assert(len(w.Started) == len(want), "every partition is read once")
	for _, s := range w.Started {
		nd.Assert(s.At == at[s.Partition], "started where the token says")
	}
	nd.Reach("started")
}

func startAt(token string, rollback int64, empty bool) (transports.Consumer, error) {
	cfg := consumerConfig()
	if empty {
		cfg.LastHash = types.Hash{}
	}
	return transports.NewKafkaConsumer("kafka://h:1", "def", []string{"def"}, []byte(token), rollback, cfg)
}

// C09_start: where a partition is opened.
// Bounds: two partitions, one with two messages from any offset on, the other
// empty or like it; a token that names none, one or both of them (and others),
// with three offsets; any rollback; a starting hash or none.
func C09_start() {
	w := cluster()
	ls := w.AddTopic("def", 2)
	first := nd.Int64("first")
	nd.Assume(first >= 0 && first < 1<<40)
	fill(ls[0], "def", 0, first, 2)
	fill(ls[1], "def", 1, first, 2*nd.Choose("messages", 2))
	rollback := nd.Int64("rollback")
	nd.Assume(rollback >= 0)
	empty := nd.Choose("empty", 2) == 1
	var entries []string
	named := [2]bool{}
	offset := [2]int64{}
	for i := range named {
		if k := nd.Choose("named", 4); k > 0 {
			named[i], offset[i] = true, []int64{0, 7, 1 << 33}[k-1]
			entries = append(entries, "def:"+strconv.Itoa(i)+"="+strconv.FormatInt(offset[i], 10))
		}
	}
	switch nd.Choose("others", 4) {
	case 1:
		entries = append([]string{"tp:0=9"}, entries...)
	case 2:
		entries = append(entries, "", "def:0=1=2", "def:1")
	case 3:
		entries = append(entries, "def:2=5", "def:10=6", "de:0=1", "def:=3")
	}
	c, err := startAt(strings.Join(entries, ";"), rollback, empty)
	nd.Assert(err == nil, "consumer is created")
	err = c.Start()
	var want [][]int64
	for i, l := range ls {
		want = append(want, positions(l, named[i], offset[i], rollback, empty))
	}
	opened(w, err, want, func(i int, at int64) bool { return at >= first && at <= first+int64(len(ls[i].Msgs)) })
}

// C09_refused: positions the broker refuses.
// Bounds: a partition whose broker refuses any two positions; a token with one of
// two offsets or none; rollbacks up to 3; offset queries that fail.
func C09_refused() {
	w := cluster()
	l := w.AddTopic("def", 1)[0]
	fill(l, "def", 0, 10, 10)
	a, b := nd.Int64("refused"), nd.Int64("refused")
	l.Refuse = func(at int64) bool {
		if at == sarama.OffsetOldest {
			at = 10
		}
		if at == sarama.OffsetNewest {
			at = 20
		}
		return nd.Or(at == a, at == b)
	}
	rollback := int64(nd.Choose("rollback", 4))
	empty := nd.Choose("empty", 2) == 1
	named := nd.Choose("named", 3)
	token, offset := "", int64(0)
	if named > 0 {
		offset = []int64{12, 20}[named-1]
		token = "def:0=" + strconv.FormatInt(offset, 10)
	}
	c, err := startAt(token, rollback, empty)
	nd.Assert(err == nil, "consumer is created")
	err = c.Start()
	opened(w, err, [][]int64{positions(l, named > 0, offset, rollback, empty)}, func(_ int, at int64) bool {
		return at >= 10 && at <= 20 && !(nd.Or(at == a, at == b))
	})
}

// C09_token: what passes for a token.
// Bounds: two offsets of up to two arbitrary bytes each, and an offset of 19 or 20
// digits, of which the last is arbitrary.
func C09_token() {
	w := cluster()
	ls := w.AddTopic("def", 2)
	var text [2]string
	if nd.Choose("long", 2) == 1 {
		text[0] = "922337203685477580" + nd.String("last", 1)
		if nd.Choose("longer", 2) == 1 {
			text[0] = "1" + text[0]
		}
	} else {
		text[0] = nd.String("offset", nd.Choose("length", 3))
		text[1] = nd.String("offset", nd.Choose("length", 2))
	}
	for _, t := range text {
		for i := 0; i < len(t); i++ {
			nd.Assume(t[i] != ';' && t[i] != '=')
		}
	}
	fill(ls[0], "def", 0, 0, 120)
	fill(ls[1], "def", 1, 0, 120)
	token := "def:0=" + text[0]
	if text[1] != "" {
		token += ";def:1=" + text[1]
	}
	c, err := startAt(token, 0, false)
	ok := true
	var want [2]int64
	for i, t := range text {
		if i == 1 && t == "" {
			break
		}
		n, good := number(t)
		want[i], ok = n, ok && good
	}
	if !ok {
		nd.Assert(err != nil, "a token with an offset that is no number is refused")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil, "token is accepted")
	err = c.Start()
	opened(w, err, [][]int64{positions(ls[0], true, want[0], 0, false), positions(ls[1], text[1] != "", want[1], 0, false)}, func(_ int, at int64) bool { return at >= 0 && at <= 120 })
}

// number is the value of a decimal number.
func number(t string) (int64, bool) {
	neg := false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg, t = t[0] == '-', t[1:]
	}
	if t == "" {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(t); i++ {
		d := t[i] - '0'
		if d > 9 || n > (1<<63-1)/10 {
			return 0, false
		}
		n = n*10 + uint64(d)
		if n > 1<<63-1 {
			return 0, false
		}
	}
	if neg {
		return -int64(n), true
	}
	return int64(n), true
}

// C09_timestamp: tokens for a point in time.
// Bounds: two partitions of two topics with up to two messages each, at any
// milliseconds; any timestamp; with or without a starting hash.
func C09_timestamp() {
	w := cluster()
	topics := []string{"def", "tp"}
	var ls []*sarama.Log
	for i, t := range topics {
		l := w.AddTopic(t, 1)[0]
		fill(l, t, 0, int64(5*i), 2*nd.Choose("messages", 2))
		last := int64(0)
		for _, m := range l.Msgs {
			at := last + int64(nd.Byte("at"))
			last = at
			m.Timestamp = time.Unix(0, at*1000000)
		}
		ls = append(ls, l)
	}
	timestamp := int64(nd.Byte("timestamp"))
	cfg := consumerConfig()
	if nd.Choose("empty", 2) == 1 {
		cfg.LastHash = types.Hash{}
	}
	token, err := transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: "kafka://h:1", DefaultTopic: "def", Topics: topics}}, timestamp)
	nd.Assert(err == nil, "token is made")
	nd.Settle()
	nd.Assert(w.Connected() == 0, "no connection is left open")
	for _, t := range topics {
		nd.Assert(strings.Contains(";"+string(token), ";"+t+":0="), "every partition is named")
	}
	c, err := transports.NewKafkaConsumer("kafka://h:1", "def", topics, token, 0, cfg)
	nd.Assert(err == nil, "consumer is created")
	nd.Assert(c.Start() == nil, "started")
	nd.Assert(len(w.Started) == 2, "every partition is read once")
	for i, l := range ls {
		for _, m := range l.Msgs {
			if m.Timestamp.UnixNano()/1000000 >= timestamp {
				nd.Assert(w.Started[i].At == m.Offset, "the first message that is not older")
				nd.Reach("found")
				break
			}
		}
	}
}

// C09_brokers: consumers of several brokers.
// Bounds: two brokers, a topic each, with two messages; a token
// that names one or both, or one made for a point in time on both; any rollback on
// each of them; a starting hash or none.
func C09_brokers() {
	w := cluster()
	topics := []string{"def", "def2"}
	const first = 5
	params := []transports.BrokerParams{{URL: "kafka://a:1"}, {URL: "cardinal://kafka://b:1"}}
	var ls []*sarama.Log
	for i, t := range topics {
		l := w.AddTopic(t, 1)[0]
		fill(l, t, 0, first, 2)
		for j, m := range l.Msgs {
			m.Timestamp = time.Unix(int64(10*j), 0)
		}
		ls = append(ls, l)
		rollback := nd.Int64("rollback")
		nd.Assume(rollback >= 0)
		params[i].DefaultTopic, params[i].Topics, params[i].Rollback = t, []string{t}, rollback
	}
	empty := nd.Choose("empty", 2) == 1
	cfg := consumerConfig()
	if empty {
		cfg.LastHash = types.Hash{}
	}
	named := [2]bool{}
	offset := [2]int64{}
	var token []byte
	if nd.Choose("timestamp", 2) == 1 {
		t, err := transports.ResumptionForTimestamp(params, 5000)
		nd.Assert(err == nil, "token is made")
		token = t
		for i := range named {
			named[i], offset[i] = true, 6
		}
	} else {
		var entries []string
		for i, t := range topics {
			if k := nd.Choose("named", 3); k > 0 {
				named[i], offset[i] = true, []int64{6, 1 << 33}[k-1]
				entries = append(entries, t+":0="+strconv.FormatInt(offset[i], 10))
			}
		}
		token = []byte(strings.Join(entries, ";"))
	}
	c, err := transports.ResolveMuxConsumer(params, token, cfg)
	nd.Assert(err == nil, "consumer is created")
	err = c.Start()
	nd.Settle()
	readable := 0
	for i, l := range ls {
		at, ok := int64(0), false
		for _, p := range positions(l, named[i], offset[i], params[i].Rollback, empty) {
			if !ok && p >= first && p <= first+2 {
				at, ok = p, true
			}
		}
		opened := 0
		for _, s := range w.Started {
			if s.Topic == topics[i] {
				opened++
				nd.Assert(s.At == at, "started where the token says, by the rollback of the broker")
			}
		}
		if ok {
			readable++
			nd.Assert(opened == 1, "every partition is read once")
		} else {
			nd.Assert(opened == 0, "refused positions are not read")
		}
	}
	nd.Assert((err == nil) == (readable > 0), "starts if a broker can be read")
	if readable == 2 {
		nd.Reach("both")
	}
	c.Close()
	nd.Settle()
	nd.Assert(w.Connected() == 0, "no connection is left open")
}
