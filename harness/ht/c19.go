package ht

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

type noBlocks struct{}

func (noBlocks) BlocksFrom(context.Context, uint64, types.Hash) (chan *delivery.PendingBatch, error) {
	c := make(chan *delivery.PendingBatch)
	close(c)
	return c, nil
}
func (noBlocks) GetBlock(context.Context, uint64) *delivery.PendingBatch { return nil }

var schemes = []string{"kafka", "ws", "wss", "null", "", "http", "kafka2", "KAFKA", "ws s", "cardinal"}

// target chooses a URL: its scheme, its hosts, and whether it comes with the
// cardinal scheme in front.
func target() (scheme, hosts, url string) {
	i := nd.Choose("scheme", len(schemes)+1)
	if i == len(schemes) {
		s := nd.String("scheme", 1+nd.Choose("length", 2))
		for i := 0; i < len(s); i++ {
			nd.Assume(nd.And('a' <= s[i], s[i] <= 'z'))
		}
		return s, "h:1", s + "://h:1"
	}
	scheme, hosts = schemes[i], hostLists[nd.Choose("hosts", len(hostLists))]
	url = scheme + "://" + hosts
	if nd.Choose("cardinal", 2) == 1 {
		url = "cardinal://" + url
	}
	return scheme, hosts, url
}

// brokers checks that all connections go to the hosts.
func brokers(w *sarama.World, hosts string) {
	nd.Assert(len(w.Clients) > 0, "connected")
	for _, c := range w.Clients {
		nd.Assert(strings.Join(c.Addrs, ",") == hosts, "the brokers of the URL")
	}
}

var hostLists = []string{"h:1", "h", "a:1,b:2", "a,b,c:9092"}

// C19_consumer: the transport of a consumer.
// Bounds: URLs with or without the cardinal scheme in front, with one of ten
// schemes and four lists of hosts; and any scheme of up to two lower-case letters.
func C19_consumer() {
	w := cluster()
	w.AddTopic("def", 1)
	var dialed []string
	websocket.Accept = func(url string) (*websocket.Conn, error) {
		dialed = append(dialed, url)
		return nil, errors.New("refused")
	}
	s, h, url := target()
	c, err := transports.ResolveConsumer(url, "def", []string{"def"}, nil, 0, consumerConfig())
	switch s {
	case "kafka":
		nd.Assert(err == nil && c != nil, "a consumer")
		nd.Assert(c.Start() == nil, "started")
		brokers(w, h)
		nd.Assert(len(w.Started) == 1, "the topic is read")
		nd.Reach("kafka")
	case "ws", "wss":
		nd.Assert(err == nil && c != nil, "a consumer")
		go c.Start()
		nd.Settle()
		nd.Assert(len(w.Clients) == 0, "no broker")
		nd.Assert(len(dialed) == 1 && dialed[0] == s+"://"+h, "the URL is dialed")
		nd.Reach("websocket")
	case "null":
		nd.Assert(err == nil && c != nil, "a consumer")
		nd.Assert(c.Start() == nil, "started")
		<-c.Ready()
		nd.Assert(len(w.Clients) == 0 && len(dialed) == 0, "no connection")
		c.Close()
		nd.Reach("null")
	default:
		nd.Assert(err != nil, "anything else is refused")
		nd.Assert(len(w.Clients) == 0 && len(dialed) == 0, "no connection")
		nd.Reach("refused")
	}
}

// C19_producer: the transport of a producer.
// Bounds: as for consumers.
func C19_producer() {
	w := cluster()
	s, h, url := target()
	old := nd.Choose("deprecated", 2) == 1
	var p transports.Producer
	var err error
	if old {
		p, err = transports.ResolveProducer(url, "def", kafkaSchema)
	} else {
		p, err = transports.ResolveProducerWithResumer(url, "def", kafkaSchema, noBlocks{})
	}
	switch {
	case s == "kafka":
		nd.Assert(err == nil && p != nil, "a producer")
		brokers(w, h)
		nd.Assert(len(w.Topics) == 3 && w.Topics["def"] != nil && w.Topics["tp"] != nil && w.Topics["ts"] != nil, "the topics exist")
		nd.Reach("kafka")
	case (s == "ws" || s == "wss") && !old:
		// the port is where the producer serves
		nd.Assert((err == nil) == strings.Contains(h[strings.LastIndex(h, ",")+1:], ":"), "a port is needed")
		nd.Assert(len(w.Clients) == 0, "no broker")
		nd.Reach("websocket")
	default:
		nd.Assert(err != nil, "anything else is refused")
		nd.Assert(len(w.Clients) == 0, "no connection")
		nd.Reach("refused")
	}
}

// settings are the options a URL can set.
type settings struct {
	tls, idempotent, sasl bool
	fetch                 int32
	wait, backoff         time.Duration
	codec                 sarama.CompressionCodec
	retries, open         int
	acks                  sarama.RequiredAcks
	user, password        string
	mechanism             sarama.SASLMechanism
	scram                 bool
	version               sarama.KafkaVersion
	max                   int
}

func settingsOf(c *sarama.Config) settings {
	return settings{c.Net.TLS.Enable, c.Producer.Idempotent, c.Net.SASL.Enable, c.Consumer.Fetch.Default, c.Consumer.MaxWaitTime,
		c.Producer.Retry.Backoff, c.Producer.Compression, c.Producer.Retry.Max, c.Net.MaxOpenRequests, c.Producer.RequiredAcks,
		c.Net.SASL.User, c.Net.SASL.Password, c.Net.SASL.Mechanism, c.Net.SASL.SCRAMClientGeneratorFunc != nil, c.Version, c.Producer.MaxMessageBytes}
}

// defaults are the settings of a URL without options.
func defaults() settings {
	s := settingsOf(sarama.NewConfig())
	s.codec = sarama.CompressionSnappy
	s.retries = 100
	s.acks = sarama.WaitForAll
	return s
}

// plain is a text of n letters, digits or dashes.
func plain(label string, n int) string {
	s := nd.String(label, n)
	for i := 0; i < n; i++ {
		nd.Assume(nd.Or(nd.And('0' <= s[i], s[i] <= '9'), nd.And('a' <= s[i], s[i] <= 'z'), nd.And('A' <= s[i], s[i] <= 'Z'), s[i] == '-'))
	}
	return s
}

var numbers = []string{"0", "7", "-1", "123456", "2147483647", "2147483648", "4294967297", "65537", "32768", "x", "1e3", "9223372036854775808", ""}

// numeric chooses the text of a number, or not of a number.
func numeric() string {
	if i := nd.Choose("number", len(numbers)+1); i < len(numbers) {
		return numbers[i]
	}
	return plain("number", 1+nd.Choose("digits", 3))
}

// option chooses an option and applies it to the expected settings.
func option(s *settings) string {
	switch nd.Choose("option", 10) {
	case 0:
		v := plain("tls", nd.Choose("length", 3))
		s.tls = v == "1"
		return "tls=" + v
	case 1:
		v := numeric()
		if n, ok := number(v); ok && n == int64(int32(n)) {
			s.fetch = int32(n)
		}
		return "fetch.default=" + v
	case 2:
		v := numeric()
		if n, ok := number(v); ok {
			s.wait = time.Duration(n) * time.Millisecond
		}
		return "max.waittime=" + v
	case 3:
		codecs := map[string]sarama.CompressionCodec{"gzip": sarama.CompressionGZIP, "none": sarama.CompressionNone, "lz4": sarama.CompressionLZ4, "zstd": sarama.CompressionZSTD, "snappy": sarama.CompressionSnappy}
		names := []string{"gzip", "none", "lz4", "zstd", "snappy", "GZIP", ""}
		i := nd.Choose("codec", len(names)+1)
		if i == len(names) {
			return "compression.codec=" + plain("codec", 2)
		}
		if c, ok := codecs[names[i]]; ok {
			s.codec = c
		}
		return "compression.codec=" + names[i]
	case 4:
		v := numeric()
		if n, ok := number(v); ok {
			s.retries = int(n)
		}
		return "message.send.max.retries=" + v
	case 5:
		v := numeric()
		if n, ok := number(v); ok && n == int64(int16(n)) {
			s.acks = sarama.RequiredAcks(n)
		}
		return "request.required.acks=" + v
	case 6:
		v := numeric()
		if n, ok := number(v); ok {
			s.backoff = time.Duration(n) * time.Millisecond
		}
		return "retry.backoff.ms=" + v
	case 7:
		v := numeric()
		if n, ok := number(v); ok {
			s.open = int(n)
		}
		return "net.maxopenrequests=" + v
	case 8:
		v := plain("idempotent", nd.Choose("length", 3))
		s.idempotent = v == "1"
		return "idempotent=" + v
	}
	names := []string{"SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI", "PLAIN", ""}
	v := names[nd.Choose("mechanism", len(names))]
	switch v {
	case "SCRAM-SHA-256":
		s.mechanism, s.scram = sarama.SASLTypeSCRAMSHA256, true
	case "SCRAM-SHA-512":
		s.mechanism, s.scram = sarama.SASLTypeSCRAMSHA512, true
	case "GSSAPI":
		s.mechanism = sarama.SASLTypeGSSAPI
	}
	return "sasl.mechanism=" + v
}

var fronts = []string{"", "kafka://", "cardinal://kafka://"}

// C19_options: what the options of a Kafka URL set.
// Bounds: one option of ten, with a text of a list or of up to three letters,
// digits or dashes, alone or between two options that are not known; with and
// without the schemes in front.
// Weight: 2
func C19_options() {
	want := defaults()
	url := fronts[nd.Choose("scheme", 3)] + "h:1?"
	if nd.Choose("unknown", 2) == 1 {
		url += "unknown=1&" + option(&want) + "&compression=gzip"
	} else {
		url += option(&want)
	}
	_, conf := transports.ParseKafkaURL(url)
	nd.Assert(conf != nil, "a configuration")
	nd.Assert(settingsOf(conf) == want, "the options of the URL, and defaults")
	nd.Reach("parsed")
}

// C19_address: the brokers and the user of a Kafka URL.
// Bounds: four lists of hosts; with a user and password of up to two arbitrary
// letters or digits or without; with a path or without.
func C19_address() {
	want := defaults()
	h := hostLists[nd.Choose("hosts", len(hostLists))]
	url := h
	switch nd.Choose("user", 3) {
	case 1:
		want.sasl, want.user, want.password = true, plain("user", 1), plain("password", 1)
		url = want.user + ":" + want.password + "@" + url
	case 2:
		want.sasl, want.user = true, plain("user", 2)
		url = want.user + "@" + url
	}
	url += []string{"", "/", "/x", "?", "/?tls=0"}[nd.Choose("rest", 5)]
	addrs, conf := transports.ParseKafkaURL(fronts[2] + url)
	nd.Assert(strings.Join(addrs, ",") == h, "the brokers of the URL")
	nd.Assert(conf != nil, "a configuration")
	nd.Assert(settingsOf(conf) == want, "the options of the URL, and defaults")
	nd.Reach("parsed")
}

// C19_pairs: options do not affect each other.
// Bounds: two different options out of five with fixed values, in both orders.
func C19_pairs() {
	want := defaults()
	opts := []string{"tls=1", "fetch.default=5", "max.waittime=6", "compression.codec=lz4", "message.send.max.retries=3", "request.required.acks=1", "retry.backoff.ms=9", "net.maxopenrequests=2", "idempotent=1", "sasl.mechanism=SCRAM-SHA-512"}
	set := []func(){func() { want.tls = true }, func() { want.fetch = 5 }, func() { want.wait = 6 * time.Millisecond }, func() { want.codec = sarama.CompressionLZ4 },
		func() { want.retries = 3 }, func() { want.acks = 1 }, func() { want.backoff = 9 * time.Millisecond }, func() { want.open = 2 }, func() { want.idempotent = true },
		func() { want.mechanism, want.scram = sarama.SASLTypeSCRAMSHA512, true }}
	a, b := nd.Choose("option", len(opts)), nd.Choose("option", len(opts))
	set[a]()
	set[b]()
	_, conf := transports.ParseKafkaURL("kafka://h:1?" + opts[a] + "&" + opts[b])
	nd.Assert(settingsOf(conf) == want, "the options of the URL, and defaults")
	nd.Reach("parsed")
}

// C19_used: the options reach every connection.
// Bounds: producers, consumers, tokens for timestamps and topic creation; three options.
func C19_used() {
	w := cluster()
	w.AddTopic("def", 1)
	url := "kafka://u:p@a:1,b:2?tls=1&compression.codec=gzip&fetch.default=77"
	if nd.Choose("cardinal", 2) == 1 {
		url = "cardinal://" + url
	}
	var err error
	switch nd.Choose("use", 4) {
	case 0:
		_, err = transports.ResolveProducerWithResumer(url, "def", kafkaSchema, nil)
	case 1:
		var c transports.Consumer
		c, err = transports.ResolveConsumer(url, "def", []string{"def"}, nil, 0, consumerConfig())
		nd.Assert(c.Start() == nil, "started")
	case 2:
		_, err = transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: url, Topics: []string{"def"}}}, 0)
	case 3:
		var p transports.Producer
		p, err = transports.ResolveProducer(url, "def", kafkaSchema)
		_, err2 := p.LatestBlockFromFeed()
		nd.Assert(err2 == nil, "latest block")
	}
	nd.Assert(err == nil, "resolved")
	brokers(w, "a:1,b:2")
	for _, c := range w.Clients {
		s := settingsOf(c.Conf)
		nd.Assert(s.tls && s.codec == sarama.CompressionGZIP && s.fetch == 77 && s.sasl && s.user == "u" && s.password == "p", "the options of the URL")
	}
	nd.Reach("used")
}

// C19_malformed: URLs that cannot be parsed are refused.
// Bounds: a Kafka URL with one arbitrary byte as, in or after its host.
func C19_malformed() {
	w := cluster()
	w.AddTopic("def", 1)
	b := nd.String("byte", 1)
	url := "kafka://" + []string{b, "h" + b + ":1", "h:1/" + b, "h:1" + b, b + "@h:1"}[nd.Choose("place", 5)]
	var err error
	switch nd.Choose("use", 3) {
	case 0:
		_, err = transports.ResolveProducerWithResumer(url, "def", kafkaSchema, nil)
	case 1:
		_, err = transports.ResolveConsumer(url, "def", []string{"def"}, nil, 0, consumerConfig())
	case 2:
		_, err = transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: url, Topics: []string{"def"}}}, 0)
	}
	if err == nil {
		for _, c := range w.Clients {
			nd.Assert(len(c.Addrs) > 0, "brokers to connect to")
		}
		nd.Reach("accepted")
	} else {
		nd.Reach("refused")
	}
}
