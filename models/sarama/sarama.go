// Package sarama stands in for github.com/Shopify/sarama: brokers are logs in
// memory, with the client semantics the repository relies on (offset checks,
// high-water marks as of the fetch, close protocols, asynchronous producer
// errors) written after version 1.28.0.
package sarama

import (
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"sync"
	"time"
)

type StdLogger interface {
	Print(v ...interface{})
	Printf(format string, v ...interface{})
	Println(v ...interface{})
}

var Logger StdLogger = log.New(ioutil.Discard, "[Sarama] ", log.LstdFlags)

const (
	OffsetNewest int64 = -1
	OffsetOldest int64 = -2
)

type KafkaVersion struct{ version [4]uint }

var V2_5_0_0 = KafkaVersion{[4]uint{2, 5, 0, 0}}

type CompressionCodec int8

const (
	CompressionNone CompressionCodec = iota
	CompressionGZIP
	CompressionSnappy
	CompressionLZ4
	CompressionZSTD
)

type RequiredAcks int16

const (
	NoResponse   RequiredAcks = 0
	WaitForLocal RequiredAcks = 1
	WaitForAll   RequiredAcks = -1
)

type SASLMechanism string

const (
	SASLTypeOAuth       = "OAUTHBEARER"
	SASLTypePlaintext   = "PLAIN"
	SASLTypeSCRAMSHA256 = "SCRAM-SHA-256"
	SASLTypeSCRAMSHA512 = "SCRAM-SHA-512"
	SASLTypeGSSAPI      = "GSSAPI"
)

type SCRAMClient interface {
	Begin(userName, password, authzID string) error
	Step(challenge string) (response string, err error)
	Done() bool
}

type KError int16

const (
	ErrNoError                  KError = 0
	ErrOffsetOutOfRange         KError = 1
	ErrUnknownTopicOrPartition  KError = 3
	ErrTopicAuthorizationFailed KError = 29
	ErrTopicAlreadyExists       KError = 36
	ErrInvalidPartitions        KError = 37
)

func (e KError) Error() string { return "kafka server: error" }

type ConfigurationError string

func (e ConfigurationError) Error() string { return "kafka: invalid configuration (" + string(e) + ")" }

var (
	ErrOutOfBrokers           = errors.New("kafka: client has run out of available brokers to talk to (Is your cluster reachable?)")
	ErrControllerNotAvailable = errors.New("kafka: controller is not available")
	ErrNotConnected           = errors.New("kafka: broker not connected")
	ErrAlreadyConnected       = errors.New("kafka: broker connection already initiated")
	ErrClosedClient           = errors.New("kafka: tried to use a client that was closed")
)

type Config struct {
	Net struct {
		MaxOpenRequests                        int
		DialTimeout, ReadTimeout, WriteTimeout time.Duration
		TLS                                    struct {
			Enable bool
		}
		SASL struct {
			Enable                   bool
			Mechanism                SASLMechanism
			Version                  int16
			Handshake                bool
			AuthIdentity             string
			User                     string
			Password                 string
			SCRAMAuthzID             string
			SCRAMClientGeneratorFunc func() SCRAMClient
		}
		KeepAlive time.Duration
	}
	Metadata struct {
		Retry struct {
			Max     int
			Backoff time.Duration
		}
		RefreshFrequency time.Duration
		Full             bool
		Timeout          time.Duration
	}
	Producer struct {
		MaxMessageBytes  int
		RequiredAcks     RequiredAcks
		Timeout          time.Duration
		Compression      CompressionCodec
		CompressionLevel int
		Idempotent       bool
		Return           struct {
			Successes bool
			Errors    bool
		}
		Flush struct {
			Bytes, Messages int
			Frequency       time.Duration
			MaxMessages     int
		}
		Retry struct {
			Max     int
			Backoff time.Duration
		}
	}
	Consumer struct {
		Retry struct {
			Backoff time.Duration
		}
		Fetch struct {
			Min, Default, Max int32
		}
		MaxWaitTime       time.Duration
		MaxProcessingTime time.Duration
		Return            struct {
			Errors bool
		}
		Offsets struct {
			AutoCommit struct {
				Enable   bool
				Interval time.Duration
			}
			Initial int64
			Retry   struct {
				Max int
			}
		}
	}
	ClientID          string
	RackID            string
	ChannelBufferSize int
	Version           KafkaVersion
}

// NewConfig has the defaults of sarama 1.28.0.
func NewConfig() *Config {
	c := &Config{}
	c.Net.MaxOpenRequests = 5
	c.Net.DialTimeout = 30 * time.Second
	c.Net.ReadTimeout = 30 * time.Second
	c.Net.WriteTimeout = 30 * time.Second
	c.Net.SASL.Handshake = true
	c.Metadata.Retry.Max = 3
	c.Metadata.Retry.Backoff = 250 * time.Millisecond
	c.Metadata.RefreshFrequency = 10 * time.Minute
	c.Metadata.Full = true
	c.Producer.MaxMessageBytes = 1000000
	c.Producer.RequiredAcks = WaitForLocal
	c.Producer.Timeout = 10 * time.Second
	c.Producer.Retry.Max = 3
	c.Producer.Retry.Backoff = 100 * time.Millisecond
	c.Producer.Return.Errors = true
	c.Producer.CompressionLevel = -1000
	c.Consumer.Fetch.Min = 1
	c.Consumer.Fetch.Default = 1024 * 1024
	c.Consumer.Retry.Backoff = 2 * time.Second
	c.Consumer.MaxWaitTime = 250 * time.Millisecond
	c.Consumer.MaxProcessingTime = 100 * time.Millisecond
	c.Consumer.Offsets.AutoCommit.Enable = true
	c.Consumer.Offsets.AutoCommit.Interval = time.Second
	c.Consumer.Offsets.Initial = OffsetNewest
	c.Consumer.Offsets.Retry.Max = 3
	c.ClientID = "sarama"
	c.ChannelBufferSize = 256
	c.Version = V2_5_0_0
	return c
}

// ---- the cluster (controlled by the harness) ----

// Log is a partition.
type Log struct {
	Start  int64 // oldest available offset
	Msgs   []*ConsumerMessage
	Refuse func(offset int64) bool // start positions refused besides those out of range
	NoOffs bool                    // offset queries fail
	change chan struct{}
}

func (l *Log) end() int64 {
	if len(l.Msgs) == 0 {
		return l.Start
	}
	return l.Msgs[len(l.Msgs)-1].Offset + 1
}

// World is the cluster all clients talk to.
type World struct {
	mu        sync.Mutex
	Topics    map[string][]*Log
	Partition func(topic string, key []byte) int // where a message goes
	Fail      func(m *ProducerMessage) error     // broker errors
	Limit     int                                // how many more connections are accepted, if not 0; -1 for none
	Down      bool                               // no broker reachable
	Clients   []*ClientInfo
	Started   []Start
	Sent      []*ProducerMessage // accepted by producers, in order
	Reported  int                // errors received from producers
	Reading   int                // partitions being read
	open      int                // clients that are not closed

	Brokers      int                       // size of the cluster, one if unset
	NoController bool                      // the cluster has no controller
	NoMetadata   bool                      // metadata requests fail
	NoCreate     bool                      // requests to create topics fail
	Creating     func(topic string) KError // the outcome of creating a topic, called before it is
	Created      []Creation                // topics created by clients
	admin        int                       // connections to brokers that are not closed
}

// Creation records a topic created by a client.
type Creation struct {
	Topic  string
	Detail *TopicDetail
}

// Admin is the number of administrative connections to brokers.
func (w *World) Admin() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.admin
}

// ClientInfo records a connection.
type ClientInfo struct {
	Addrs []string
	Conf  *Config
}

// Start records a successful ConsumePartition call.
type Start struct {
	Topic     string
	Partition int32
	Asked     int64
	At        int64
}

var W = NewWorld()

func NewWorld() *World {
	return &World{Topics: map[string][]*Log{}}
}

// AddTopic creates a topic with n partitions.
func (w *World) AddTopic(name string, n int) []*Log {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.addTopic(name, n)
}

func (w *World) addTopic(name string, n int) []*Log {
	for i := 0; i < n; i++ {
		w.Topics[name] = append(w.Topics[name], &Log{change: make(chan struct{})})
	}
	return w.Topics[name]
}

// AddTopicLocked creates a topic out of Creating.
func (w *World) AddTopicLocked(name string, n int) { w.addTopic(name, n) }

// AddTopicOnce creates a topic with one partition if there is none.
func (w *World) AddTopicOnce(name string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.Topics[name]) == 0 {
		w.addTopic(name, 1)
	}
}

// Open is the number of partitions being read.
func (w *World) Open() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.Reading
}

// Put appends a message.
func (w *World) Put(topic string, part int, key, value []byte) *ConsumerMessage {
	return w.PutAt(topic, part, key, value, time.Time{})
}

func (w *World) PutAt(topic string, part int, key, value []byte, at time.Time) *ConsumerMessage {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.Topics[topic][part]
	m := &ConsumerMessage{Key: key, Value: value, Topic: topic, Partition: int32(part), Offset: l.end(), Timestamp: at}
	l.Msgs = append(l.Msgs, m)
	close(l.change)
	l.change = make(chan struct{})
	return m
}

func (w *World) log(topic string, part int32) (*Log, error) {
	ls, ok := w.Topics[topic]
	if !ok || part < 0 || int(part) >= len(ls) {
		return nil, ErrUnknownTopicOrPartition
	}
	return ls[part], nil
}

// ---- client ----

type Client interface {
	Config() *Config
	Controller() (*Broker, error)
	Brokers() []*Broker
	Topics() ([]string, error)
	Partitions(topic string) ([]int32, error)
	GetOffset(topic string, partitionID int32, time int64) (int64, error)
	Close() error
	Closed() bool
}

type client struct {
	conf   *Config
	mu     sync.Mutex
	closed bool
}

func NewClient(addrs []string, conf *Config) (Client, error) {
	if conf == nil {
		conf = NewConfig()
	}
	if len(addrs) < 1 {
		return nil, ConfigurationError("You must provide at least one broker address")
	}
	W.mu.Lock()
	defer W.mu.Unlock()
	if W.Down || W.Limit < 0 {
		return nil, ErrOutOfBrokers
	}
	if W.Limit > 0 {
		if W.Limit--; W.Limit == 0 {
			W.Limit = -1
		}
	}
	W.Clients = append(W.Clients, &ClientInfo{addrs, conf})
	W.open++
	return &client{conf: conf}, nil
}

func (c *client) Config() *Config { return c.conf }

func (c *client) Controller() (*Broker, error) {
	if c.Closed() {
		return nil, ErrClosedClient
	}
	W.mu.Lock()
	defer W.mu.Unlock()
	if W.NoController {
		return nil, ErrControllerNotAvailable
	}
	b := &Broker{open: true}
	W.admin++
	return b, nil
}

func (c *client) Brokers() []*Broker {
	n := W.Brokers
	if n == 0 {
		n = 1
	}
	r := make([]*Broker, n)
	for i := range r {
		r[i] = &Broker{}
	}
	return r
}

func (c *client) Topics() ([]string, error) {
	W.mu.Lock()
	defer W.mu.Unlock()
	var r []string
	for t := range W.Topics {
		r = append(r, t)
	}
	return r, nil
}

func (c *client) Partitions(topic string) ([]int32, error) {
	if c.Closed() {
		return nil, ErrClosedClient
	}
	W.mu.Lock()
	defer W.mu.Unlock()
	ls, ok := W.Topics[topic]
	if !ok {
		return nil, ErrUnknownTopicOrPartition
	}
	r := make([]int32, len(ls))
	for i := range ls {
		r[i] = int32(i)
	}
	return r, nil
}

func (c *client) GetOffset(topic string, partitionID int32, t int64) (int64, error) {
	if c.Closed() {
		return -1, ErrClosedClient
	}
	W.mu.Lock()
	defer W.mu.Unlock()
	l, err := W.log(topic, partitionID)
	if err != nil {
		return -1, err
	}
	if l.NoOffs {
		return -1, ErrOutOfBrokers
	}
	switch t {
	case OffsetNewest:
		return l.end(), nil
	case OffsetOldest:
		return l.Start, nil
	}
	for _, m := range l.Msgs {
		if m.Timestamp.UnixNano()/int64(time.Millisecond) >= t {
			return m.Offset, nil
		}
	}
	return -1, nil
}

func (c *client) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return ErrClosedClient
	}
	c.closed = true
	W.mu.Lock()
	W.open--
	W.mu.Unlock()
	return nil
}

func (c *client) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// ---- broker administration ----

// Broker is a connection to a broker; the controller comes open.
type Broker struct{ open bool }

func (b *Broker) Open(conf *Config) error {
	W.mu.Lock()
	defer W.mu.Unlock()
	if b.open {
		return ErrAlreadyConnected
	}
	b.open = true
	W.admin++
	return nil
}

func (b *Broker) Close() error {
	W.mu.Lock()
	defer W.mu.Unlock()
	if !b.open {
		return ErrNotConnected
	}
	b.open = false
	W.admin--
	return nil
}

type MetadataRequest struct {
	Version                int16
	Topics                 []string
	AllowAutoTopicCreation bool
}

type PartitionMetadata struct {
	Err KError
	ID  int32
}

type TopicMetadata struct {
	Err        KError
	Name       string
	IsInternal bool
	Partitions []*PartitionMetadata
}

type MetadataResponse struct {
	Topics []*TopicMetadata
}

func (b *Broker) GetMetadata(r *MetadataRequest) (*MetadataResponse, error) {
	W.mu.Lock()
	defer W.mu.Unlock()
	if !b.open {
		return nil, ErrNotConnected
	}
	if W.NoMetadata {
		return nil, ErrOutOfBrokers
	}
	res := &MetadataResponse{}
	for _, t := range r.Topics {
		tm := &TopicMetadata{Name: t, Err: ErrUnknownTopicOrPartition}
		if ls, ok := W.Topics[t]; ok {
			tm.Err = ErrNoError
			for i := range ls {
				tm.Partitions = append(tm.Partitions, &PartitionMetadata{ID: int32(i)})
			}
		}
		res.Topics = append(res.Topics, tm)
	}
	return res, nil
}

type TopicDetail struct {
	NumPartitions     int32
	ReplicationFactor int16
	ReplicaAssignment map[int32][]int32
	ConfigEntries     map[string]*string
}

type CreateTopicsRequest struct {
	Version      int16
	TopicDetails map[string]*TopicDetail
	Timeout      time.Duration
	ValidateOnly bool
}

type TopicError struct {
	Err    KError
	ErrMsg *string
}

func (t *TopicError) Error() string { return t.Err.Error() }

type CreateTopicsResponse struct {
	Version      int16
	ThrottleTime time.Duration
	TopicErrors  map[string]*TopicError
}

func (b *Broker) CreateTopics(r *CreateTopicsRequest) (*CreateTopicsResponse, error) {
	W.mu.Lock()
	defer W.mu.Unlock()
	if !b.open {
		return nil, ErrNotConnected
	}
	if W.NoCreate {
		return nil, ErrOutOfBrokers
	}
	res := &CreateTopicsResponse{TopicErrors: map[string]*TopicError{}}
	for t, d := range r.TopicDetails {
		e := &TopicError{Err: ErrNoError}
		if W.Creating != nil {
			e.Err = W.Creating(t)
		}
		if e.Err != ErrNoError {
			// refused
		} else if _, ok := W.Topics[t]; ok {
			e.Err = ErrTopicAlreadyExists
		} else if d.NumPartitions < 1 {
			e.Err = ErrInvalidPartitions
		} else {
			W.Created = append(W.Created, Creation{t, d})
			W.addTopic(t, int(d.NumPartitions))
		}
		res.TopicErrors[t] = e
	}
	return res, nil
}

// ---- consumer ----

type RecordHeader struct{ Key, Value []byte }

type ConsumerMessage struct {
	Headers        []*RecordHeader
	Timestamp      time.Time
	BlockTimestamp time.Time
	Key, Value     []byte
	Topic          string
	Partition      int32
	Offset         int64
}

type ConsumerError struct {
	Topic     string
	Partition int32
	Err       error
}

func (ce ConsumerError) Error() string { return "kafka: error while consuming" }

type Consumer interface {
	Topics() ([]string, error)
	Partitions(topic string) ([]int32, error)
	ConsumePartition(topic string, partition int32, offset int64) (PartitionConsumer, error)
	Close() error
}

type PartitionConsumer interface {
	AsyncClose()
	Close() error
	Messages() <-chan *ConsumerMessage
	Errors() <-chan *ConsumerError
	HighWaterMarkOffset() int64
}

type consumer struct {
	client   Client
	mu       sync.Mutex
	children map[string]bool
}

func NewConsumerFromClient(client Client) (Consumer, error) {
	if client.Closed() {
		return nil, ErrClosedClient
	}
	return &consumer{client: client, children: map[string]bool{}}, nil
}

func NewConsumer(addrs []string, config *Config) (Consumer, error) {
	c, err := NewClient(addrs, config)
	if err != nil {
		return nil, err
	}
	return NewConsumerFromClient(c)
}

func (c *consumer) Topics() ([]string, error)                { return c.client.Topics() }
func (c *consumer) Partitions(topic string) ([]int32, error) { return c.client.Partitions(topic) }
func (c *consumer) Close() error                             { return nil }

type partitionConsumer struct {
	c        *consumer
	name     string
	log      *Log
	pos      int64
	mu       sync.Mutex
	hwm      int64
	messages chan *ConsumerMessage
	errors   chan *ConsumerError
	dying    chan struct{}
	once     sync.Once
}

func (c *consumer) ConsumePartition(topic string, partition int32, offset int64) (PartitionConsumer, error) {
	if c.client.Closed() {
		return nil, ErrClosedClient
	}
	W.mu.Lock()
	defer W.mu.Unlock()
	l, err := W.log(topic, partition)
	if err != nil {
		return nil, err
	}
	if l.NoOffs {
		return nil, ErrOutOfBrokers
	}
	at := offset
	switch {
	case offset == OffsetNewest:
		at = l.end()
	case offset == OffsetOldest:
		at = l.Start
	case offset < l.Start || offset > l.end():
		return nil, ErrOffsetOutOfRange
	}
	if l.Refuse != nil && l.Refuse(offset) {
		return nil, ErrOutOfBrokers
	}
	name := topic + ":" + fmt.Sprint(partition)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.children[name] {
		return nil, ConfigurationError("That topic/partition is already being consumed")
	}
	c.children[name] = true
	W.Reading++
	W.Started = append(W.Started, Start{topic, partition, offset, at})
	n := c.client.Config().ChannelBufferSize
	pc := &partitionConsumer{c: c, name: name, log: l, pos: at, messages: make(chan *ConsumerMessage, n), errors: make(chan *ConsumerError, n), dying: make(chan struct{})}
	go pc.feed()
	return pc, nil
}

func (pc *partitionConsumer) feed() {
loop:
	for {
		// a fetch returns everything available, and the high-water mark
		W.mu.Lock()
		var batch []*ConsumerMessage
		for _, m := range pc.log.Msgs {
			if m.Offset >= pc.pos {
				batch = append(batch, m)
			}
		}
		end := pc.log.end()
		change := pc.log.change
		W.mu.Unlock()
		pc.mu.Lock()
		pc.hwm = end
		pc.mu.Unlock()
		for _, m := range batch {
			select {
			case <-pc.dying:
				break loop
			case pc.messages <- m:
				pc.pos = m.Offset + 1
			}
		}
		if len(batch) > 0 {
			continue
		}
		select {
		case <-pc.dying:
			break loop
		case <-change:
		}
	}
	W.mu.Lock()
	W.Reading--
	W.mu.Unlock()
	pc.c.mu.Lock()
	delete(pc.c.children, pc.name)
	pc.c.mu.Unlock()
	close(pc.messages)
	close(pc.errors)
}

func (pc *partitionConsumer) AsyncClose() { pc.once.Do(func() { close(pc.dying) }) }

func (pc *partitionConsumer) Close() error {
	pc.AsyncClose()
	for range pc.errors {
	}
	return nil
}

func (pc *partitionConsumer) Messages() <-chan *ConsumerMessage { return pc.messages }
func (pc *partitionConsumer) Errors() <-chan *ConsumerError     { return pc.errors }

func (pc *partitionConsumer) HighWaterMarkOffset() int64 {
	pc.mu.Lock()
	defer pc.mu.Unlock()
	return pc.hwm
}

// ---- producer ----

type Encoder interface {
	Encode() ([]byte, error)
	Length() int
}

type ByteEncoder []byte

func (b ByteEncoder) Encode() ([]byte, error) { return b, nil }
func (b ByteEncoder) Length() int             { return len(b) }

type StringEncoder string

func (s StringEncoder) Encode() ([]byte, error) { return []byte(s), nil }
func (s StringEncoder) Length() int             { return len(s) }

type ProducerMessage struct {
	Topic     string
	Key       Encoder
	Value     Encoder
	Headers   []RecordHeader
	Metadata  interface{}
	Offset    int64
	Partition int32
	Timestamp time.Time
}

type ProducerError struct {
	Msg *ProducerMessage
	Err error
}

func (pe ProducerError) Error() string {
	return "kafka: Failed to produce message to topic " + pe.Msg.Topic + ": " + pe.Err.Error()
}
func (pe ProducerError) Unwrap() error { return pe.Err }

type AsyncProducer interface {
	AsyncClose()
	Close() error
	Input() chan<- *ProducerMessage
	Successes() <-chan *ProducerMessage
	Errors() <-chan *ProducerError
}

type asyncProducer struct {
	client    Client
	input     chan *ProducerMessage
	successes chan *ProducerMessage
	errors    chan *ProducerError
	failed    chan *ProducerError
}

func NewAsyncProducer(addrs []string, conf *Config) (AsyncProducer, error) {
	c, err := NewClient(addrs, conf)
	if err != nil {
		return nil, err
	}
	p := &asyncProducer{client: c, input: make(chan *ProducerMessage), successes: make(chan *ProducerMessage), errors: make(chan *ProducerError), failed: make(chan *ProducerError, 4096)}
	go p.run()
	go func() {
		for e := range p.failed {
			p.errors <- e
			W.mu.Lock()
			W.Reported++
			W.mu.Unlock()
		}
		close(p.errors)
	}()
	return p, nil
}

func (p *asyncProducer) run() {
	for m := range p.input {
		var key, value []byte
		if m.Key != nil {
			key, _ = m.Key.Encode()
		}
		if m.Value != nil {
			value, _ = m.Value.Encode()
		}
		W.mu.Lock()
		W.Sent = append(W.Sent, m)
		fail, part := W.Fail, W.Partition
		ls := W.Topics[m.Topic]
		W.mu.Unlock()
		var err error
		if len(ls) == 0 {
			err = ErrUnknownTopicOrPartition
		} else if fail != nil {
			err = fail(m)
		}
		if err != nil {
			p.failed <- &ProducerError{m, err}
			continue
		}
		i := 0
		if part != nil {
			i = part(m.Topic, key)
		}
		W.PutAt(m.Topic, i, key, value, time.Now())
	}
	close(p.failed)
	p.client.Close()
}

func (p *asyncProducer) AsyncClose() { close(p.input) }
func (p *asyncProducer) Close() error {
	close(p.input)
	for range p.errors {
	}
	return nil
}
func (p *asyncProducer) Input() chan<- *ProducerMessage     { return p.input }
func (p *asyncProducer) Successes() <-chan *ProducerMessage { return p.successes }
func (p *asyncProducer) Errors() <-chan *ProducerError      { return p.errors }

// Pings takes the keys of the heartbeats that were sent.
func (w *World) Pings() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	var r [][]byte
	var rest []*ProducerMessage
	for _, m := range w.Sent {
		k, _ := m.Key.Encode()
		if len(k) > 0 && k[0] == 0xff {
			r = append(r, k)
		} else {
			rest = append(rest, m)
		}
	}
	w.Sent = rest
	return r
}

// Connected is the number of clients that are not closed.
func (w *World) Connected() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.open
}
