// Package websocket stands in for github.com/gorilla/websocket: connections are
// pairs of queues, served by whatever Accept is set to.
package websocket

import (
	"context"
	"encoding/json"
	"errors"
	"net/http"
	"sync"
	"time"
)

const (
	TextMessage   = 1
	BinaryMessage = 2
)

// Conn is one end of a connection. Writing only
// blocks on a connection that is stalled.
type Conn struct {
	mu     *sync.Mutex
	in     *queue
	out    *queue
	failed int
	stall  bool
}

// Stall makes writing block until the connection is closed.
func (c *Conn) Stall() {
	c.mu.Lock()
	c.stall = true
	c.mu.Unlock()
}

type queue struct {
	msgs   [][]byte
	closed bool
	change chan struct{}
}

func (q *queue) notify() {
	close(q.change)
	q.change = make(chan struct{})
}

// Pair creates a connection.
func Pair() (*Conn, *Conn) {
	mu := &sync.Mutex{}
	a, b := &queue{change: make(chan struct{})}, &queue{change: make(chan struct{})}
	return &Conn{mu: mu, in: a, out: b}, &Conn{mu: mu, in: b, out: a}
}

var errClosed = errors.New("websocket: close 1006 (abnormal closure)")

// ReadMessage returns the next message. As with the real package errors are
// permanent, and reading on after many of them panics.
func (c *Conn) ReadMessage() (int, []byte, error) {
	for {
		c.mu.Lock()
		if c.in.closed {
			c.failed++
			if c.failed >= 1000 {
				panic("repeated read on failed websocket connection")
			}
			c.mu.Unlock()
			return 0, nil, errClosed
		}
		if len(c.in.msgs) > 0 {
			m := c.in.msgs[0]
			c.in.msgs = c.in.msgs[1:]
			c.mu.Unlock()
			return TextMessage, m, nil
		}
		ch := c.in.change
		c.mu.Unlock()
		<-ch
	}
}

// Pending takes the messages that can be read.
func (c *Conn) Pending() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.in.closed {
		return nil
	}
	ms := c.in.msgs
	c.in.msgs = nil
	return ms
}

func (c *Conn) WriteMessage(messageType int, data []byte) error {
	c.mu.Lock()
	for c.stall && !c.out.closed {
		ch := c.out.change
		c.mu.Unlock()
		<-ch
		c.mu.Lock()
	}
	defer c.mu.Unlock()
	if c.out.closed {
		return errClosed
	}
	c.out.msgs = append(c.out.msgs, data)
	c.out.notify()
	return nil
}

// Close ends the connection for both sides; what is in flight is lost.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, q := range []*queue{c.in, c.out} {
		if !q.closed {
			q.closed = true
			q.notify()
		}
	}
	return nil
}

type Dialer struct{}

var DefaultDialer = &Dialer{}

// Accept answers a connection attempt.
var Accept func(url string) (*Conn, error)

func (d *Dialer) Dial(urlStr string, requestHeader http.Header) (*Conn, *http.Response, error) {
	if Accept == nil {
		return nil, nil, errors.New("connection refused")
	}
	c, err := Accept(urlStr)
	return c, nil, err
}

func (c *Conn) WriteJSON(v interface{}) error {
	data, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return c.WriteMessage(TextMessage, data)
}

func (c *Conn) ReadJSON(v interface{}) error {
	_, data, err := c.ReadMessage()
	if err != nil {
		return err
	}
	return json.Unmarshal(data, v)
}

func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *Conn) SetReadLimit(limit int64)           {}

// DialContext is Dial; attempts take no time.
func (d *Dialer) DialContext(ctx context.Context, urlStr string, requestHeader http.Header) (*Conn, *http.Response, error) {
	if err := ctx.Err(); err != nil {
		return nil, nil, err
	}
	return d.Dial(urlStr, requestHeader)
}
