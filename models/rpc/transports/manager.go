// Package transports stands in for cardinal-rpc/transports: it records what is
// registered, and serves connections that are handed to Serve.
package transports

import (
	"context"
	"encoding/json"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
)

type TransportManager struct {
	Services map[string]interface{}
	Ports    []int64
	stop     chan struct{}
}

var (
	mu       sync.Mutex
	Managers []*TransportManager
)

func NewTransportManager(concurrency int) *TransportManager {
	tm := &TransportManager{Services: map[string]interface{}{}, stop: make(chan struct{})}
	mu.Lock()
	Managers = append(Managers, tm)
	mu.Unlock()
	return tm
}

func (tm *TransportManager) Register(namespace string, service interface{}) {
	tm.Services[namespace] = service
}

func (tm *TransportManager) AddWSServer(port int64) { tm.Ports = append(tm.Ports, port) }

func (tm *TransportManager) Run(hcport int64) error {
	<-tm.stop
	return nil
}

func (tm *TransportManager) Stop() { close(tm.stop) }

// Serve answers the calls of a connection, as handleWsFunc of the real package
// does, until the connection ends.
func (tm *TransportManager) Serve(c *websocket.Conn) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	defer c.Close()
	outputs := make(chan interface{}, 256)
	go func() {
		for {
			select {
			case <-ctx.Done():
				return
			case output := <-outputs:
				response, _ := json.Marshal(output)
				if err := c.WriteMessage(websocket.TextMessage, response); err != nil {
					c.Close()
					return
				}
			}
		}
	}()
	subs := &subscriptions{cancels: map[hexutil.Uint64]func(){}}
	for {
		_, body, err := c.ReadMessage()
		if err != nil {
			return
		}
		for len(outputs) > 10 {
			time.Sleep(10 * time.Millisecond)
		}
		call := &rpc.Call{}
		if err := json.Unmarshal(body, call); err != nil {
			outputs <- &rpc.Response{Version: "2.0", ID: json.RawMessage("-1"), Error: &rpc.RPCError{C: -1, Msg: err.Error()}}
			continue
		}
		response := &rpc.Response{Version: "2.0", ID: call.ID}
		response.Result, response.Error = tm.handle(ctx, call, outputs, subs)
		outputs <- response
	}
}

// subscriptions of a connection.
type subscriptions struct {
	next    hexutil.Uint64
	cancels map[hexutil.Uint64]func()
}

func (tm *TransportManager) handle(ctx context.Context, call *rpc.Call, outputs chan interface{}, subs *subscriptions) (interface{}, *rpc.RPCError) {
	svc := reflect.ValueOf(tm.Services["cardinal"])
	params := call.Params
	var number hexutil.Uint64
	var hash types.Hash
	arg := func(i int, v interface{}) *rpc.RPCError {
		if i >= len(params) {
			return &rpc.RPCError{C: -32602, Msg: "missing argument"}
		}
		if err := json.Unmarshal(params[i], v); err != nil {
			return &rpc.RPCError{C: -32602, Msg: "invalid argument"}
		}
		return nil
	}
	switch call.Method {
	case "cardinal_streamsBlock":
		if err := arg(0, &number); err != nil {
			return nil, err
		}
		out := svc.MethodByName("StreamsBlock").Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(number)})
		if !out[1].IsNil() {
			return nil, &rpc.RPCError{C: -1, Msg: out[1].Interface().(error).Error()}
		}
		return out[0].Interface(), nil
	case "cardinal_unsubscribe":
		var subid hexutil.Uint64
		if err := arg(0, &subid); err != nil {
			return nil, err
		}
		cancel, ok := subs.cancels[subid]
		if !ok {
			return nil, &rpc.RPCError{C: -32000, Msg: "subscription not found"}
		}
		cancel()
		delete(subs.cancels, subid)
		return true, nil
	case "cardinal_subscribe":
		var name string
		if err := arg(0, &name); err != nil {
			return nil, err
		}
		if name != "streams" {
			return nil, &rpc.RPCError{C: -32601, Msg: "no such subscription in cardinal namespace"}
		}
		subid := subs.next
		subs.next++
		if err := arg(1, &number); err != nil {
			return nil, err
		}
		if err := arg(2, &hash); err != nil {
			return nil, err
		}
		sctx, cancel := context.WithCancel(ctx)
		subs.cancels[subid] = cancel
		out := svc.MethodByName("Streams").Call([]reflect.Value{reflect.ValueOf(sctx), reflect.ValueOf(number), reflect.ValueOf(hash)})
		if !out[1].IsNil() {
			return nil, nil // as the real package: neither result nor error
		}
		go func() {
			runtime.Gosched()
			for {
				item, ok := out[0].Recv()
				if !ok {
					return
				}
				response := &rpc.SubscriptionResponse{Version: "2.0", Method: call.Method}
				response.Params.ID = subid
				response.Params.Result = item.Interface()
				outputs <- response
			}
		}()
		return subid, nil
	}
	return nil, &rpc.RPCError{C: -32601, Msg: "no such method"}
}
