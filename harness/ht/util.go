// Package ht holds the harnesses for the transports package.
package ht

import (
	"reflect"
	"unsafe"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"

	"verif/harness/nd"
)

func hashOf(b byte) (h types.Hash) {
	h[0] = b
	h[31] = b
	return h
}

func symHash(label string) (h types.Hash) {
	copy(h[:], nd.Bytes(label, 32))
	return h
}

// setField sets the field of *dst that has the type of v. (The executor
// replaces it.)
func setField(dst, v interface{}) {
	s := reflect.ValueOf(dst).Elem()
	for i := 0; i < s.NumField(); i++ {
		if f := s.Field(i); f.Type() == reflect.TypeOf(v) {
			reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
			return
		}
	}
	panic("no such field")
}

// mux multiplexes producers.
func mux(ps ...transports.Producer) transports.Producer {
	m, err := transports.ResolveMuxProducer(nil, nil)
	nd.Assert(err == nil, "resolved")
	setField(m, ps)
	return m
}
