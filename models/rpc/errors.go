package rpc

import (
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-types"
)

type RPCError struct {
	C    int         `json:"code"`
	Msg  string      `json:"message"`
	Data interface{} `json:"data,omitempty"`
}

func (err *RPCError) Error() string { return err.Msg }
func (err *RPCError) Code() int     { return err.C }

type CallMetadata struct {
	Hash     types.Hash
	Compute  *big.Int
	Duration time.Duration
}
