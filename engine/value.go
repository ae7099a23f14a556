package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Val is one Go value. Scalars live in N (zero-extended bits) or, when
// symbolic, as a *Term in R. Everything else lives in R.
type Val struct {
	N uint64
	R any
}

type Agg struct{ F []Val }                                   // struct or array
type Slice struct{ A *Agg; Off, Len, Cap int }               // non-nil slice
type SymStr struct{ B []Val }                                // string with symbolic bytes
type Iface struct{ T types.Type; V Val }                     // non-nil interface; T canonical
type Closure struct{ Fn *Fn; Env []Val; Native func(m *Machine, g *G, args []Val) Val }
type Tuple []Val
type SymPtr struct{ A *Agg; Off, Len int; Idx *Term; W uint8 }        // &a[idx] with symbolic index
type SlicePtr struct{ S *Slice }                             // unsafe.SliceData
type StrPtr struct{ S Val }                                  // unsafe.StringData
type Ent struct{ K, V Val; live bool; conc bool; ck string }
type Map struct {
	ents []*Ent
	idx  map[string]int
	nsym int
	n    int
	kt   types.Type
	wby   *G // last writer
	wat   uint32
	reads vclock
	used  *Machine // the path the last three belong to
}
type Chan struct {
	buf    []Val
	cap    int
	closed bool
	id     int
	name   string
	et     types.Type
	timer bool
}
type MapIter struct {
	m     *Map
	pos   int
	order []int // snapshot for nondeterministic iteration
	left  []int
}
type StrIter struct{ s Val; pos int }

type TKind uint8

const (
	KBool TKind = iota
	KInt
	KFloat
	KString
	KPtr
	KStruct
	KArray
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KUnsafe
	KComplex
	KOther
)

type TI struct {
	k      TKind
	w      uint8
	signed bool
	t      types.Type
	u      types.Type
	elem   *TI
	fields []*TI
	n      int // array length
}

var tiMu sync.RWMutex
var tiCache = map[types.Type]*TI{}

func tinfo(t types.Type) *TI {
	tiMu.RLock()
	x := tiCache[t]
	tiMu.RUnlock()
	if x != nil {
		return x
	}
	u := t.Underlying()
	x = &TI{t: t, u: u}
	switch v := u.(type) {
	case *types.Basic:
		switch v.Kind() {
		case types.Bool, types.UntypedBool:
			x.k = KBool
		case types.Int, types.UntypedInt, types.Int64:
			x.k, x.w, x.signed = KInt, 64, true
		case types.Int8:
			x.k, x.w, x.signed = KInt, 8, true
		case types.Int16:
			x.k, x.w, x.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			x.k, x.w, x.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			x.k, x.w = KInt, 64
		case types.Uint8:
			x.k, x.w = KInt, 8
		case types.Uint16:
			x.k, x.w = KInt, 16
		case types.Uint32:
			x.k, x.w = KInt, 32
		case types.Float32:
			x.k, x.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			x.k, x.w = KFloat, 64
		case types.String, types.UntypedString:
			x.k = KString
		case types.UnsafePointer:
			x.k = KUnsafe
		case types.Complex64, types.Complex128:
			x.k = KComplex
		default:
			x.k = KOther
		}
	case *types.Pointer:
		x.k = KPtr
	case *types.Struct:
		x.k = KStruct
		for i := 0; i < v.NumFields(); i++ {
			x.fields = append(x.fields, tinfo(v.Field(i).Type()))
		}
	case *types.Array:
		x.k, x.n = KArray, int(v.Len())
		x.elem = tinfo(v.Elem())
	case *types.Slice:
		x.k = KSlice
	case *types.Map:
		x.k = KMap
	case *types.Chan:
		x.k = KChan
	case *types.Signature:
		x.k = KFunc
	case *types.Interface:
		x.k = KIface
	case *types.Tuple:
		x.k = KTuple
		for i := 0; i < v.Len(); i++ {
			x.fields = append(x.fields, tinfo(v.At(i).Type()))
		}
	default:
		x.k = KOther
	}
	tiMu.Lock()
	tiCache[t] = x
	tiMu.Unlock()
	return x
}

func elemTI(t *TI) *TI {
	switch u := t.u.(type) {
	case *types.Slice:
		return tinfo(u.Elem())
	case *types.Pointer:
		return tinfo(u.Elem())
	case *types.Array:
		return tinfo(u.Elem())
	case *types.Chan:
		return tinfo(u.Elem())
	case *types.Map:
		return tinfo(u.Elem())
	case *types.Basic:
		return tinfo(types.Typ[types.Uint8])
	}
	panic(unsupported("elemTI " + t.t.String()))
}

func zero(t *TI) Val {
	switch t.k {
	case KStruct, KTuple:
		f := make([]Val, len(t.fields))
		for i, x := range t.fields {
			if x.k == KStruct || x.k == KArray {
				f[i] = zero(x)
			}
		}
		if t.k == KTuple {
			return Val{R: Tuple(f)}
		}
		return Val{R: &Agg{f}}
	case KArray:
		f := make([]Val, t.n)
		if t.elem.k == KStruct || t.elem.k == KArray {
			for i := range f {
				f[i] = zero(t.elem)
			}
		}
		return Val{R: &Agg{f}}
	}
	return Val{}
}

func copyVal(v Val) Val {
	if a, ok := v.R.(*Agg); ok {
		f := make([]Val, len(a.F))
		for i, x := range a.F {
			if _, ok := x.R.(*Agg); ok {
				f[i] = copyVal(x)
			} else {
				f[i] = x
			}
		}
		return Val{R: &Agg{f}}
	}
	return v
}

func storeVal(dst *Val, v Val) {
	if a, ok := v.R.(*Agg); ok {
		if d, ok := dst.R.(*Agg); ok && len(d.F) == len(a.F) {
			if d == a {
				return
			}
			for i := range a.F {
				if _, ok := a.F[i].R.(*Agg); ok {
					storeVal(&d.F[i], a.F[i])
				} else {
					d.F[i] = a.F[i]
				}
			}
			return
		}
		*dst = copyVal(v)
		return
	}
	*dst = v
}

// canonical types (identical types get one pointer)
var canonMu sync.RWMutex
var canonMap typeutil.Map
var canonCache = map[types.Type]types.Type{}

func canon(t types.Type) types.Type {
	canonMu.RLock()
	c := canonCache[t]
	canonMu.RUnlock()
	if c != nil {
		return c
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if x := canonMap.At(t); x != nil {
		c = x.(types.Type)
	} else {
		canonMap.Set(t, t)
		c = t
	}
	canonCache[t0] = c
	return c
}

type EngineErr struct{ msg string }

func (e *EngineErr) Error() string { return "unsupported: " + e.msg }
func unsupported(f string, a ...any) *EngineErr {
	return &EngineErr{fmt.Sprintf(f, a...)}
}

// ---- strings ----

func strVal(s string) Val { return Val{R: s} }

func strLen(v Val) int {
	switch s := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(unsupported("strLen of %T", v.R))
}

func strAt(v Val, i int) Val {
	switch s := v.R.(type) {
	case string:
		return Val{N: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic(unsupported("strAt"))
}

func strBytes(v Val) []Val {
	switch s := v.R.(type) {
	case nil:
		return nil
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].N = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.B
	}
	panic(unsupported("strBytes %T", v.R))
}

// bytesStr makes a string of byte values (which must not be mutated later).
func bytesStr(b []Val) Val {
	for _, x := range b {
		if x.R != nil {
			c := make([]Val, len(b))
			copy(c, b)
			return Val{R: &SymStr{c}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(byte(x.N))
	}
	return Val{R: sb.String()}
}

func goStr(v Val) (string, bool) {
	switch s := v.R.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mustStr(v Val) string {
	s, ok := goStr(v)
	if !ok {
		panic(unsupported("concrete string needed"))
	}
	return s
}

func strCat(a, b Val) Val {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)
	if ok1 && ok2 {
		return Val{R: x + y}
	}
	c := append(append([]Val{}, strBytes(a)...), strBytes(b)...)
	return Val{R: &SymStr{c}}
}

func strSub(v Val, lo, hi int) Val {
	switch s := v.R.(type) {
	case nil:
		return v
	case string:
		return Val{R: s[lo:hi]}
	case *SymStr:
		return bytesStr(s.B[lo:hi])
	}
	panic(unsupported("strSub"))
}

// ---- slices ----

func sliceOf(v Val) []Val {
	if v.R == nil {
		return nil
	}
	s := v.R.(*Slice)
	return s.A.F[s.Off : s.Off+s.Len]
}

func mkSlice(b []Val) Val {
	return Val{R: &Slice{A: &Agg{b}, Len: len(b), Cap: len(b)}}
}

func bytesVal(b []byte) Val {
	if b == nil {
		return Val{}
	}
	f := make([]Val, len(b))
	for i, x := range b {
		f[i].N = uint64(x)
	}
	return mkSlice(f)
}

func concBytes(v []Val) ([]byte, bool) {
	b := make([]byte, len(v))
	for i, x := range v {
		if x.R != nil {
			return nil, false
		}
		b[i] = byte(x.N)
	}
	return b, true
}

func fl(v Val, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v.N)))
	}
	return math.Float64frombits(v.N)
}
func mkfl(f float64, w uint8) Val {
	if w == 32 {
		return Val{N: uint64(math.Float32bits(float32(f)))}
	}
	return Val{N: math.Float64bits(f)}
}

func isTerm(v Val) bool { _, ok := v.R.(*Term); return ok }
