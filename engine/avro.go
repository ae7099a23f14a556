package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Model of github.com/hamba/avro v1.6.6 (Marshal, Unmarshal, Parse,
// MustParse) for the type pairs the repository uses. It follows the library's
// readers, writers and codecs; witnesses replayed natively compare it with the real library.

type avroSchema struct {
	kind   string // int long bytes string boolean fixed array map record null
	name   string
	size   int
	fields []avroField
	elem   *avroSchema
}
type avroField struct {
	name string
	s    *avroSchema
	def  bool
}

func parseAvro(src string) (*avroSchema, error) {
	var x any
	if err := json.Unmarshal([]byte(src), &x); err != nil {
		x = src
	}
	names := map[string]*avroSchema{}
	return buildAvro(x, names, "")
}

func buildAvro(x any, names map[string]*avroSchema, ns string) (*avroSchema, error) {
	switch v := x.(type) {
	case string:
		switch v {
		case "int", "long", "bytes", "string", "boolean", "null", "float", "double":
			return &avroSchema{kind: v}, nil
		}
		if s, ok := names[v]; ok {
			return s, nil
		}
		return nil, fmt.Errorf("avro: unknown type: %s", v)
	case map[string]any:
		t := v["type"]
		ts, ok := t.(string)
		if !ok {
			return buildAvro(t, names, ns)
		}
		name, _ := v["name"].(string)
		switch ts {
		case "record":
			s := &avroSchema{kind: "record", name: name}
			names[name] = s
			fs, _ := v["fields"].([]any)
			for _, f := range fs {
				fm := f.(map[string]any)
				var fsch *avroSchema
				var err error
				fsch, err = buildAvro(fm["type"], names, ns)
				if err != nil {
					return nil, err
				}
				_, def := fm["default"]
				s.fields = append(s.fields, avroField{fm["name"].(string), fsch, def})
			}
			return s, nil
		case "fixed":
			sz, _ := v["size"].(float64)
			s := &avroSchema{kind: "fixed", name: name, size: int(sz)}
			names[name] = s
			return s, nil
		case "array":
			e, err := buildAvro(v["items"], names, ns)
			return &avroSchema{kind: "array", elem: e}, err
		case "map":
			e, err := buildAvro(v["values"], names, ns)
			return &avroSchema{kind: "map", elem: e}, err
		}
		return buildAvro(ts, names, ns)
	}
	return nil, fmt.Errorf("avro: unsupported schema %v", x)
}

type avroW struct {
	m   *Machine
	b   []Val
	err string
}

// zig-zag varint of a 64-bit term or constant, width w bits of source.
func (a *avroW) varint(v Val, w uint8) {
	m := a.m
	if v.R == nil {
		x := sx(v.N, w)
		var e uint64
		if w == 32 {
			e = uint64(uint32(x)<<1 ^ uint32(int32(x)>>31))
		} else {
			e = uint64(x)<<1 ^ uint64(x>>63)
		}
		for {
			b := e & 0x7f
			e >>= 7
			if e != 0 {
				b |= 0x80
			}
			a.b = append(a.b, Val{N: b})
			if e == 0 {
				return
			}
		}
	}
	t := v.R.(*Term)
	z := m.T.Bin(OXor, m.T.Bin(OShl, t, m.T.Const(1, w)), m.T.Bin(OAshr, t, m.T.Const(uint64(w)-1, w)))
	n := 1
	for 7*n < int(w) {
		if m.Branch(m.T.Bin(OUlt, z, m.T.Const(uint64(1)<<(7*n), w))) {
			break
		}
		n++
	}
	start := len(a.b)
	for i := 0; i < n; i++ {
		lo := uint8(7 * i)
		cnt := uint8(7)
		if lo+cnt > w {
			cnt = w - lo
		}
		x := m.T.Zext(m.T.Extract(z, lo, cnt), 8)
		if i < n-1 {
			x = m.T.Bin(OOr, x, m.T.Const(0x80, 8))
		}
		a.b = append(a.b, tval(x))
	}
	m.varints[varintKey(a.b[start:])] = varintVal{t, w}
}

type varintVal struct {
	t *Term
	w uint8
}

func varintKey(b []Val) string {
	var sb strings.Builder
	for _, x := range b {
		if t, ok := x.R.(*Term); ok {
			fmt.Fprintf(&sb, "t%d.", t.id)
		} else {
			fmt.Fprintf(&sb, "c%d.", x.N)
		}
	}
	return sb.String()
}

func avroStructField(st *types.Struct, name string) (int, bool) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				panic(unsupported("avro: embedded struct"))
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		n := f.Name()
		if t, ok := reflect.StructTag(st.Tag(i)).Lookup("avro"); ok {
			n = t
		}
		if n == name {
			return i, true
		}
	}
	return 0, false
}

func (a *avroW) enc(s *avroSchema, v Val, t *TI) {
	bad := func() { a.err = fmt.Sprintf("avro: %s is unsupported for Avro %s", t.t, s.kind) }
	m := a.m
	switch s.kind {
	case "int":
		if t.k != KInt || (t.w == 64 && t.u.(*types.Basic).Kind() != types.Int) || t.u.(*types.Basic).Kind() == types.Uint32 || (!t.signed && t.w == 64) {
			bad()
			return
		}
		// the library keeps the low 32 bits
		x := m.convert(v, t, tinfo(types.Typ[types.Int32]))
		a.varint(x, 32)
	case "long":
		k := KOther
		if t.k == KInt && (t.u.(*types.Basic).Kind() == types.Int64 || t.u.(*types.Basic).Kind() == types.Int32 || t.u.(*types.Basic).Kind() == types.Uint32 || t.u.(*types.Basic).Kind() == types.Int) {
			k = KInt
		}
		if k != KInt {
			bad()
			return
		}
		a.varint(m.convert(v, t, tinfo(types.Typ[types.Int64])), 64)
	case "boolean":
		if t.k != KBool {
			bad()
			return
		}
		if v.R != nil {
			a.b = append(a.b, tval(m.T.Ite(v.R.(*Term), m.T.Const(1, 8), m.T.Const(0, 8))))
		} else {
			a.b = append(a.b, Val{N: v.N})
		}
	case "bytes", "string":
		var b []Val
		if s.kind == "bytes" && t.k == KSlice && elemTI(t).k == KInt && elemTI(t).w == 8 {
			b = sliceOf(v)
		} else if s.kind == "string" && t.k == KString {
			b = strBytes(v)
		} else {
			bad()
			return
		}
		a.varint(intVal(len(b)), 64)
		a.b = append(a.b, b...)
	case "fixed":
		if t.k != KArray || t.elem.k != KInt || t.elem.w != 8 || t.n != s.size {
			bad()
			return
		}
		a.b = append(a.b, v.R.(*Agg).F...)
	case "array":
		if t.k != KSlice {
			bad()
			return
		}
		el := sliceOf(v)
		for i := 0; i < len(el); i += 100 {
			n := len(el) - i
			if n > 100 {
				n = 100
			}
			sub := &avroW{m: m}
			for j := i; j < i+n; j++ {
				sub.enc(s.elem, el[j], elemTI(t))
			}
			a.block(n, sub)
		}
		a.varint(Val{}, 64)
	case "map":
		mt, ok := t.u.(*types.Map)
		if !ok || tinfo(mt.Key()).k != KString {
			bad()
			return
		}
		mp, _ := v.R.(*Map)
		if mp != nil {
			var es []*Ent
			for _, e := range mp.ents {
				if e.live {
					es = append(es, e)
				}
			}
			for i := 0; i < len(es); i += 100 {
				n := len(es) - i
				if n > 100 {
					n = 100
				}
				sub := &avroW{m: m}
				for _, e := range es[i : i+n] {
					kb := strBytes(e.K)
					sub.varint(intVal(len(kb)), 64)
					sub.b = append(sub.b, kb...)
					sub.enc(s.elem, e.V, tinfo(mt.Elem()))
				}
				a.block(n, sub)
			}
		}
		a.varint(Val{}, 64)
	case "record":
		if t.k == KPtr {
			p, _ := v.R.(*Val)
			if p == nil {
				m.rtPanic(nilDeref)
			}
			a.enc(s, *p, elemTI(t))
			return
		}
		if t.k != KStruct {
			bad()
			return
		}
		for _, f := range s.fields {
			i, ok := avroStructField(t.u.(*types.Struct), f.name)
			if !ok {
				if f.def {
					panic(unsupported("avro defaults"))
				}
				a.err = fmt.Sprintf("avro: record %s is missing required field %q", s.name, f.name)
				return
			}
			a.enc(f.s, v.R.(*Agg).F[i], t.fields[i])
			if a.err != "" {
				return
			}
		}
	default:
		panic(unsupported("avro %s", s.kind))
	}
}

func (a *avroW) block(n int, sub *avroW) {
	if sub.err != "" && a.err == "" {
		a.err = sub.err
	}
	if len(sub.b) > 0 {
		a.varint(intVal(-n), 64)
		a.varint(intVal(len(sub.b)), 64)
	} else {
		a.varint(intVal(n), 64)
	}
	a.b = append(a.b, sub.b...)
}

type avroR struct {
	m    *Machine
	b    []Val
	head int
	eof  bool
	err  string
}

func (r *avroR) failed() bool { return r.eof || r.err != "" }

func (r *avroR) byte() Val {
	if r.head == len(r.b) {
		if !r.failed() {
			r.eof = true
		}
		return Val{}
	}
	v := r.b[r.head]
	r.head++
	return v
}

func (r *avroR) report(op, msg string) {
	if r.err != "" {
		return
	}
	r.err = "avro: " + op + ": " + msg
}

func (r *avroR) varint(w uint8) Val {
	m := r.m
	max := 5
	if w == 64 {
		max = 10
	}
	if !r.failed() {
		// recognise a varint written by the encoder
		for n := 1; n <= max && r.head+n <= len(r.b); n++ {
			if _, ok := r.b[r.head].R.(*Term); !ok {
				break
			}
			if x, ok := m.varints[varintKey(r.b[r.head:r.head+n])]; ok && x.w == w {
				r.head += n
				return tval(x.t)
			}
		}
	}
	acc := m.T.Const(0, w)
	off := 0
	for !r.failed() {
		if off == max {
			if w == 64 {
				r.report("ReadLong", "long overflow")
			} else {
				r.report("ReadInt", "int overflow")
			}
			return Val{}
		}
		b := m.term(r.byte(), 8)
		part := m.T.Zext(m.T.Extract(b, 0, 7), w)
		if 7*off < int(w) {
			acc = m.T.Bin(OOr, acc, m.T.Bin(OShl, part, m.T.Const(uint64(7*off), w)))
		}
		if m.Branch(m.T.Bin(OEq, m.T.Extract(b, 7, 1), m.T.Const(0, 1))) {
			break
		}
		off++
	}
	one := m.T.Const(1, w)
	return tval(m.T.Bin(OXor, m.T.Bin(OLshr, acc, one), m.T.Neg(m.T.Bin(OAnd, acc, one))))
}

// rlen fixes a decoded length.
func (r *avroR) rlen() int64 {
	v := r.varint(64)
	if v.R != nil {
		m := r.m
		t := v.R.(*Term)
		// lengths beyond the input behave alike: keep one representative class
		if m.Branch(m.T.Bin(OSlt, m.T.Const(uint64(len(r.b))+64, 64), t)) {
			return r.big(t)
		}
		if m.Branch(m.T.Bin(OSlt, t, m.T.Const(uint64(-int64(len(r.b))-64)&mask(64), 64))) {
			return r.big(t)
		}
		return int64(m.Concretize(v, 64))
	}
	return int64(v.N)
}

func (r *avroR) big(t *Term) int64 {
	r.m.ensureModel()
	return int64(r.m.Concretize(Val{R: t}, 64))
}

func (r *avroR) read(n int64) []Val {
	if n > 1<<26 {
		r.m.rtPanic("makeslice: len out of range")
	}
	b := make([]Val, n)
	read := int64(0)
	for read < n {
		if r.head == len(r.b) {
			if !r.failed() {
				r.eof = true
			}
			return b
		}
		b[read] = r.b[r.head]
		r.head++
		read++
	}
	return b
}

func (r *avroR) blockHeader() int64 {
	l := r.rlen()
	if l < 0 {
		r.rlen()
		return -l
	}
	return l
}

func (r *avroR) dec(s *avroSchema, dst *Val, t *TI) {
	m := r.m
	bad := func() { r.err = fmt.Sprintf("avro: %s is unsupported for Avro %s", t.t, s.kind) }
	switch s.kind {
	case "int":
		kd := types.Invalid
		if t.k == KInt {
			kd = t.u.(*types.Basic).Kind()
		}
		switch kd {
		case types.Int, types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16:
		default:
			bad()
			return
		}
		*dst = m.convert(r.varint(32), tinfo(types.Typ[types.Int32]), t)
	case "long":
		kd := types.Invalid
		if t.k == KInt {
			kd = t.u.(*types.Basic).Kind()
		}
		switch kd {
		case types.Int64, types.Int32, types.Uint32, types.Int:
		default:
			bad()
			return
		}
		*dst = m.convert(r.varint(64), tinfo(types.Typ[types.Int64]), t)
	case "boolean":
		if t.k != KBool {
			bad()
			return
		}
		b := m.term(r.byte(), 8)
		if !m.Branch(m.T.Bin(OUle, b, m.T.Const(1, 8))) {
			r.report("ReadBool", "invalid bool")
		}
		*dst = tval(m.T.Bin(OEq, b, m.T.Const(1, 8)))
	case "bytes":
		if t.k != KSlice || elemTI(t).w != 8 {
			bad()
			return
		}
		n := r.rlen()
		if n < 0 {
			r.report("ReadBytes", "invalid bytes length")
			*dst = Val{}
			return
		}
		*dst = mkSlice(r.read(n))
	case "string":
		if t.k != KString {
			bad()
			return
		}
		*dst = r.str()
	case "fixed":
		if t.k != KArray || t.elem.w != 8 || t.n != s.size {
			bad()
			return
		}
		f := dst.R.(*Agg).F
		for i := range f {
			f[i] = r.byte()
		}
	case "array":
		if t.k != KSlice {
			bad()
			return
		}
		var el []Val
		if dst.R != nil {
			el = append(el, sliceOf(*dst)...)
		}
		any := dst.R != nil
		start := len(el)
		_ = start
		size := 0
		for {
			l := r.blockHeader()
			if l == 0 {
				break
			}
			any = true
			st := size
			size += int(l)
			if size > 1<<22 {
				m.hang("avro array of huge length")
			}
			for len(el) < size {
				el = append(el, zero(elemTI(t)))
			}
			for i := st; i < size; i++ {
				r.dec(s.elem, &el[i], elemTI(t))
			}
		}
		if any {
			*dst = mkSlice(el)
		}
	case "map":
		mt, ok := t.u.(*types.Map)
		if !ok || tinfo(mt.Key()).k != KString {
			bad()
			return
		}
		if dst.R == nil {
			*dst = Val{R: newMap(mt.Key())}
		}
		mp := dst.R.(*Map)
		for {
			l := r.blockHeader()
			if l == 0 {
				break
			}
			if l > 1<<22 {
				m.hang("avro map of huge length")
			}
			for i := int64(0); i < l; i++ {
				k := r.str()
				e := zero(tinfo(mt.Elem()))
				r.dec(s.elem, &e, tinfo(mt.Elem()))
				m.mapSet(mp, k, e)
			}
		}
	case "record":
		if t.k == KPtr {
			p, _ := dst.R.(*Val)
			if p == nil {
				z := zero(elemTI(t))
				p = &z
				*dst = Val{R: p}
			}
			r.dec(s, p, elemTI(t))
			return
		}
		if t.k != KStruct {
			bad()
			return
		}
		for _, f := range s.fields {
			i, ok := avroStructField(t.u.(*types.Struct), f.name)
			if !ok {
				panic(unsupported("avro: skipped field"))
			}
			r.dec(f.s, &dst.R.(*Agg).F[i], t.fields[i])
			if r.err != "" {
				r.err = f.name + ": " + r.err
				return
			}
		}
	default:
		panic(unsupported("avro %s", s.kind))
	}
}

func (r *avroR) str() Val {
	n := r.rlen()
	if n < 0 {
		r.report("ReadString", "invalid string length")
		return strVal("")
	}
	if n < 1<<30 && r.head+int(n) <= len(r.b) {
		s := bytesStr(r.b[r.head : r.head+int(n)])
		r.head += int(n)
		return s
	}
	return bytesStr(r.read(n))
}

func regAvro() {
	A := "github.com/hamba/avro."
	cache := map[string]*avroSchema{}
	mk := func(m *Machine, src string) (Val, string) {
		m.P.mu.Lock()
		s, ok := cache[src]
		if !ok {
			var err error
			s, err = parseAvro(src)
			if err != nil {
				m.P.mu.Unlock()
				return Val{}, err.Error()
			}
			cache[src] = s
		}
		m.P.mu.Unlock()
		t := m.P.lookupType("github.com/hamba/avro", "RecordSchema")
		v := zero(tinfo(t))
		v.R.(*Agg).F[0].R = s
		return Val{R: &Iface{T: canon(types.NewPointer(t)), V: ptrVal(v)}}, ""
	}
	reg(A+"MustParse", func(m *Machine, c *Call) Val {
		v, err := mk(m, mustStr(c.args[0]))
		if err != "" {
			panic(goPanic{m.errString(err)})
		}
		return v
	})
	reg(A+"Parse", func(m *Machine, c *Call) Val {
		v, err := mk(m, mustStr(c.args[0]))
		if err != "" {
			return tup(Val{}, m.errString(err))
		}
		return tup(v, Val{})
	})
	schema := func(m *Machine, v Val) *avroSchema {
		i, _ := v.R.(*Iface)
		if i == nil {
			m.rtPanic(nilDeref)
		}
		return i.V.R.(*Val).R.(*Agg).F[0].R.(*avroSchema)
	}
	reg(A+"Marshal", func(m *Machine, c *Call) Val {
		i, _ := c.args[1].R.(*Iface)
		if i == nil {
			m.rtPanic(nilDeref)
		}
		w := &avroW{m: m}
		w.enc(schema(m, c.args[0]), i.V, tinfo(i.T))
		if w.err != "" {
			return tup(Val{}, m.errString(w.err))
		}
		return tup(mkSlice(w.b), Val{})
	})
	reg(A+"Unmarshal", func(m *Machine, c *Call) Val {
		i, _ := c.args[2].R.(*Iface)
		if i == nil {
			m.rtPanic(nilDeref)
		}
		ti := tinfo(i.T)
		if ti.k != KPtr {
			return m.errString("avro: can only unmarshal to non-pointer to type " + i.T.String())
		}
		p, _ := i.V.R.(*Val)
		if p == nil {
			return m.errString("avro: can not read into nil pointer")
		}
		r := &avroR{m: m, b: sliceOf(c.args[1])}
		r.dec(schema(m, c.args[0]), p, elemTI(ti))
		if r.err != "" {
			return m.errString(r.err)
		}
		return Val{}
	})
}
