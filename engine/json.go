package main

// encoding/json over symbolic values: Marshal writes the text the package
// writes (the keys of a map are left in insertion order when they cannot be
// compared), Unmarshal parses it. Marshalers and unmarshalers of the program
// are executed. Known limits: no embedded fields, no ",string" option, no
// base64 of symbolic bytes, no symbolic bytes outside ASCII.

import (
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

type jenc struct {
	m *Machine
	g *G
	b []Val
}

type jerr struct{ v Val } // an error that ends the operation

func (j *jenc) str(s string) {
	for i := 0; i < len(s); i++ {
		j.b = append(j.b, Val{N: uint64(s[i])})
	}
}

func (m *Machine) nibble(v Val) (*Term, bool) {
	t, ok := v.R.(*Term)
	if !ok {
		return nil, false
	}
	n, ok := m.hexNib[t]
	return n, ok
}

// hexChar is hexDigit, lower case, for terms whose nibble is remembered.
func (m *Machine) hexChar(n *Term) Val {
	v := hexDigit(m, n, false)
	if t, ok := v.R.(*Term); ok {
		if m.hexNib == nil {
			m.hexNib = map[*Term]*Term{}
		}
		m.hexNib[t] = n
	}
	return v
}

func (m *Machine) isSafe(t *Term) bool {
	_, ok := m.hexNib[t]
	return ok || m.jsafe[t]
}

// quote appends a JSON string.
func (j *jenc) quote(s []Val) {
	m := j.m
	if b, ok := concBytes(s); ok {
		q, _ := json.Marshal(string(b))
		j.str(string(q))
		return
	}
	j.str(`"`)
	for i := 0; i < len(s); {
		if s[i].R == nil {
			k := i
			var run []byte
			for k < len(s) && s[k].R == nil {
				run = append(run, byte(s[k].N))
				k++
			}
			if k < len(s) && len(run) > 0 && !utf8.Valid(run) {
				panic(unsupported("JSON of a symbolic string outside ASCII"))
			}
			q, _ := json.Marshal(string(run))
			j.str(string(q[1 : len(q)-1]))
			i = k
			continue
		}
		t := s[i].R.(*Term)
		v := s[i]
		i++
		if m.isSafe(t) {
			j.b = append(j.b, v)
			continue
		}
		if t.w != 8 {
			panic(unsupported("JSON string of wide bytes"))
		}
		c := func(x byte) *Term { return m.T.Const(uint64(x), 8) }
		is := func(x byte) *Term { return m.T.Bin(OEq, t, c(x)) }
		if m.Branch(m.T.Bin(OUle, c(0x80), t)) {
			panic(unsupported("JSON of a symbolic string outside ASCII"))
		}
		special := m.T.Bin(OUlt, t, c(0x20))
		for _, x := range []byte{'"', '\\', '<', '>', '&'} {
			special = m.T.Or(special, is(x))
		}
		if !m.Branch(special) {
			if m.jsafe == nil {
				m.jsafe = map[*Term]bool{}
			}
			m.jsafe[t] = true
			j.b = append(j.b, v)
			continue
		}
		done := false
		for k, x := range "\"\\\b\f\n\r\t" {
			if m.Branch(is(byte(x))) {
				j.str(`\` + string(`"\bfnrt`[k]))
				done = true
				break
			}
		}
		if !done {
			j.str(`\u00`)
			j.b = append(j.b, m.hexChar(m.T.Extract(t, 4, 4)), m.hexChar(m.T.Extract(t, 0, 4)))
		}
	}
	j.str(`"`)
}

func (m *Machine) hasMethod(t types.Type, name string, params, results int) *Fn {
	fn := m.method(canon(t), nil, name)
	if fn == nil || fn.nparam != params+1 || fn.nres != results {
		return nil
	}
	return fn
}

// raw appends the text a marshaler returned, without white space.
func (j *jenc) raw(s []Val) {
	n, err := j.m.jparse(s)
	if err != "" {
		panic(jerr{j.m.errString("json: error calling MarshalJSON: " + err)})
	}
	j.compact(s, n)
}

func (j *jenc) compact(s []Val, n *jnode) {
	switch n.kind {
	case '{':
		j.str("{")
		for i, e := range n.elems {
			if i > 0 {
				j.str(",")
			}
			j.compact(s, n.keys[i])
			j.str(":")
			j.compact(s, e)
		}
		j.str("}")
	case '[':
		j.str("[")
		for i, e := range n.elems {
			if i > 0 {
				j.str(",")
			}
			j.compact(s, e)
		}
		j.str("]")
	case '"':
		for _, c := range s[n.lo:n.hi] {
			if c.R == nil {
				switch c.N {
				case '<', '>', '&':
					j.str(`\u00` + map[uint64]string{'<': "3c", '>': "3e", '&': "26"}[c.N])
					continue
				}
			}
			j.b = append(j.b, c)
		}
	default:
		j.b = append(j.b, s[n.lo:n.hi]...)
	}
}

func (j *jenc) check(e Val) {
	if e.R != nil {
		panic(jerr{e})
	}
}

func (j *jenc) value(t types.Type, v Val, addr *Val, depth int) {
	m := j.m
	if depth > 40 {
		panic(unsupported("JSON depth"))
	}
	ti := tinfo(t)
	ptr := canon(types.NewPointer(t))
	isIface := ti.k == KIface
	if !isIface {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			var fn *Fn
			recv := v
			if ti.k != KPtr && addr != nil {
				if fn = m.hasMethod(ptr, name, 0, 2); fn != nil {
					recv = Val{R: addr}
				}
			}
			if fn == nil {
				if fn = m.hasMethod(t, name, 0, 2); fn == nil {
					continue
				}
				if ti.k == KPtr && (v.R == nil || v.R == (*Val)(nil)) {
					j.str("null")
					return
				}
				recv = copyVal(v)
			}
			r := m.callSync(j.g, fn, nil, []Val{recv}).R.(Tuple)
			j.check(r[1])
			if name == "MarshalJSON" {
				j.raw(sliceOf(r[0]))
			} else {
				j.quote(sliceOf(r[0]))
			}
			return
		}
	}
	switch ti.k {
	case KBool:
		if m.truth(v) {
			j.str("true")
		} else {
			j.str("false")
		}
	case KInt:
		j.b = append(j.b, strBytes(m.fmtInt(v, ti.w, ti.signed))...)
	case KFloat:
		var q []byte
		if ti.w == 32 {
			q, _ = json.Marshal(float32(fl(v, 32)))
		} else {
			q, _ = json.Marshal(fl(v, 64))
		}
		if q == nil {
			panic(jerr{m.errString("json: unsupported value")})
		}
		j.str(string(q))
	case KString:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" {
			panic(unsupported("json.Number"))
		}
		j.quote(strBytes(v))
	case KIface:
		if v.R == nil {
			j.str("null")
			return
		}
		i := v.R.(*Iface)
		j.value(i.T, i.V, nil, depth+1)
	case KPtr:
		q, _ := v.R.(*Val)
		if q == nil {
			j.str("null")
			return
		}
		j.value(elemTI(ti).t, *q, q, depth+1)
	case KStruct:
		j.str("{")
		first := true
		for _, f := range jfields(t) {
			p := &v.R.(*Agg).F[f.i]
			if f.omitEmpty && m.jempty(f.t, *p) {
				continue
			}
			if !first {
				j.str(",")
			}
			first = false
			q, _ := json.Marshal(f.name)
			j.str(string(q) + ":")
			a := p
			if addr == nil {
				a = nil
			}
			j.value(f.t, *p, a, depth+1)
		}
		j.str("}")
	case KMap:
		mp, _ := v.R.(*Map)
		if mp == nil {
			j.str("null")
			return
		}
		m.mapUse(j.g, mp, false)
		mt := ti.u.(*types.Map)
		type kv struct {
			k []Val
			e *Ent
		}
		var kvs []kv
		conc := true
		for _, e := range mp.ents {
			if !e.live {
				continue
			}
			var k []Val
			switch kt := tinfo(mt.Key()); {
			case kt.k == KString:
				k = strBytes(e.K)
			case m.hasMethod(mt.Key(), "MarshalText", 0, 2) != nil:
				r := m.callSync(j.g, m.hasMethod(mt.Key(), "MarshalText", 0, 2), nil, []Val{copyVal(e.K)}).R.(Tuple)
				j.check(r[1])
				k = sliceOf(r[0])
			case kt.k == KInt:
				k = strBytes(m.fmtInt(e.K, kt.w, kt.signed))
			default:
				panic(jerr{m.errString("json: unsupported type: " + t.String())})
			}
			if _, ok := concBytes(k); !ok {
				conc = false
			}
			kvs = append(kvs, kv{k, e})
		}
		if conc {
			sort.SliceStable(kvs, func(a, b int) bool {
				x, _ := concBytes(kvs[a].k)
				y, _ := concBytes(kvs[b].k)
				return string(x) < string(y)
			})
		}
		j.str("{")
		for i, e := range kvs {
			if i > 0 {
				j.str(",")
			}
			j.quote(e.k)
			j.str(":")
			j.value(mt.Elem(), e.e.V, nil, depth+1)
		}
		j.str("}")
	case KSlice, KArray:
		var el []Val
		if ti.k == KSlice {
			if v.R == nil {
				j.str("null")
				return
			}
			el = sliceOf(v)
		} else {
			el = v.R.(*Agg).F
		}
		et := elemTI(ti)
		if ti.k == KSlice && et.k == KInt && et.w == 8 && !et.signed {
			b, ok := concBytes(el)
			if !ok {
				panic(unsupported("base64 of symbolic bytes"))
			}
			q, _ := json.Marshal(b)
			j.str(string(q))
			return
		}
		j.str("[")
		for i := range el {
			if i > 0 {
				j.str(",")
			}
			a := &el[i]
			if ti.k == KArray && addr == nil {
				a = nil
			}
			j.value(et.t, el[i], a, depth+1)
		}
		j.str("]")
	default:
		panic(jerr{m.errString("json: unsupported type: " + t.String())})
	}
}

type jfield struct {
	i         int
	name      string
	t         types.Type
	omitEmpty bool
}

func jfields(t types.Type) []jfield {
	st := t.Underlying().(*types.Struct)
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			panic(unsupported("JSON of embedded field in %s", t))
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if name == "" {
			name = f.Name()
		}
		jf := jfield{i: i, name: name, t: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				jf.omitEmpty = true
			case "":
			default:
				panic(unsupported("JSON option %s", o))
			}
		}
		r = append(r, jf)
	}
	return r
}

func (m *Machine) jempty(t types.Type, v Val) bool {
	ti := tinfo(t)
	switch ti.k {
	case KBool:
		return !m.truth(v)
	case KInt:
		return m.truth(m.eq(v, Val{}, ti))
	case KFloat:
		return fl(v, ti.w) == 0
	case KString:
		return strLen(v) == 0
	case KPtr:
		q, _ := v.R.(*Val)
		return q == nil
	case KIface:
		return v.R == nil
	case KMap:
		mp, _ := v.R.(*Map)
		return mp == nil || mp.n == 0
	case KSlice:
		return len(sliceOf(v)) == 0
	case KArray:
		return ti.n == 0
	}
	return false
}

// ---- parsing ----

type jnode struct {
	kind   byte // { [ " n(umber) t f 0(null)
	lo, hi int
	keys   []*jnode
	elems  []*jnode
	s      []Val // decoded string
}

type jparser struct {
	m *Machine
	s []Val
	i int
}

type jsyntax struct{ msg string }

func (m *Machine) jparse(s []Val) (n *jnode, err string) {
	p := &jparser{m: m, s: s}
	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(jsyntax)
			if !ok {
				panic(e)
			}
			err = x.msg
		}
	}()
	n = p.value(0)
	p.ws()
	if p.i < len(s) {
		p.fail("invalid character after top-level value")
	}
	return n, ""
}

func (p *jparser) fail(s string) { panic(jsyntax{s}) }

// is compares the current character.
func (p *jparser) is(c byte) bool {
	if p.i >= len(p.s) {
		return false
	}
	v := p.s[p.i]
	if v.R == nil {
		return byte(v.N) == c
	}
	t := v.R.(*Term)
	if _, ok := p.m.hexNib[t]; ok && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
		return false
	}
	return p.m.Branch(p.m.T.Bin(OEq, t, p.m.T.Const(uint64(c), 8)))
}

func (p *jparser) ws() {
	for p.i < len(p.s) && (p.is(' ') || p.is('\t') || p.is('\n') || p.is('\r')) {
		p.i++
	}
}

func (p *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if !p.is(s[k]) {
			p.bad()
		}
		p.i++
	}
}

func (p *jparser) bad() {
	if p.i >= len(p.s) {
		p.fail("unexpected end of JSON input")
	}
	p.fail("invalid character")
}

func (p *jparser) digit() bool {
	if p.i >= len(p.s) {
		return false
	}
	v := p.s[p.i]
	if v.R == nil {
		return v.N >= '0' && v.N <= '9'
	}
	t := v.R.(*Term)
	T := p.m.T
	return p.m.Branch(T.And(T.Bin(OUle, T.Const('0', 8), t), T.Bin(OUle, t, T.Const('9', 8))))
}

func (p *jparser) value(depth int) *jnode {
	if depth > 1000 {
		p.fail("exceeded max depth")
	}
	p.ws()
	n := &jnode{lo: p.i}
	switch {
	case p.is('{'):
		n.kind = '{'
		p.i++
		p.ws()
		if p.is('}') {
			p.i++
			break
		}
		for {
			p.ws()
			if !p.is('"') {
				p.bad()
			}
			n.keys = append(n.keys, p.str())
			p.ws()
			p.lit(":")
			n.elems = append(n.elems, p.value(depth+1))
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			p.lit("}")
			break
		}
	case p.is('['):
		n.kind = '['
		p.i++
		p.ws()
		if p.is(']') {
			p.i++
			break
		}
		for {
			n.elems = append(n.elems, p.value(depth+1))
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			p.lit("]")
			break
		}
	case p.is('"'):
		return p.str()
	case p.is('t'):
		n.kind = 't'
		p.lit("true")
	case p.is('f'):
		n.kind = 'f'
		p.lit("false")
	case p.is('n'):
		n.kind = '0'
		p.lit("null")
	default:
		n.kind = 'n'
		if p.is('-') {
			p.i++
		}
		if p.is('0') {
			p.i++
		} else if p.digit() {
			for p.digit() {
				p.i++
			}
		} else {
			p.bad()
		}
		if p.is('.') {
			p.i++
			if !p.digit() {
				p.bad()
			}
			for p.digit() {
				p.i++
			}
		}
		if p.is('e') || p.is('E') {
			p.i++
			if p.is('+') || p.is('-') {
				p.i++
			}
			if !p.digit() {
				p.bad()
			}
			for p.digit() {
				p.i++
			}
		}
	}
	n.hi = p.i
	return n
}

func (p *jparser) str() *jnode {
	m := p.m
	n := &jnode{kind: '"', lo: p.i}
	p.i++
	surrogate := false
	for {
		if p.i >= len(p.s) {
			p.bad()
		}
		v := p.s[p.i]
		if t, ok := v.R.(*Term); ok {
			if !m.isSafe(t) {
				if p.is('"') {
					break
				}
				if p.is('\\') {
					v = Val{N: '\\'}
				} else {
					if m.Branch(m.T.Bin(OUlt, t, m.T.Const(0x20, 8))) {
						p.bad()
					}
					if m.Branch(m.T.Bin(OUle, m.T.Const(0x80, 8), t)) {
						panic(unsupported("JSON text with symbolic bytes outside ASCII"))
					}
				}
			}
		}
		if v.R != nil {
			n.s = append(n.s, v)
			p.i++
			continue
		}
		c := byte(v.N)
		if c == '"' {
			break
		}
		if c < 0x20 {
			p.bad()
		}
		p.i++
		if c != '\\' {
			n.s = append(n.s, v)
			continue
		}
		if p.i >= len(p.s) {
			p.bad()
		}
		if p.s[p.i].R != nil {
			panic(unsupported("JSON text with a symbolic escape"))
		}
		e := byte(p.s[p.i].N)
		p.i++
		if k := strings.IndexByte(`"\/bfnrt`, e); k >= 0 {
			n.s = append(n.s, Val{N: uint64("\"\\/\b\f\n\r\t"[k])})
			continue
		}
		if e != 'u' {
			p.i--
			p.bad()
		}
		if p.i+4 > len(p.s) {
			p.fail("unexpected end of JSON input")
		}
		h := p.s[p.i : p.i+4]
		if hb, ok := concBytes(h); ok {
			for _, x := range hb {
				if !strings.ContainsRune("0123456789abcdefABCDEF", rune(x)) {
					p.bad()
				}
			}
			p.i += 4
			x, _ := strconv.ParseUint(string(hb), 16, 32)
			surrogate = surrogate || utf16.IsSurrogate(rune(x))
			n.s = append(n.s, strBytes(strVal(string(rune(x))))...)
			continue
		}
		hi, ok1 := m.nibbleOf(h[2])
		lo, ok2 := m.nibbleOf(h[3])
		if h[0].R != nil || h[1].R != nil || h[0].N != '0' || h[1].N != '0' || !ok1 || !ok2 {
			panic(unsupported("JSON text with a symbolic escape"))
		}
		p.i += 4
		n.s = append(n.s, m.joinNibbles(hi, lo))
	}
	p.i++
	n.hi = p.i
	if b, ok := concBytes(p.s[n.lo:n.hi]); ok {
		var s string
		if json.Unmarshal(b, &s) != nil {
			p.fail("invalid character in string")
		}
		n.s = strBytes(strVal(s))
	} else if surrogate {
		panic(unsupported("JSON surrogates in a symbolic string"))
	}
	return n
}

// nibbleOf is the value of a hexadecimal digit, when that is known.
func (m *Machine) nibbleOf(v Val) (*Term, bool) {
	if v.R == nil {
		k := strings.IndexByte("0123456789abcdef", byte(v.N))
		if k < 0 {
			if k = strings.IndexByte("ABCDEF", byte(v.N)); k < 0 {
				return nil, false
			}
			k += 10
		}
		return m.T.Const(uint64(k), 4), true
	}
	return m.nibble(v)
}

func (m *Machine) joinNibbles(hi, lo *Term) Val {
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.n == lo.n+4 {
		return tval(m.T.Extract(hi.a, uint8(lo.n), 8))
	}
	return tval(m.T.Bin(OOr, m.T.Bin(OShl, m.T.Zext(hi, 8), m.T.Const(4, 8)), m.T.Zext(lo, 8)))
}

// ---- decoding ----

type jdec struct {
	m     *Machine
	g     *G
	s     []Val
	saved Val
}

func (d *jdec) typeErr(n *jnode, t types.Type) {
	if d.saved.R != nil {
		return
	}
	what := map[byte]string{'{': "object", '[': "array", '"': "string", 'n': "number", 't': "bool", 'f': "bool"}[n.kind]
	et := d.m.P.lookupType("encoding/json", "UnmarshalTypeError")
	a := zero(tinfo(et))
	f := a.R.(*Agg).F
	f[fieldByName(et, "Value")] = strVal(what)
	f[fieldByName(et, "Type")] = d.m.rtypeVal(t)
	d.saved = Val{R: &Iface{T: canon(types.NewPointer(et)), V: ptrVal(a)}}
}

func (d *jdec) bytes(n *jnode) Val { return mkSlice(append([]Val{}, d.s[n.lo:n.hi]...)) }

func (d *jdec) check(e Val) {
	if e.R != nil {
		panic(jerr{e})
	}
}

// indirect follows pointers; it reports whether an unmarshaler took the value.
func (d *jdec) indirect(n *jnode, t types.Type, p *Val) (types.Type, *Val, bool) {
	m := d.m
	null := n.kind == '0'
	try := func(pt types.Type, recv Val) bool {
		if fn := m.hasMethod(pt, "UnmarshalJSON", 1, 1); fn != nil {
			d.check(m.callSync(d.g, fn, nil, []Val{recv, d.bytes(n)}))
			return true
		}
		if null {
			return false
		}
		if fn := m.hasMethod(pt, "UnmarshalText", 1, 1); fn != nil {
			if n.kind != '"' {
				d.typeErr(n, pt)
				return true
			}
			d.check(m.callSync(d.g, fn, nil, []Val{recv, mkSlice(append([]Val{}, n.s...))}))
			return true
		}
		return false
	}
	for k := 0; k < 20; k++ {
		ti := tinfo(t)
		if ti.k == KIface && p.R != nil {
			i := p.R.(*Iface)
			if it := tinfo(i.T); it.k == KPtr {
				if q, _ := i.V.R.(*Val); q != nil && (!null || elemTI(it).k == KPtr) {
					if try(i.T, i.V) {
						return nil, nil, true
					}
					t, p = elemTI(it).t, q
					continue
				}
			}
		}
		if ti.k != KPtr {
			if _, named := types.Unalias(t).(*types.Named); named && ti.k != KIface {
				if try(canon(types.NewPointer(t)), Val{R: p}) {
					return nil, nil, true
				}
			}
			return t, p, false
		}
		if null {
			return t, p, false
		}
		q, _ := p.R.(*Val)
		if q == nil {
			z := zero(elemTI(ti))
			q = &z
			*p = Val{R: q}
		}
		if try(t, *p) {
			return nil, nil, true
		}
		t, p = elemTI(ti).t, q
	}
	panic(unsupported("JSON pointer depth"))
}

func (d *jdec) value(n *jnode, t types.Type, p *Val) {
	m := d.m
	t, p, done := d.indirect(n, t, p)
	if done {
		return
	}
	ti := tinfo(t)
	empty := ti.k == KIface && t.Underlying().(*types.Interface).NumMethods() == 0
	anyT := types.NewInterfaceType(nil, nil)
	box := func(t types.Type, v Val) { *p = Val{R: &Iface{T: canon(t), V: v}} }
	switch n.kind {
	case '0':
		switch ti.k {
		case KIface, KPtr, KMap, KSlice:
			*p = Val{}
		}
	case 't', 'f':
		switch {
		case ti.k == KBool:
			*p = boolVal(n.kind == 't')
		case empty:
			box(types.Typ[types.Bool], boolVal(n.kind == 't'))
		default:
			d.typeErr(n, t)
		}
	case '"':
		switch {
		case ti.k == KString:
			*p = bytesStr(n.s)
		case ti.k == KSlice && elemTI(ti).k == KInt && elemTI(ti).w == 8:
			b, ok := concBytes(n.s)
			if !ok {
				panic(unsupported("base64 of symbolic text"))
			}
			q, _ := json.Marshal(string(b))
			var x []byte
			if err := json.Unmarshal(q, &x); err != nil {
				d.saved = m.errString(err.Error())
				return
			}
			*p = bytesVal(x)
		case empty:
			box(types.Typ[types.String], bytesStr(n.s))
		default:
			d.typeErr(n, t)
		}
	case 'n':
		txt := bytesStr(d.s[n.lo:n.hi])
		switch {
		case ti.k == KInt:
			x, ok := m.parseDec(txt, ti.signed)
			if !ok {
				if _, conc := goStr(txt); !conc {
					panic(unsupported("JSON number with symbolic digits"))
				}
				d.typeErr(n, t)
				return
			}
			if x.R != nil && ti.w < 64 {
				panic(unsupported("narrow symbolic JSON number"))
			}
			if ti.w < 64 && (ti.signed && sx(x.N, ti.w) != int64(x.N) || !ti.signed && x.N&mask(ti.w) != x.N) {
				d.typeErr(n, t)
				return
			}
			x.N &= mask(ti.w)
			*p = x
		case ti.k == KFloat || empty:
			var f float64
			if json.Unmarshal([]byte(mustStr(txt)), &f) != nil {
				d.typeErr(n, t)
				return
			}
			if empty {
				box(types.Typ[types.Float64], mkfl(f, 64))
			} else {
				*p = mkfl(f, ti.w)
			}
		default:
			d.typeErr(n, t)
		}
	case '[':
		switch {
		case empty:
			var el []Val
			for _, e := range n.elems {
				var x Val
				d.value(e, anyT, &x)
				el = append(el, x)
			}
			box(types.NewSlice(anyT), mkSlice(el))
		case ti.k == KSlice:
			old := p.R
			var s *Slice
			if old == nil {
				s = &Slice{A: &Agg{}}
			} else {
				c := *old.(*Slice)
				s = &c
			}
			et := elemTI(ti)
			if len(n.elems) > s.Cap {
				f := make([]Val, len(n.elems))
				for i := range f {
					if i < s.Len {
						f[i] = copyVal(s.A.F[s.Off+i])
					} else {
						f[i] = zero(et)
					}
				}
				s = &Slice{A: &Agg{f}, Len: len(f), Cap: len(f)}
			}
			s.Len = len(n.elems)
			*p = Val{R: s}
			for i, e := range n.elems {
				d.value(e, et.t, &s.A.F[s.Off+i])
			}
			if len(n.elems) == 0 {
				*p = mkSlice([]Val{})
			}
		case ti.k == KArray:
			f := p.R.(*Agg).F
			for i, e := range n.elems {
				if i < len(f) {
					d.value(e, ti.elem.t, &f[i])
				}
			}
			for i := len(n.elems); i < len(f); i++ {
				storeVal(&f[i], zero(ti.elem))
			}
		default:
			d.typeErr(n, t)
		}
	case '{':
		switch {
		case empty:
			mt := types.NewMap(types.Typ[types.String], anyT)
			mp := newMap(mt)
			for i, e := range n.elems {
				var x Val
				d.value(e, anyT, &x)
				m.mapSet(mp, bytesStr(n.keys[i].s), x)
			}
			box(mt, Val{R: mp})
		case ti.k == KMap:
			mt := ti.u.(*types.Map)
			kt := tinfo(mt.Key())
			um := m.hasMethod(canon(types.NewPointer(mt.Key())), "UnmarshalText", 1, 1)
			if kt.k != KString && kt.k != KInt && um == nil {
				d.typeErr(n, t)
				return
			}
			mp, _ := p.R.(*Map)
			if mp == nil {
				mp = newMap(t)
				*p = Val{R: mp}
			}
			m.mapUse(d.g, mp, true)
			for i, e := range n.elems {
				x := zero(tinfo(mt.Elem()))
				d.value(e, mt.Elem(), &x)
				k := bytesStr(n.keys[i].s)
				switch {
				case um != nil:
					kv := zero(kt)
					d.check(m.callSync(d.g, um, nil, []Val{{R: &kv}, mkSlice(append([]Val{}, n.keys[i].s...))}))
					k = kv
				case kt.k == KInt:
					y, ok := m.parseDec(k, kt.signed)
					if !ok {
						panic(unsupported("integer map key"))
					}
					k = y
				}
				m.mapSet(mp, k, x)
			}
		case ti.k == KStruct:
			fs := jfields(t)
			for i, e := range n.elems {
				k, ok := goStr(bytesStr(n.keys[i].s))
				if !ok {
					panic(unsupported("symbolic JSON field name"))
				}
				var f *jfield
				for x := range fs {
					if fs[x].name == k {
						f = &fs[x]
					}
				}
				if f == nil {
					for x := range fs {
						if strings.EqualFold(fs[x].name, k) {
							f = &fs[x]
							break
						}
					}
				}
				if f != nil {
					d.value(e, f.t, &p.R.(*Agg).F[f.i])
				}
			}
		default:
			d.typeErr(n, t)
		}
	}
}

func (m *Machine) syntaxError(s string) Val {
	et := m.P.lookupType("encoding/json", "SyntaxError")
	a := zero(tinfo(et))
	a.R.(*Agg).F[fieldByName(et, "msg")] = strVal(s)
	return Val{R: &Iface{T: canon(types.NewPointer(et)), V: ptrVal(a)}}
}

// hexDigits renders a symbolic number in base 16 (forking on its length).
func (m *Machine) hexDigits(words []*Term) []Val {
	var nibs []*Term
	for _, w := range words { // least significant first
		for k := uint8(0); k < w.w; k += 4 {
			nibs = append(nibs, m.T.Extract(w, k, 4))
		}
	}
	for len(nibs) > 1 && m.Branch(m.T.Bin(OEq, nibs[len(nibs)-1], m.T.Const(0, 4))) {
		nibs = nibs[:len(nibs)-1]
	}
	var b []Val
	for i := len(nibs) - 1; i >= 0; i-- {
		if nibs[i].isC() {
			b = append(b, Val{N: uint64("0123456789abcdef"[nibs[i].n])})
			continue
		}
		b = append(b, m.hexChar(nibs[i]))
	}
	return b
}

func regJSON() {
	catch := func(f func()) (err Val) {
		defer func() {
			if e := recover(); e != nil {
				x, ok := e.(jerr)
				if !ok {
					panic(e)
				}
				err = x.v
			}
		}()
		f()
		return Val{}
	}
	reg("encoding/json.Marshal", func(m *Machine, c *Call) Val {
		j := &jenc{m: m, g: c.g}
		err := catch(func() { j.value(types.NewInterfaceType(nil, nil), c.args[0], nil, 0) })
		if err.R != nil {
			return tup(Val{}, err)
		}
		return tup(mkSlice(j.b), Val{})
	})
	reg("encoding/json.Unmarshal", func(m *Machine, c *Call) Val {
		s := append([]Val{}, sliceOf(c.args[0])...)
		n, se := m.jparse(s)
		if se != "" {
			return m.syntaxError(se)
		}
		i, _ := c.args[1].R.(*Iface)
		if i == nil || tinfo(i.T).k != KPtr {
			return m.errString("json: Unmarshal(nil)")
		}
		q, _ := i.V.R.(*Val)
		if q == nil {
			return m.errString("json: Unmarshal(nil " + i.T.String() + ")")
		}
		d := &jdec{m: m, g: c.g, s: s}
		err := catch(func() {
			p := Val{R: q}
			d.value(n, i.T, &p)
		})
		if err.R != nil {
			return err
		}
		return d.saved
	})
	reg("encoding/json.Valid", func(m *Machine, c *Call) Val {
		_, e := m.jparse(sliceOf(c.args[0]))
		return boolVal(e == "")
	})
	reg("encoding/hex.Encode", func(m *Machine, c *Call) Val {
		dst, src := sliceOf(c.args[0]), sliceOf(c.args[1])
		if len(dst) < 2*len(src) {
			m.rtPanic("index out of range")
		}
		for i, x := range src {
			t := m.term(x, 8)
			for k, n := range []*Term{m.T.Extract(t, 4, 4), m.T.Extract(t, 0, 4)} {
				if n.isC() {
					dst[2*i+k] = Val{N: uint64("0123456789abcdef"[n.n])}
				} else {
					dst[2*i+k] = m.hexChar(n)
				}
			}
		}
		return intVal(2 * len(src))
	})
	reg("encoding/hex.Decode", func(m *Machine, c *Call) Val {
		dst, src := sliceOf(c.args[0]), sliceOf(c.args[1])
		out := make([]Val, len(src)/2)
		for i := range out {
			hi, ok1 := m.nibbleOf(src[2*i])
			lo, ok2 := m.nibbleOf(src[2*i+1])
			if !ok1 || !ok2 {
				return Val{R: fallMark}
			}
			out[i] = m.joinNibbles(hi, lo)
		}
		if len(src)%2 == 1 || len(dst) < len(out) {
			return Val{R: fallMark}
		}
		copy(dst, out)
		return tup(intVal(len(out)), Val{})
	})
	reg("github.com/openrelayxyz/cardinal-types/hexutil.decodeNibble", func(m *Machine, c *Call) Val {
		if n, ok := m.nibble(c.args[0]); ok {
			return tval(m.T.Zext(n, 64))
		}
		return Val{R: fallMark}
	})
	reg("strconv.AppendUint", func(m *Machine, c *Call) Val {
		if c.args[1].R == nil || c.args[2].R != nil || c.args[2].N != 16 && c.args[2].N != 10 {
			return Val{R: fallMark}
		}
		b := append([]Val{}, sliceOf(c.args[0])...)
		if c.args[2].N == 16 {
			b = append(b, m.hexDigits([]*Term{c.args[1].R.(*Term)})...)
		} else {
			b = append(b, strBytes(m.fmtInt(c.args[1], 64, false))...)
		}
		return mkSlice(b)
	})
}
