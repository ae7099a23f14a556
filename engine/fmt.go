package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type fbuf struct {
	m *Machine
	g *G
	b []Val
}

func (f *fbuf) str(s string) {
	for i := 0; i < len(s); i++ {
		f.b = append(f.b, Val{N: uint64(s[i])})
	}
}
func (f *fbuf) val(v Val) { f.b = append(f.b, strBytes(v)...) }

type fspec struct {
	verb                            rune
	plus, minus, sharp, space, zero bool
	wid, prec                       int // -1 absent
}

func (s fspec) String() string {
	r := "%"
	if s.plus {
		r += "+"
	}
	if s.minus {
		r += "-"
	}
	if s.sharp {
		r += "#"
	}
	if s.space {
		r += " "
	}
	if s.zero {
		r += "0"
	}
	if s.wid >= 0 {
		r += strconv.Itoa(s.wid)
	}
	if s.prec >= 0 {
		r += "." + strconv.Itoa(s.prec)
	}
	return r + string(s.verb)
}

func (m *Machine) sprintf(g *G, format string, args []Val) Val {
	f := &fbuf{m: m, g: g}
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			f.b = append(f.b, Val{N: uint64(format[i])})
			i++
			continue
		}
		i++
		sp := fspec{wid: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
		}
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if ai < len(args) {
					n := int(int64(m.Concretize(args[ai].R.(*Iface).V, 64)))
					ai++
					return n
				}
				return -1
			}
			n := -1
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				if n < 0 {
					n = 0
				}
				n = n*10 + int(format[i]-'0')
				i++
			}
			return n
		}
		sp.wid = num()
		if i < len(format) && format[i] == '.' {
			i++
			sp.prec = num()
			if sp.prec < 0 {
				sp.prec = 0
			}
		}
		if i < len(format) && format[i] == '[' {
			panic(unsupported("indexed format argument"))
		}
		if i >= len(format) {
			f.str("%!(NOVERB)")
			break
		}
		r, sz := utf8.DecodeRuneInString(format[i:])
		i += sz
		if r == '%' {
			f.str("%")
			continue
		}
		sp.verb = r
		if ai >= len(args) {
			f.str("%!" + string(r) + "(MISSING)")
			continue
		}
		f.arg(sp, args[ai])
		ai++
	}
	if ai < len(args) {
		f.str("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				f.str(", ")
			}
			if a.R == nil {
				f.str("<nil>")
			} else {
				f.str(a.R.(*Iface).T.String() + "=")
				f.arg(fspec{verb: 'v', wid: -1, prec: -1}, a)
			}
		}
		f.str(")")
	}
	return bytesStr(f.b)
}

func (f *fbuf) arg(sp fspec, a Val) {
	if a.R == nil {
		switch sp.verb {
		case 'T', 'v':
			f.str("<nil>")
		default:
			f.str("%!" + string(sp.verb) + "(<nil>)")
		}
		return
	}
	i := a.R.(*Iface)
	if sp.verb == 'T' {
		f.str(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
		return
	}
	f.value(sp, i.V, i.T, 0)
}

func hexDigit(m *Machine, n *Term, up bool) Val {
	a := byte('a')
	if up {
		a = 'A'
	}
	n8 := m.T.Zext(n, 8)
	return tval(m.T.Ite(m.T.Bin(OUlt, n8, m.T.Const(10, 8)), m.T.Bin(OAdd, n8, m.T.Const('0', 8)), m.T.Bin(OAdd, n8, m.T.Const(uint64(a)-10, 8))))
}

func (f *fbuf) hex(sp fspec, b []Val) {
	if len(b) == 0 {
		return
	}
	if sp.sharp {
		f.str("0" + string(sp.verb))
	}
	for k, x := range b {
		if sp.space && k > 0 {
			f.str(" ")
			if sp.sharp {
				f.str("0" + string(sp.verb))
			}
		}
		if x.R == nil {
			if sp.verb == 'X' {
				f.str(fmt.Sprintf("%02X", x.N))
			} else {
				f.str(fmt.Sprintf("%02x", x.N))
			}
			continue
		}
		t := x.R.(*Term)
		f.b = append(f.b, f.m.hexChr(f.m.T.Extract(t, 4, 4), sp.verb == 'X'), f.m.hexChr(f.m.T.Extract(t, 0, 4), sp.verb == 'X'))
	}
}

func (m *Machine) hexChr(n *Term, up bool) Val {
	if up {
		return hexDigit(m, n, true)
	}
	return m.hexChar(n)
}

// bigInt renders a *big.Int in base 16; other verbs go through String.
func (f *fbuf) bigInt(sp fspec, v Val) bool {
	q, _ := v.R.(*Val)
	if q == nil || sp.verb != 'x' && sp.verb != 'X' {
		return false
	}
	a := q.R.(*Agg).F
	abs := sliceOf(a[1])
	neg := f.m.truth(a[0])
	var ws []*Term
	conc := new(big.Int)
	sym := false
	for i, w := range abs {
		if w.R != nil {
			sym = true
		}
		ws = append(ws, f.m.term(w, 64))
		conc.Add(conc, new(big.Int).Lsh(new(big.Int).SetUint64(w.N), uint(64*i)))
	}
	if !sym {
		if neg {
			conc.Neg(conc)
		}
		f.str(fmt.Sprintf(sp.String(), conc))
		return true
	}
	if sp.wid >= 0 || sp.prec >= 0 || sp.plus || sp.space || sp.verb == 'X' {
		panic(unsupported("format %s of a symbolic big.Int", sp))
	}
	if neg {
		f.str("-")
	}
	if sp.sharp {
		f.str("0x")
	}
	f.b = append(f.b, f.m.hexDigits(ws)...)
	return true
}

var hashFormatters = map[string]bool{"github.com/openrelayxyz/cardinal-types.Hash": true}

func (f *fbuf) value(sp fspec, v Val, t types.Type, depth int) {
	m := f.m
	if depth > 8 {
		panic(unsupported("format depth"))
	}
	t = canon(t)
	exported := true
	if exported && !(sp.verb == 'v' && sp.sharp) {
		if hashFormatters[t.String()] {
			b := v.R.(*Agg).F
			switch sp.verb {
			case 'x', 'X':
				f.hex(sp, b)
			case 'v', 's':
				f.hex(fspec{verb: 'x', sharp: true}, b)
			case 'q':
				f.str("\"")
				f.hex(fspec{verb: 'x', sharp: true}, b)
				f.str("\"")
			default:
				f.str("%!" + string(sp.verb) + "(hash)")
			}
			return
		}
		if mt := m.method(t, nil, "Format"); mt != nil && mt.nparam == 3 {
			if n, ok := mt.ssa.Signature.Params().At(0).Type().(*types.Named); ok && n.Obj().Name() == "State" {
				switch t.String() {
				case "*math/big.Int":
					if f.bigInt(sp, v) {
						return
					}
				default:
					panic(unsupported("fmt.Formatter %s", t))
				}
			}
		}
		switch sp.verb {
		case 'v', 's', 'x', 'X', 'q':
			for _, name := range []string{"Error", "String"} {
				mt := m.method(t, nil, name)
				if mt == nil || mt.nparam != 1 || mt.nres != 1 || mt.resTI[0].k != KString {
					continue
				}
				if tinfo(t).k == KPtr && (v.R == nil || v.R == (*Val)(nil)) {
					f.str("<nil>")
					return
				}
				s := m.callSync(f.g, mt, nil, []Val{v})
				f.prim(sp, s, tinfo(types.Typ[types.String]))
				return
			}
		}
	}
	ti := tinfo(t)
	switch ti.k {
	case KBool, KInt, KFloat, KString:
		f.prim(sp, v, ti)
	case KSlice, KArray:
		var el []Val
		if ti.k == KSlice {
			el = sliceOf(v)
		} else {
			el = v.R.(*Agg).F
		}
		et := elemTI(ti)
		if et.k == KInt && et.w == 8 && !et.signed {
			switch sp.verb {
			case 's', 'q':
				f.prim(sp, bytesStr(el), tinfo(types.Typ[types.String]))
				return
			case 'x', 'X':
				f.hex(sp, el)
				return
			}
		}
		if sp.verb == 'v' && sp.sharp {
			panic(unsupported("%%#v of %s", t))
		}
		f.str("[")
		for k, x := range el {
			if k > 0 {
				f.str(" ")
			}
			f.elem(sp, x, et.t, depth)
		}
		f.str("]")
	case KMap:
		mp, _ := v.R.(*Map)
		mt := ti.u.(*types.Map)
		f.str("map[")
		if mp != nil {
			type kv struct{ k, v []Val }
			var kvs []kv
			for _, e := range mp.ents {
				if !e.live {
					continue
				}
				a := &fbuf{m: m, g: f.g}
				a.elem(sp, e.K, mt.Key(), depth)
				b := &fbuf{m: m, g: f.g}
				b.elem(sp, e.V, mt.Elem(), depth)
				kvs = append(kvs, kv{a.b, b.b})
			}
			sort.SliceStable(kvs, func(i, j int) bool {
				x, _ := goStr(bytesStr(kvs[i].k))
				y, _ := goStr(bytesStr(kvs[j].k))
				return x < y
			})
			for k, e := range kvs {
				if k > 0 {
					f.str(" ")
				}
				f.b = append(f.b, e.k...)
				f.str(":")
				f.b = append(f.b, e.v...)
			}
		}
		f.str("]")
	case KStruct:
		f.str("{")
		for k, x := range v.R.(*Agg).F {
			if k > 0 {
				f.str(" ")
			}
			if sp.plus {
				f.str(ti.u.(*types.Struct).Field(k).Name() + ":")
			}
			f.elem(sp, x, ti.u.(*types.Struct).Field(k).Type(), depth)
		}
		f.str("}")
	case KPtr:
		q, _ := v.R.(*Val)
		if q == nil {
			f.str("<nil>")
			return
		}
		if depth == 0 {
			if et := elemTI(ti); et.k == KStruct || et.k == KArray {
				f.str("&")
				f.value(sp, *q, et.t, depth+1)
				return
			}
		}
		f.str("0xc000010000")
	case KIface:
		f.elem(sp, v, t, depth)
	default:
		if v.R == nil {
			f.str("<nil>")
			return
		}
		f.str("0xc000010000")
	}
}

func (f *fbuf) elem(sp fspec, x Val, t types.Type, depth int) {
	if tinfo(t).k == KIface {
		if x.R == nil {
			f.str("<nil>")
			return
		}
		i := x.R.(*Iface)
		f.value(sp, i.V, i.T, depth+1)
		return
	}
	f.value(sp, x, t, depth+1)
}

func (f *fbuf) prim(sp fspec, v Val, ti *TI) {
	m := f.m
	switch ti.k {
	case KString:
		s, ok := goStr(v)
		switch {
		case ok:
			f.str(fmt.Sprintf(sp.String(), s))
		case sp.verb == 'v' || sp.verb == 's':
			f.val(v)
		case sp.verb == 'x' || sp.verb == 'X':
			f.hex(sp, strBytes(v))
		case sp.verb == 'q':
			f.str("\"")
			f.val(v)
			f.str("\"")
		default:
			panic(unsupported("format %s of symbolic string", sp))
		}
	case KBool:
		f.str(fmt.Sprintf(sp.String(), m.truth(v)))
	case KFloat:
		f.str(fmt.Sprintf(sp.String(), fl(v, ti.w)))
	case KInt:
		if v.R != nil {
			switch sp.verb {
			case 'v', 'd':
				if sp.wid < 0 && !sp.plus {
					f.val(m.fmtInt(v, ti.w, ti.signed))
					return
				}
			}
			if sp.verb == 'x' && sp.wid < 0 && !sp.plus && !ti.signed {
				if sp.sharp {
					f.str("0x")
				}
				f.b = append(f.b, m.hexDigits([]*Term{v.R.(*Term)})...)
				return
			}
			v = Val{N: m.Concretize(v, ti.w)}
		}
		if ti.signed {
			f.str(fmt.Sprintf(sp.String(), sx(v.N, ti.w)))
		} else {
			f.str(fmt.Sprintf(sp.String(), v.N))
		}
	}
}

func (m *Machine) sprint(g *G, args []Val, ln bool) Val {
	f := &fbuf{m: m, g: g}
	isStr := func(a Val) bool {
		i, ok := a.R.(*Iface)
		return ok && tinfo(i.T).k == KString
	}
	for k, a := range args {
		if k > 0 && (ln || (!isStr(a) && !isStr(args[k-1]))) {
			f.str(" ")
		}
		f.arg(fspec{verb: 'v', wid: -1, prec: -1}, a)
	}
	if ln {
		f.str("\n")
	}
	return bytesStr(f.b)
}

func regFmt() {
	reg("fmt.Sprintf", func(m *Machine, c *Call) Val {
		return m.sprintf(c.g, mustStr(c.args[0]), sliceOf(c.args[1]))
	})
	reg("fmt.Appendf", func(m *Machine, c *Call) Val {
		s := m.sprintf(c.g, mustStr(c.args[1]), sliceOf(c.args[2]))
		b := append(append([]Val{}, sliceOf(c.args[0])...), strBytes(s)...)
		return mkSlice(b)
	})
	reg("fmt.Sprint", func(m *Machine, c *Call) Val { return m.sprint(c.g, sliceOf(c.args[0]), false) })
	reg("fmt.Sprintln", func(m *Machine, c *Call) Val { return m.sprint(c.g, sliceOf(c.args[0]), true) })
	for _, n := range []string{"Print", "Println", "Printf"} {
		reg("fmt."+n, noop)
	}
	fp := func(ln int) Intrinsic {
		return func(m *Machine, c *Call) Val {
			var s Val
			switch ln {
			case 0:
				s = m.sprintf(c.g, mustStr(c.args[1]), sliceOf(c.args[2]))
			case 1:
				s = m.sprint(c.g, sliceOf(c.args[1]), false)
			default:
				s = m.sprint(c.g, sliceOf(c.args[1]), true)
			}
			w, _ := c.args[0].R.(*Iface)
			if w == nil {
				m.rtPanic(nilDeref)
			}
			if w.T.String() == "*os.File" {
				return tup(intVal(strLen(s)), Val{})
			}
			b := append([]Val{}, strBytes(s)...)
			return m.callSync(c.g, m.method(w.T, nil, "Write"), nil, []Val{w.V, mkSlice(b)})
		}
	}
	reg("fmt.Fprintf", fp(0))
	reg("fmt.Fprint", fp(1))
	reg("fmt.Fprintln", fp(2))
	reg("fmt.Errorf", func(m *Machine, c *Call) Val {
		format := mustStr(c.args[0])
		args := sliceOf(c.args[1])
		s := m.sprintf(c.g, strings.ReplaceAll(format, "%w", "%v"), args)
		var wrapped Val
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] == '%' && i+1 < len(format) {
				j := i + 1
				for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
					j++
				}
				if j < len(format) {
					if format[j] == 'w' && n < len(args) {
						wrapped = args[n]
					}
					if format[j] != '%' {
						n++
					}
				}
				i = j
			}
		}
		if wrapped.R == nil {
			es, ok := goStr(s)
			if !ok {
				fn := m.P.lookupFn("errors", "New")
				return m.callSync(c.g, fn, nil, []Val{s})
			}
			return m.errString(es)
		}
		t := m.P.lookupType("fmt", "wrapError")
		return Val{R: &Iface{T: canon(types.NewPointer(t)), V: ptrVal(Val{R: &Agg{[]Val{s, wrapped}}})}}
	})
}
