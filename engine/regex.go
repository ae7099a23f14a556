package main

import (
	"regexp"
	"regexp/syntax"
	"unicode"
)

// A compiled pattern in the interpreted heap: a *regexp.Regexp whose first
// field holds a *goRegex.
type goRegex struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (m *Machine) regexOf(v Val) *goRegex {
	p, _ := v.R.(*Val)
	if p == nil {
		m.rtPanic(nilDeref)
	}
	r, _ := p.R.(*Agg).F[0].R.(*goRegex)
	if r == nil {
		panic(unsupported("uninitialised regexp"))
	}
	return r
}

// match finds the leftmost-first match in b from position at; symbolic bytes
// are decided by branching.
func (m *Machine) rmatch(r *goRegex, b []Val, anchoredAt int) (s, e int, ok bool) {
	if cb, conc := concBytes(b); conc {
		loc := r.re.FindIndex(cb)
		if loc == nil {
			return 0, 0, false
		}
		return loc[0], loc[1], true
	}
	for i := 0; i <= len(b); i++ {
		if end, ok := m.rtry(r.prog, b, i); ok {
			return i, end, true
		}
		if r.prog.StartCond()&syntax.EmptyBeginText != 0 {
			break
		}
	}
	return 0, 0, false
}

func (m *Machine) rtry(p *syntax.Prog, b []Val, start int) (int, bool) {
	visited := map[[2]int]bool{}
	var rec func(pc, pos int) (int, bool)
	isWord := func(pos int) bool {
		if pos < 0 || pos >= len(b) {
			return false
		}
		t := m.term(b[pos], 8)
		in := func(lo, hi byte) *Term {
			return m.T.And(m.T.Bin(OUle, m.T.Const(uint64(lo), 8), t), m.T.Bin(OUle, t, m.T.Const(uint64(hi), 8)))
		}
		c := m.T.Or(m.T.Or(in('0', '9'), in('a', 'z')), m.T.Or(in('A', 'Z'), m.T.Bin(OEq, t, m.T.Const('_', 8))))
		return m.Branch(c)
	}
	rec = func(pc, pos int) (int, bool) {
		k := [2]int{pc, pos}
		if visited[k] {
			return 0, false
		}
		visited[k] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			if e, ok := rec(int(in.Out), pos); ok {
				return e, true
			}
			return rec(int(in.Arg), pos)
		case syntax.InstCapture, syntax.InstNop:
			return rec(int(in.Out), pos)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if op&(syntax.EmptyBeginText) != 0 && pos != 0 {
				return 0, false
			}
			if op&(syntax.EmptyEndText) != 0 && pos != len(b) {
				return 0, false
			}
			if op&syntax.EmptyBeginLine != 0 && pos != 0 && !m.Branch(m.T.Bin(OEq, m.term(b[pos-1], 8), m.T.Const('\n', 8))) {
				return 0, false
			}
			if op&syntax.EmptyEndLine != 0 && pos != len(b) && !m.Branch(m.T.Bin(OEq, m.term(b[pos], 8), m.T.Const('\n', 8))) {
				return 0, false
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				wb := isWord(pos-1) != isWord(pos)
				if (op&syntax.EmptyWordBoundary != 0) != wb {
					return 0, false
				}
			}
			return rec(int(in.Out), pos)
		case syntax.InstMatch:
			return pos, true
		case syntax.InstFail:
			return 0, false
		default:
			if pos >= len(b) || !m.rstep(in, b[pos]) {
				return 0, false
			}
			return rec(int(in.Out), pos+1)
		}
	}
	return rec(p.Start, start)
}

// rstep decides whether one byte (ASCII) is accepted by a rune instruction.
func (m *Machine) rstep(in *syntax.Inst, b Val) bool {
	if b.R == nil {
		if b.N >= 0x80 {
			panic(unsupported("non-ASCII byte in a partly symbolic regexp match"))
		}
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return b.N != '\n'
		}
		return in.MatchRune(rune(b.N))
	}
	t := b.R.(*Term)
	if !m.Branch(m.T.Bin(OUlt, t, m.T.Const(0x80, 8))) {
		panic(unsupported("non-ASCII symbolic byte in a regexp match"))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return !m.Branch(m.T.Bin(OEq, t, m.T.Const('\n', 8)))
	}
	c := m.T.False
	add := func(lo, hi rune) {
		if lo > 0x7f {
			return
		}
		if hi > 0x7f {
			hi = 0x7f
		}
		if lo == hi {
			c = m.T.Or(c, m.T.Bin(OEq, t, m.T.Const(uint64(lo), 8)))
			return
		}
		c = m.T.Or(c, m.T.And(m.T.Bin(OUle, m.T.Const(uint64(lo), 8), t), m.T.Bin(OUle, t, m.T.Const(uint64(hi), 8))))
	}
	rs := in.Rune
	if len(rs) == 1 {
		add(rs[0], rs[0])
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for r := unicode.SimpleFold(rs[0]); r != rs[0]; r = unicode.SimpleFold(r) {
				add(r, r)
			}
		}
	} else {
		for i := 0; i+1 < len(rs); i += 2 {
			add(rs[i], rs[i+1])
		}
	}
	return m.Branch(c)
}

func regRegexp() {
	mk := func(m *Machine, src string) (Val, error) {
		re, err := regexp.Compile(src)
		if err != nil {
			return Val{}, err
		}
		ast, _ := syntax.Parse(src, syntax.Perl)
		prog, err := syntax.Compile(ast.Simplify())
		if err != nil {
			return Val{}, err
		}
		v := zero(tinfo(m.P.lookupType("regexp", "Regexp")))
		v.R.(*Agg).F[0].R = &goRegex{src, re, prog}
		return ptrVal(v), nil
	}
	reg("regexp.Compile", func(m *Machine, c *Call) Val {
		v, err := mk(m, mustStr(c.args[0]))
		if err != nil {
			return tup(Val{}, m.errString(err.Error()))
		}
		return tup(v, Val{})
	})
	reg("regexp.MustCompile", func(m *Machine, c *Call) Val {
		v, err := mk(m, mustStr(c.args[0]))
		if err != nil {
			panic(goPanic{m.ifaceStr("regexp: Compile: " + err.Error())})
		}
		return v
	})
	reg("regexp.QuoteMeta", func(m *Machine, c *Call) Val { return strVal(regexp.QuoteMeta(mustStr(c.args[0]))) })
	R := "(*regexp.Regexp)."
	reg(R+"String", func(m *Machine, c *Call) Val { return strVal(m.regexOf(c.args[0]).src) })
	reg("(*regexp.Regexp).NumSubexp", func(m *Machine, c *Call) Val { return intVal(m.regexOf(c.args[0]).re.NumSubexp()) })
	find := func(str bool, get func(Val) []Val, res int) Intrinsic {
		return func(m *Machine, c *Call) Val {
			b := get(c.args[1])
			s, e, ok := m.rmatch(m.regexOf(c.args[0]), b, -1)
			switch res {
			case 0:
				return boolVal(ok)
			case 1:
				if !ok {
					return Val{}
				}
				if str {
					return bytesStr(b[s:e])
				}
				sl := c.args[1].R
				if sl == nil {
					return Val{}
				}
				p := sl.(*Slice)
				return Val{R: &Slice{p.A, p.Off + s, e - s, e - s}}
			default:
				if !ok {
					return Val{}
				}
				return mkSlice([]Val{intVal(s), intVal(e)})
			}
		}
	}
	reg(R+"MatchString", find(true, strBytes, 0))
	reg(R+"Match", find(false, sliceOf, 0))
	reg(R+"FindString", find(true, strBytes, 1))
	reg(R+"Find", find(false, sliceOf, 1))
	reg(R+"FindStringIndex", find(true, strBytes, 2))
	reg(R+"FindIndex", find(false, sliceOf, 2))
	reg("regexp.MatchString", func(m *Machine, c *Call) Val {
		v, err := mk(m, mustStr(c.args[0]))
		if err != nil {
			return tup(Val{}, m.errString(err.Error()))
		}
		_, _, ok := m.rmatch(m.regexOf(v), strBytes(c.args[1]), -1)
		return tup(boolVal(ok), Val{})
	})
	reg(R+"FindStringSubmatch", func(m *Machine, c *Call) Val {
		s := mustStr(c.args[1])
		x := m.regexOf(c.args[0]).re.FindStringSubmatch(s)
		if x == nil {
			return Val{}
		}
		var o []Val
		for _, y := range x {
			o = append(o, strVal(y))
		}
		return mkSlice(o)
	})
	reg(R+"ReplaceAllString", func(m *Machine, c *Call) Val {
		return strVal(m.regexOf(c.args[0]).re.ReplaceAllString(mustStr(c.args[1]), mustStr(c.args[2])))
	})
	ints := func(x []int) Val {
		var o []Val
		for _, y := range x {
			o = append(o, intVal(y))
		}
		if o == nil {
			return Val{}
		}
		return mkSlice(o)
	}
	reg(R+"FindStringSubmatchIndex", func(m *Machine, c *Call) Val {
		return ints(m.regexOf(c.args[0]).re.FindStringSubmatchIndex(mustStr(c.args[1])))
	})
	reg(R+"FindAllString", func(m *Machine, c *Call) Val {
		var o []Val
		for _, y := range m.regexOf(c.args[0]).re.FindAllString(mustStr(c.args[1]), int(int64(c.args[2].N))) {
			o = append(o, strVal(y))
		}
		if o == nil {
			return Val{}
		}
		return mkSlice(o)
	})
	reg(R+"FindAllStringIndex", func(m *Machine, c *Call) Val {
		var o []Val
		for _, y := range m.regexOf(c.args[0]).re.FindAllStringIndex(mustStr(c.args[1]), int(int64(c.args[2].N))) {
			o = append(o, ints(y))
		}
		if o == nil {
			return Val{}
		}
		return mkSlice(o)
	})
	for _, n := range []string{"Longest", "FindSubmatch", "FindSubmatchIndex", "FindAll", "FindAllIndex", "FindAllSubmatch", "FindAllSubmatchIndex", "FindAllStringSubmatch",
		"FindAllStringSubmatchIndex", "ReplaceAll", "ReplaceAllFunc", "ReplaceAllLiteral", "ReplaceAllLiteralString", "ReplaceAllStringFunc", "Split", "SubexpNames",
		"SubexpIndex", "Expand", "ExpandString", "FindReaderIndex", "FindReaderSubmatchIndex", "MatchReader"} {
		n := n
		reg(R+n, func(m *Machine, c *Call) Val { panic(unsupported("regexp." + n)) })
	}
	reg(R+"LiteralPrefix", func(m *Machine, c *Call) Val {
		a, b := m.regexOf(c.args[0]).re.LiteralPrefix()
		return tup(strVal(a), boolVal(b))
	})
}
