package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type IOp uint8

const (
	INop IOp = iota
	IAlloc
	IBin
	INot
	INeg
	ICompl
	ILoad
	IRecv
	ICall
	IInvoke
	IBuiltin
	IMove // ChangeType, ChangeInterface
	IConvert
	IDefer
	IExtract
	IField
	IFieldAddr
	IGo
	IIf
	IIndex
	IIndexAddr
	IJump
	ILookup
	IMakeChan
	IMakeClosure
	IMakeIface
	IMakeMap
	IMakeSlice
	IMapUpdate
	INext
	IPanic
	IRange
	IReturn
	IRunDefers
	ISelect
	ISend
	ISlice
	ISliceToArr
	IStore
	ITypeAssert
	IUnsupported
)

type opnd struct {
	k uint8 // 0 slot, 1 const, 2 global, 3 absent
	i int
	v Val
	g *ssa.Global
}

type phi struct {
	dst   int
	edges []opnd
}

type Ins struct {
	op      IOp
	dst     int
	a, b, c opnd
	args    []opnd
	tok     token.Token
	ti, tj  *TI
	i, j    int
	fn      *Fn
	call    *ssa.CallCommon
	ssa     ssa.Instruction
	flag    bool
	name    string
	mfn     *types.Func
	states  []*ssa.SelectState
	typ     types.Type
	kind    IOp // for defer/go: ICall/IInvoke/IBuiltin
}

type Blk struct {
	phis []phi
	ins  []Ins
	succ []int
	pred []int
}

type Fn struct {
	ssa     *ssa.Function
	name    string
	nregs   int
	nparam  int
	nfree   int
	blocks  []Blk
	intr    Intrinsic
	recover int
	once    sync.Once
	bodyOnce sync.Once
	repo    bool
	err     string
	nres    int
	resTI   []*TI
	executed uint32
	instrs  int
	hasDefer bool
}

type Prog struct {
	prog    *ssa.Program
	mu      sync.Mutex
	fns     map[*ssa.Function]*Fn
	repoPfx string
	msets   sync.Map // key msKey -> *Fn
	rtErr   types.Type
	model   map[string]*ssa.Function
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnL(f)
}

func (p *Prog) fnL(f *ssa.Function) *Fn {
	if x, ok := p.fns[f]; ok {
		return x
	}
	x := &Fn{ssa: f, name: fnName(f), recover: -1}
	if m, ok := p.model[x.name]; ok && m != f {
		y := p.fnL(m)
		p.fns[f] = y
		return y
	}
	if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), p.repoPfx) {
		x.repo = true
	} else if f.Pkg == nil && f.Origin() != nil && f.Origin().Pkg != nil && strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), p.repoPfx) {
		x.repo = true
	}
	// f.Params is only set once the package is built
	sig := f.Signature
	x.nparam = sig.Params().Len()
	if sig.Recv() != nil {
		x.nparam++
	}
	if n := len(f.Params); n > 0 {
		x.nparam = n
	}
	x.nfree = len(f.FreeVars)
	x.nres = sig.Results().Len()
	for i := 0; i < x.nres; i++ {
		x.resTI = append(x.resTI, tinfo(sig.Results().At(i).Type()))
	}
	x.intr = lookupIntrinsic(x.name, f)
	p.fns[f] = x
	return x
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

// body compiles the function although it has an intrinsic (fall-through).
func (p *Prog) body(x *Fn) {
	x.bodyOnce.Do(func() {
		p.build(x.ssa)
		if len(x.ssa.Blocks) == 0 {
			x.err = "no body: " + x.name
			return
		}
		p.compile(x)
	})
}

func (p *Prog) build(f *ssa.Function) {
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

// ready compiles the body on first use.
func (p *Prog) ready(x *Fn) {
	x.once.Do(func() {
		if x.intr != nil {
			return
		}
		p.build(x.ssa)
		if len(x.ssa.Blocks) == 0 {
			x.err = "no body: " + x.name
			return
		}
		p.compile(x)
	})
}

func (p *Prog) compile(x *Fn) {
	f := x.ssa
	slots := map[ssa.Value]int{}
	n := 0
	for _, v := range f.Params {
		slots[v] = n
		n++
	}
	for _, v := range f.FreeVars {
		slots[v] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
		}
	}
	x.nregs = n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{k: 3}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{k: 1, v: constVal(v)}
		case *ssa.Global:
			return opnd{k: 2, g: v}
		case *ssa.Function:
			return opnd{k: 1, v: Val{R: &Closure{Fn: p.fn(v)}}}
		case *ssa.Builtin:
			return opnd{k: 1, v: Val{R: v}}
		}
		i, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, f))
		}
		return opnd{i: i}
	}
	ops := func(vs []ssa.Value) []opnd {
		r := make([]opnd, len(vs))
		for i, v := range vs {
			r[i] = op(v)
		}
		return r
	}
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
	x.blocks = make([]Blk, len(f.Blocks))
	for bi, b := range f.Blocks {
		bb := &x.blocks[bi]
		for _, s := range b.Succs {
			bb.succ = append(bb.succ, s.Index)
		}
		for _, s := range b.Preds {
			bb.pred = append(bb.pred, s.Index)
		}
		for _, in := range b.Instrs {
			I := Ins{ssa: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				I.dst = slots[v]
			}
			docall := func(c *ssa.CallCommon) IOp {
				I.call = c
				I.args = ops(c.Args)
				if c.IsInvoke() {
					I.a = op(c.Value)
					I.mfn = c.Method
					return IInvoke
				}
				if bl, ok := c.Value.(*ssa.Builtin); ok {
					I.name = bl.Name()
					for _, a := range c.Args {
						if I.ti == nil {
							I.ti = tinfo(a.Type())
						} else if I.tj == nil {
							I.tj = tinfo(a.Type())
						}
					}
					if v, ok := in.(ssa.Value); ok {
						I.typ = v.Type()
					}
					return IBuiltin
				}
				I.a = op(c.Value)
				if sf := c.StaticCallee(); sf != nil {
					if _, isMC := c.Value.(*ssa.MakeClosure); !isMC {
						I.fn = p.fn(sf)
					}
				}
				return ICall
			}
			switch v := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: I.dst}
				ph.edges = ops(v.Edges)
				bb.phis = append(bb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				I.op = IAlloc
				I.ti = tinfo(v.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				I.op = IBin
				I.a, I.b = op(v.X), op(v.Y)
				I.tok = v.Op
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Y.Type())
				if isNilConst(v.X) {
					I.ti = I.tj
				}
			case *ssa.UnOp:
				I.a = op(v.X)
				I.ti = tinfo(v.X.Type())
				switch v.Op {
				case token.NOT:
					I.op = INot
				case token.SUB:
					I.op = INeg
				case token.XOR:
					I.op = ICompl
				case token.MUL:
					I.op = ILoad
				case token.ARROW:
					I.op = IRecv
					I.flag = v.CommaOk
				}
			case *ssa.Call:
				I.op = docall(&v.Call)
			case *ssa.ChangeInterface:
				I.op = IMove
				I.a = op(v.X)
			case *ssa.ChangeType:
				I.op = IMove
				I.a = op(v.X)
			case *ssa.Convert:
				I.op = IConvert
				I.a = op(v.X)
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Type())
			case *ssa.MultiConvert:
				I.op = IConvert
				I.a = op(v.X)
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Type())
			case *ssa.Defer:
				I.kind = docall(&v.Call)
				I.op = IDefer
				x.hasDefer = true
			case *ssa.Go:
				I.kind = docall(&v.Call)
				I.op = IGo
			case *ssa.Extract:
				I.op = IExtract
				I.a = op(v.Tuple)
				I.i = v.Index
			case *ssa.Field:
				I.op = IField
				I.a = op(v.X)
				I.i = v.Field
			case *ssa.FieldAddr:
				I.op = IFieldAddr
				I.a = op(v.X)
				I.i = v.Field
			case *ssa.If:
				I.op = IIf
				I.a = op(v.Cond)
			case *ssa.Index:
				I.op = IIndex
				I.a, I.b = op(v.X), op(v.Index)
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Index.Type())
			case *ssa.IndexAddr:
				I.op = IIndexAddr
				I.a, I.b = op(v.X), op(v.Index)
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Index.Type())
			case *ssa.Jump:
				I.op = IJump
			case *ssa.Lookup:
				I.op = ILookup
				I.a, I.b = op(v.X), op(v.Index)
				I.ti, I.tj = tinfo(v.X.Type()), tinfo(v.Index.Type())
				I.flag = v.CommaOk
			case *ssa.MakeChan:
				I.op = IMakeChan
				I.a = op(v.Size)
				I.typ = v.Type()
			case *ssa.MakeClosure:
				I.op = IMakeClosure
				I.fn = p.fn(v.Fn.(*ssa.Function))
				I.args = ops(v.Bindings)
			case *ssa.MakeInterface:
				I.op = IMakeIface
				I.a = op(v.X)
				I.typ = canon(v.X.Type())
			case *ssa.MakeMap:
				I.op = IMakeMap
				I.typ = v.Type().Underlying().(*types.Map).Key()
			case *ssa.MakeSlice:
				I.op = IMakeSlice
				I.a, I.b = op(v.Len), op(v.Cap)
				I.ti = tinfo(v.Type().Underlying().(*types.Slice).Elem())
			case *ssa.MapUpdate:
				I.op = IMapUpdate
				I.a, I.b, I.c = op(v.Map), op(v.Key), op(v.Value)
			case *ssa.Next:
				I.op = INext
				I.a = op(v.Iter)
				I.flag = v.IsString
				if !v.IsString {
					tt := v.Type().(*types.Tuple)
					I.ti, I.tj = tinfo(tt.At(1).Type()), tinfo(tt.At(2).Type())
				}
			case *ssa.Panic:
				I.op = IPanic
				I.a = op(v.X)
			case *ssa.Range:
				I.op = IRange
				I.a = op(v.X)
				I.ti = tinfo(v.X.Type())
			case *ssa.Return:
				I.op = IReturn
				I.args = ops(v.Results)
			case *ssa.RunDefers:
				I.op = IRunDefers
			case *ssa.Select:
				I.op = ISelect
				I.flag = v.Blocking
				I.states = v.States
				for _, s := range v.States {
					I.args = append(I.args, op(s.Chan), op(s.Send))
				}
			case *ssa.Send:
				I.op = ISend
				I.a, I.b = op(v.Chan), op(v.X)
			case *ssa.Slice:
				I.op = ISlice
				I.a = op(v.X)
				I.args = []opnd{op(v.Low), op(v.High), op(v.Max)}
				I.ti = tinfo(v.X.Type())
			case *ssa.SliceToArrayPointer:
				I.op = ISliceToArr
				I.a = op(v.X)
				I.i = int(v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				I.op = IStore
				I.a, I.b = op(v.Addr), op(v.Val)
			case *ssa.TypeAssert:
				I.op = ITypeAssert
				I.a = op(v.X)
				I.typ = canon(v.AssertedType)
				I.ti = tinfo(v.AssertedType)
				I.flag = v.CommaOk
			default:
				I.op = IUnsupported
				I.name = fmt.Sprintf("%T", in)
			}
			bb.ins = append(bb.ins, I)
			x.instrs++
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func constVal(c *ssa.Const) Val {
	t := tinfo(c.Type())
	if c.Value == nil {
		return zero(t)
	}
	switch t.k {
	case KBool:
		return Val{N: b2u(constant.BoolVal(c.Value))}
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{N: u & mask(t.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return mkfl(f, t.w)
	case KString:
		if c.Value.Kind() == constant.String {
			return Val{R: constant.StringVal(c.Value)}
		}
	case KIface:
		// untyped constant converted to interface does not occur (MakeInterface)
	case KComplex:
		return Val{N: math.MaxUint64}
	}
	panic(fmt.Sprintf("const %v of %v", c, c.Type()))
}
