package gosym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

type frame struct {
	m         *Machine
	cf        *cfunc
	regs      []Value
	block     int
	prev      int
	result    Value
	defers    []deferred
	panics    *GoPanic
	other     any
	recov     bool
	panicking bool
}

type deferred struct {
	f    *Func
	args []Value
	bi   *ssa.Builtin
}

// cfunc is a compiled function.
type cfunc struct {
	fn       *ssa.Function
	blocks   []cblock
	nregs    int
	hasDefer bool
	noBody   bool
	intr     intrinsic
	recoverB int
	lib      bool // outside the module
	isInit   bool
	lexEntry bool // lexer.Tokenize
	conv     bool // function of a converter
	id       int
}

var funcIDs atomic.Int64

type cblock struct {
	phis  []cphi
	ins   []func(fr *frame)
	term  func(fr *frame) int // next block or -1
	nstep int64
}

type cphi struct {
	dst   int
	edges map[int]opnd
}

type opnd func(fr *frame) Value

func (cf *cfunc) initDone(m *Machine) bool { return false }

func (P *Program) compile(fn *ssa.Function) *cfunc {
	if c, ok := P.funcs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &compiler{P: P, fn: fn, slots: map[ssa.Value]int{}}
	cf := c.compile()
	P.funcs.Store(fn, cf)
	return cf
}

type compiler struct {
	P     *Program
	fn    *ssa.Function
	slots map[ssa.Value]int
}

func (c *compiler) compile() *cfunc {
	fn := c.fn
	cf := &cfunc{fn: fn, recoverB: -1, intr: lookupIntrinsic(fn)}
	cf.lib = isLib(c.P, fn.Pkg)
	cf.isInit = fn.Name() == "init"
	cf.id = int(funcIDs.Add(1))
	if fn.Pkg != nil && !cf.lib {
		path := fn.Pkg.Pkg.Path()
		cf.lexEntry = fn.Name() == "Tokenize" && strings.HasSuffix(path, "/lexer")
		cf.conv = strings.Contains(path, "/converters/") && fn.Signature.Recv() != nil
	}
	if fn.Blocks == nil {
		cf.noBody = true
		return cf
	}
	n := 0
	for _, p := range fn.Params {
		c.slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	cf.nregs = n
	if fn.Recover != nil {
		cf.recoverB = fn.Recover.Index
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := cphi{dst: c.slots[in], edges: map[int]opnd{}}
				for k, e := range in.Edges {
					ph.edges[b.Preds[k].Index] = c.op(e)
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cb.term = c.term(b, in)
			default:
				cb.ins = append(cb.ins, c.instr(in))
			}
		}
		cb.nstep = int64(len(cb.ins) + 1)
		if cb.term == nil {
			cb.term = func(fr *frame) int { return -1 }
		}
	}
	return cf
}

func (fr *frame) run(start int) {
	m := fr.m
	b := start
	for b >= 0 {
		cb := &fr.cf.blocks[b]
		m.Steps += cb.nstep
		if m.Steps > m.MaxStep {
			panic(LimitPanic{"steps"})
		}
		if len(cb.phis) > 0 {
			if len(cb.phis) == 1 {
				ph := &cb.phis[0]
				fr.regs[ph.dst] = ph.edges[fr.prev](fr)
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for i := range cb.phis {
					vals = append(vals, cb.phis[i].edges[fr.prev](fr))
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vals[i]
				}
			}
		}
		fr.block = b
		for _, in := range cb.ins {
			in(fr)
		}
		nb := cb.term(fr)
		fr.prev = b
		b = nb
	}
}

func (fr *frame) runDefer() {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(GoPanic)
		if !ok {
			panic(r)
		}
		fr.panics = &gp
		fr.panicking = true
		fr.m.curPanics = append(fr.m.curPanics, fr)
		fr.doDefers()
		fr.m.curPanics = fr.m.curPanics[:len(fr.m.curPanics)-1]
		if fr.panicking {
			panic(*fr.panics)
		}
		if fr.cf.recoverB >= 0 {
			fr.run(fr.cf.recoverB)
		} else {
			fr.result = zero(fr.cf.fn.Signature.Results())
		}
	}()
	fr.run(0)
}

func (fr *frame) doDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.bi != nil {
			fr.m.builtin(fr, d.bi, nil, d.args, nil)
		} else {
			fr.m.CallFunc(d.f, d.args)
		}
	}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intInfo(t)
			if s {
				return norm(c.Int64(), w, s)
			}
			return norm(int64(c.Uint64()), w, s)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	panic("const " + c.String())
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		if _, isTP := v.Type().(*types.TypeParam); isTP {
			return func(fr *frame) Value { fr.m.Path.Unsupported("type param const"); return nil }
		}
		k := constValue(v)
		if _, agg := k.(Struct); agg {
			return func(*frame) Value { return copyVal(k) }
		}
		if _, agg := k.(Array); agg {
			return func(*frame) Value { return copyVal(k) }
		}
		return func(*frame) Value { return k }
	case *ssa.Global:
		id := c.P.gid(v)
		return func(fr *frame) Value { return fr.m.global(v, id) }
	case *ssa.Function:
		f := &Func{Fn: v}
		return func(*frame) Value { return f }
	case *ssa.Builtin:
		return func(*frame) Value { return v }
	}
	s, ok := c.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v, c.fn))
	}
	return func(fr *frame) Value { return fr.regs[s] }
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) term(b *ssa.BasicBlock, in ssa.Instruction) func(fr *frame) int {
	switch in := in.(type) {
	case *ssa.If:
		cond := c.op(in.Cond)
		t, f := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *frame) int {
			v := cond(fr)
			if bv, ok := v.(bool); ok {
				if bv {
					return t
				}
				return f
			}
			if fr.m.Path.Branch(v.(*sym.Term)) {
				return t
			}
			return f
		}
	case *ssa.Jump:
		t := b.Succs[0].Index
		return func(*frame) int { return t }
	case *ssa.Return:
		rs := c.ops(in.Results)
		switch len(rs) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			return func(fr *frame) int { fr.result = rs[0](fr); return -1 }
		}
		return func(fr *frame) int {
			t := make(Tuple, len(rs))
			for i, r := range rs {
				t[i] = r(fr)
			}
			fr.result = t
			return -1
		}
	case *ssa.Panic:
		x := c.op(in.X)
		return func(fr *frame) int {
			panic(GoPanic{V: x(fr)})
		}
	}
	panic("term")
}

func deref(m *Machine, v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case *SymPtr:
		i := m.Path.Concretize(p.Idx, len(p.Cells)+1)
		return &p.Cells[i]
	}
	panic(fmt.Sprintf("deref %T", v))
}

func (m *Machine) load(v Value, t types.Type) Value {
	if sp, ok := v.(*SymPtr); ok {
		if w, _, ok := intInfo(t); ok {
			return m.selectElem(sp, w, t)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return m.selectElem(sp, 0, t)
		}
	}
	return copyVal(*deref(m, v))
}

func (m *Machine) selectElem(sp *SymPtr, w uint8, t types.Type) Value {
	f := m.F
	get := func(i int) *sym.Term {
		if w == 0 {
			return m.boolTerm(sp.Cells[i])
		}
		return m.intTerm(sp.Cells[i], w)
	}
	type run struct {
		end int
		v   *sym.Term
	}
	runs := []run{}
	for i := range sp.Cells {
		x := get(i)
		if len(runs) > 0 && runs[len(runs)-1].v == x {
			runs[len(runs)-1].end = i
		} else {
			runs = append(runs, run{i, x})
		}
	}
	r := runs[len(runs)-1].v
	for k := len(runs) - 2; k >= 0; k-- {
		r = f.Ite(f.Ule(sp.Idx, f.BV(int64(runs[k].end), sp.Idx.W)), runs[k].v, r)
	}
	if w == 0 {
		return boolVal(r)
	}
	_, s, _ := intInfo(t)
	return intVal(r, s)
}

func assign(dst *Value, v Value) {
	switch d := (*dst).(type) {
	case Struct:
		if s, ok := v.(Struct); ok && len(s) == len(d) {
			for i := range d {
				assign(&d[i], s[i])
			}
			return
		}
	case Array:
		if s, ok := v.(Array); ok && len(s) == len(d) {
			for i := range d {
				assign(&d[i], s[i])
			}
			return
		}
	}
	*dst = copyVal(v)
}

func (m *Machine) store(addr, v Value) {
	assign(deref(m, addr), v)
}

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.slots[in]
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(Value)
			*p = zero(t)
			fr.regs[d] = p
		}
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		return func(fr *frame) { fr.m.store(a(fr), v(fr)) }
	case *ssa.Call:
		d := c.slots[in]
		call := c.call(&in.Call, in)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.Defer:
		return c.deferInstr(in)
	case *ssa.RunDefers:
		return func(fr *frame) { fr.doDefers() }
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return func(fr *frame) { fr.m.Path.Unsupported("concurrency: %s", in) }
	case *ssa.FieldAddr:
		d, x, i := c.slots[in], c.op(in.X), in.Field
		return func(fr *frame) {
			p := deref(fr.m, x(fr))
			st, ok := (*p).(Struct)
			if !ok {
				fr.m.Path.Unsupported("field of %T in %s", *p, fr.cf.fn)
			}
			fr.regs[d] = &st[i]
		}
	case *ssa.Field:
		d, x, i := c.slots[in], c.op(in.X), in.Field
		return func(fr *frame) { fr.regs[d] = x(fr).(Struct)[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		d, x, ix := c.slots[in], c.op(in.X), c.op(in.Index)
		et := in.Type()
		return func(fr *frame) {
			v := x(fr)
			switch a := v.(type) {
			case Array:
				fr.regs[d] = fr.m.load(fr.m.elemPtr(a, ix(fr)), et)
			case string, *RStr:
				fr.regs[d] = fr.m.strIndex(v, ix(fr))
			default:
				panic(fmt.Sprintf("index %T", v))
			}
		}
	case *ssa.Lookup:
		d, x, ix := c.slots[in], c.op(in.X), c.op(in.Index)
		comma := in.CommaOk
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			et := mt.Elem()
			return func(fr *frame) {
				v, ok := x(fr).(*Map).get(fr.m, ix(fr))
				if !ok {
					v = zero(et)
				} else {
					v = copyVal(v)
				}
				if comma {
					fr.regs[d] = Tuple{v, ok}
				} else {
					fr.regs[d] = v
				}
			}
		}
		return func(fr *frame) { fr.regs[d] = fr.m.strIndex(x(fr), ix(fr)) }
	case *ssa.MapUpdate:
		mp, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		return func(fr *frame) {
			mv := mp(fr).(*Map)
			if mv == nil {
				panic(GoPanic{V: fr.m.NewError("assignment to entry in nil map"), Runtime: "assignment to entry in nil map"})
			}
			mv.set(fr.m, k(fr), copyVal(v(fr)))
		}
	case *ssa.MakeMap:
		d := c.slots[in]
		return func(fr *frame) { fr.regs[d] = newMap() }
	case *ssa.MakeSlice:
		d, ln, cp := c.slots[in], c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n, k := fr.m.concInt(ln(fr)), fr.m.concInt(cp(fr))
			if n < 0 || k < n {
				fr.m.rtPanic("makeslice: len out of range")
			}
			if k > 1<<22 {
				fr.m.Path.Bound("makeslice %d", k)
			}
			s := make(Slice, n, k)
			z := s[:k]
			for i := range z {
				z[i] = zero(et)
			}
			fr.regs[d] = s
		}
	case *ssa.MakeClosure:
		d := c.slots[in]
		fn := in.Fn.(*ssa.Function)
		bs := c.ops(in.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b(fr)
			}
			fr.regs[d] = &Func{Fn: fn, Env: env}
		}
	case *ssa.MakeInterface:
		d, x := c.slots[in], c.op(in.X)
		t := in.X.Type()
		return func(fr *frame) { fr.regs[d] = Iface{t, copyVal(x(fr))} }
	case *ssa.ChangeInterface:
		d, x := c.slots[in], c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x(fr) }
	case *ssa.ChangeType:
		d, x := c.slots[in], c.op(in.X)
		return func(fr *frame) { fr.regs[d] = x(fr) }
	case *ssa.Convert:
		return c.convert(in, in.X, in.Type())
	case *ssa.MultiConvert:
		return c.convert(in, in.X, in.Type())
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) { fr.m.Path.Unsupported("slice to array pointer") }
	case *ssa.Extract:
		d, x, i := c.slots[in], c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[d] = x(fr).(Tuple)[i] }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Range:
		d, x := c.slots[in], c.op(in.X)
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case *Map:
				it := &mapIter{mp: v}
				m := fr.m
				if m.MapOrder != nil && v != nil && v.live > 1 && ownOrMaps(m.P, fr.cf.fn) {
					var live []int
					for i, e := range v.ents {
						if !e.dead {
							live = append(live, i)
						}
					}
					if o := m.MapOrder(in, len(live)); o != nil {
						it.nd = true
						for _, k := range o {
							it.todo = append(it.todo, live[k])
						}
					}
				}
				fr.regs[d] = it
			default:
				fr.regs[d] = &strIter{s: fr.m.Path.Digits(toStr(v))}
			}
		}
	case *ssa.Next:
		d, x := c.slots[in], c.op(in.Iter)
		return func(fr *frame) { fr.regs[d] = fr.m.next(x(fr)) }
	}
	return func(fr *frame) { fr.m.Path.Unsupported("instruction %T", in) }
}

func (m *Machine) next(it Value) Value {
	switch it := it.(type) {
	case *mapIter:
		if it.mp == nil {
			return Tuple{false, nil, nil}
		}
		if it.nd {
			for len(it.todo) > 0 {
				i := it.todo[0]
				it.todo = it.todo[1:]
				e := it.mp.ents[i]
				if e.dead {
					continue
				}
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
			return Tuple{false, nil, nil}
		}
		for it.pos < len(it.mp.ents) {
			e := it.mp.ents[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		return Tuple{false, nil, nil}
	case *strIter:
		if it.pos >= len(it.s) {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.pos
		r, n := m.decodeRune(it.s[i:])
		it.pos += n
		return Tuple{true, int64(i), r}
	}
	panic(fmt.Sprintf("next %T", it))
}

// elemPtr addresses an element with bounds check.
func (m *Machine) elemPtr(cells []Value, idx Value) Value {
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(len(cells)) {
			m.rtPanic("index out of range [%d] with length %d", i, len(cells))
		}
		return &cells[i]
	case *sym.Term:
		n := int64(len(cells))
		var in *sym.Term
		if i.W < 63 && n > int64(1)<<i.W-1 {
			in = m.F.True
		} else {
			in = m.F.Ult(i, m.F.BV(n, i.W))
		}
		if !m.Path.Branch(in) {
			m.rtPanic("index out of range [symbolic] with length %d", n)
		}
		if n == 1 {
			return &cells[0]
		}
		return &SymPtr{cells, i}
	}
	panic(fmt.Sprintf("elemPtr %T", idx))
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) func(fr *frame) {
	d, x, ix := c.slots[in], c.op(in.X), c.op(in.Index)
	return func(fr *frame) {
		var cells []Value
		switch v := x(fr).(type) {
		case Slice:
			cells = v
		case *Value:
			cells = (*deref(fr.m, v)).(Array)
		case *SymPtr:
			cells = (*deref(fr.m, v)).(Array)
		default:
			panic(fmt.Sprintf("indexaddr %T", v))
		}
		i := ix(fr)
		if k, ok := i.(int64); ok {
			if k < 0 || k >= int64(len(cells)) {
				fr.m.rtPanic("index out of range [%d] with length %d", k, len(cells))
			}
			fr.regs[d] = &cells[k]
			return
		}
		fr.regs[d] = fr.m.elemPtr(cells, i)
	}
}

func (m *Machine) strIndex(v, idx Value) Value {
	if s, ok := v.(string); ok {
		if i, ok := idx.(int64); ok {
			if i < 0 || i >= int64(len(s)) {
				m.rtPanic("index out of range [%d] with length %d", i, len(s))
			}
			return int64(s[i])
		}
	}
	if r, ok := v.(*RStr); ok && r.flat() {
		if i, ok := idx.(int64); ok {
			if i < 0 || i >= int64(len(r.S)) {
				m.rtPanic("index out of range [%d] with length %d", i, len(r.S))
			}
			return chVal(r.S[i])
		}
	}
	s := toStr(v)
	if n := len(s); n > 0 && s.HasItoa() {
		// first / last character of a rope with decimal renderings: no fork on the digit count
		if i, ok := idx.(int64); ok && i == 0 {
			if !s[0].IsItoa() {
				return chVal(s[0])
			}
			return m.Path.FirstDigit(s[0].T)
		}
		if t, ok := idx.(*sym.Term); ok && t == m.F.Sub(m.F.Len(s), m.F.BV(1, 64)) {
			if !s[n-1].IsItoa() {
				return chVal(s[n-1])
			}
			return m.Path.LastDigit(s[n-1].T)
		}
	}
	{
		s = m.Path.Digits(s)
	}
	cells := make([]Value, len(s))
	for i, c := range s {
		cells[i] = chVal(c)
	}
	p := m.elemPtr(cells, idx)
	return m.load(p, types.Typ[types.Uint8])
}

func chVal(c sym.Ch) Value {
	if c.T == nil {
		return int64(c.B)
	}
	return c.T
}

func valCh(v Value) sym.Ch {
	switch v := v.(type) {
	case int64:
		return sym.Ch{B: byte(v)}
	case *sym.Term:
		return sym.ByteCh(v)
	}
	panic(fmt.Sprintf("valCh %T", v))
}

func (c *compiler) slice(in *ssa.Slice) func(fr *frame) {
	d, x := c.slots[in], c.op(in.X)
	get := func(v ssa.Value) opnd {
		if v == nil {
			return nil
		}
		return c.op(v)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	return func(fr *frame) {
		m := fr.m
		v := x(fr)
		num := func(o opnd, def int64) int64 {
			if o == nil {
				return def
			}
			return m.concInt(o(fr))
		}
		switch s := v.(type) {
		case string:
			l := num(lo, 0)
			h := num(hi, int64(len(s)))
			if l < 0 || h < l || h > int64(len(s)) {
				m.rtPanic("slice bounds out of range [%d:%d] with length %d", l, h, len(s))
			}
			fr.regs[d] = s[l:h]
		case *RStr:
			str := s.S
			if hi == nil && lo != nil {
				if l, ok := lo(fr).(int64); ok && int(l) <= len(str) && l >= 0 && (s.flat() || !sym.Str(str[:l]).HasItoa()) {
					fr.regs[d] = mkStr(str[l:])
					return
				}
			}
			if !s.flat() {
				str = m.Path.Digits(str)
			}
			l := num(lo, 0)
			h := num(hi, int64(len(str)))
			if l < 0 || h < l || h > int64(len(str)) {
				m.rtPanic("slice bounds out of range [%d:%d] with length %d", l, h, len(str))
			}
			fr.regs[d] = mkStr(str[l:h])
		case Slice:
			l := num(lo, 0)
			h := num(hi, int64(len(s)))
			k := num(mx, int64(cap(s)))
			if l < 0 || h < l || k < h || k > int64(cap(s)) {
				m.rtPanic("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(s))
			}
			if s == nil {
				fr.regs[d] = s
				return
			}
			fr.regs[d] = s[l:h:k]
		case *Value:
			a := (*deref(m, s)).(Array)
			l := num(lo, 0)
			h := num(hi, int64(len(a)))
			k := num(mx, int64(len(a)))
			if l < 0 || h < l || k < h || k > int64(len(a)) {
				m.rtPanic("slice bounds out of range [%d:%d:%d]", l, h, k)
			}
			fr.regs[d] = Slice(a[l:h:k])
		default:
			panic(fmt.Sprintf("slice %T", v))
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) func(fr *frame) {
	d, x := c.slots[in], c.op(in.X)
	at := in.AssertedType
	comma := in.CommaOk
	it, isIface := at.Underlying().(*types.Interface)
	cacheT := map[types.Type]bool{}
	_ = cacheT
	return func(fr *frame) {
		v, okI := x(fr).(Iface)
		if !okI {
			panic(fmt.Sprintf("typeassert on %T", x(fr)))
		}
		ok := false
		if v.T != nil {
			if isIface {
				ok = types.Implements(v.T, it)
			} else {
				ok = v.T == at || types.Identical(v.T, at)
			}
		}
		var r Value
		if ok {
			if isIface {
				r = v
			} else {
				r = v.V
			}
		} else if comma {
			r = zero(at)
		} else {
			dyn := "nil"
			if v.T != nil {
				dyn = v.T.String()
			}
			msg := fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at)
			panic(GoPanic{V: fr.m.NewError(msg), Runtime: msg})
		}
		if comma {
			fr.regs[d] = Tuple{r, ok}
		} else {
			fr.regs[d] = r
		}
	}
}

func (c *compiler) deferInstr(in *ssa.Defer) func(fr *frame) {
	call := &in.Call
	args := c.ops(call.Args)
	if call.IsInvoke() {
		recv := c.op(call.Value)
		return func(fr *frame) {
			r := recv(fr).(Iface)
			fn := fr.m.lookup(r, call.Method)
			vals := []Value{r.V}
			for _, a := range args {
				vals = append(vals, a(fr))
			}
			fr.defers = append(fr.defers, deferred{f: &Func{Fn: fn}, args: vals})
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(fr *frame) {
			vals := []Value{}
			for _, a := range args {
				vals = append(vals, a(fr))
			}
			fr.defers = append(fr.defers, deferred{bi: b, args: vals})
		}
	}
	fv := c.op(call.Value)
	return func(fr *frame) {
		vals := []Value{}
		for _, a := range args {
			vals = append(vals, a(fr))
		}
		fr.defers = append(fr.defers, deferred{f: fv(fr).(*Func), args: vals})
	}
}

func (m *Machine) lookup(r Iface, meth *types.Func) *ssa.Function {
	if r.T == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	type k struct {
		t types.Type
		m *types.Func
	}
	key := k{r.T, meth}
	if f, ok := m.P.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	fn := m.P.Prog.LookupMethod(r.T, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(fmt.Sprintf("no method %s on %s", meth, r.T))
	}
	m.P.methods.Store(key, fn)
	return fn
}

func (c *compiler) call(call *ssa.CallCommon, instr ssa.Value) func(fr *frame) Value {
	args := c.ops(call.Args)
	n := len(args)
	if call.IsInvoke() {
		recv := c.op(call.Value)
		meth := call.Method
		return func(fr *frame) Value {
			r := recv(fr).(Iface)
			if nv, ok := r.V.(*Native); ok && nv != nil {
				vals := make([]Value, n)
				for i, a := range args {
					vals[i] = a(fr)
				}
				return fr.m.nativeMethod(nv, meth.Name(), vals)
			}
			fn := fr.m.lookup(r, meth)
			vals := make([]Value, n+1)
			vals[0] = r.V
			for i, a := range args {
				vals[i+1] = copyVal(a(fr))
			}
			return fr.m.Call(fn, vals)
		}
	}
	switch fv := call.Value.(type) {
	case *ssa.Builtin:
		var at []types.Type
		for _, a := range call.Args {
			at = append(at, a.Type())
		}
		return func(fr *frame) Value {
			vals := make([]Value, n)
			for i, a := range args {
				vals[i] = a(fr)
			}
			return fr.m.builtin(fr, fv, at, vals, instr.Type())
		}
	case *ssa.Function:
		return func(fr *frame) Value {
			vals := make([]Value, n)
			for i, a := range args {
				vals[i] = copyVal(a(fr))
			}
			return fr.m.Call(fv, vals)
		}
	}
	f := c.op(call.Value)
	return func(fr *frame) Value {
		vals := make([]Value, n)
		for i, a := range args {
			vals[i] = copyVal(a(fr))
		}
		fn, ok := f(fr).(*Func)
		if !ok {
			panic(fmt.Sprintf("call of %T", f(fr)))
		}
		return fr.m.CallFunc(fn, vals)
	}
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, at []types.Type, args []Value, rt types.Type) Value {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, *RStr:
			return m.strLen(v)
		case Slice:
			return int64(len(v))
		case Array:
			return int64(len(v))
		case *Map:
			if v == nil {
				return int64(0)
			}
			return int64(v.live)
		case *Value:
			return int64(len((*v).(Array)))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return int64(cap(v))
		case Array:
			return int64(len(v))
		case *Value:
			return int64(len((*v).(Array)))
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch t := args[1].(type) {
		case Slice:
			if len(t) == 0 {
				return s
			}
			// Go's growth policy is observable only through aliasing; copying when the
			// capacity is exhausted matches it.
			if len(s)+len(t) > cap(s) {
				nc := len(s)*2 + len(t)
				ns := make(Slice, len(s), nc)
				copy(ns, s)
				s = ns
			}
			for _, x := range t {
				s = append(s, copyVal(x))
			}
			return s
		case string, *RStr:
			for _, c := range m.Path.Digits(toStr(t)) {
				s = append(s, chVal(c))
			}
			return s
		}
	case "copy":
		d := args[0].(Slice)
		switch t := args[1].(type) {
		case Slice:
			n := min(len(d), len(t))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(t[i])
			}
			copy(d, tmp)
			return int64(n)
		case string, *RStr:
			s := m.Path.Digits(toStr(t))
			n := 0
			for n < len(d) && n < len(s) {
				d[n] = chVal(s[n])
				n++
			}
			return int64(n)
		}
	case "delete":
		if mp := args[0].(*Map); mp != nil {
			mp.del(m, args[1])
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				*v = *newMap()
			}
		case Slice:
			for i := range v {
				v[i] = zero(at[0].Underlying().(*types.Slice).Elem())
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		// the frame of the deferred function's caller is panicking
		if n := len(m.curPanics); n > 0 {
			p := m.curPanics[n-1]
			if p.panicking {
				p.panicking = false
				return p.panics.V
			}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			var lt bool
			switch r.(type) {
			case string, *RStr:
				lt = m.truth(boolVal(m.strLess(toStr(x), toStr(r))))
			default:
				w, s, ok := intInfo(at[0])
				if !ok {
					m.Path.Unsupported("min/max of %s", at[0])
				}
				op := sym.OUlt
				if s {
					op = sym.OSlt
				}
				lt = m.truth(boolVal(m.F.Cmp(op, m.intTerm(x, w), m.intTerm(r, w))))
			}
			if lt == (b.Name() == "min") {
				if lt || !m.truth(m.equal(x, r)) {
					r = x
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	}
	m.Path.Unsupported("builtin %s(%T)", b.Name(), args)
	return nil
}

func (c *compiler) unop(in *ssa.UnOp) func(fr *frame) {
	d, x := c.slots[in], c.op(in.X)
	switch in.Op {
	case token.MUL:
		t := in.Type()
		return func(fr *frame) {
			v := x(fr)
			if p, ok := v.(*Value); ok && p != nil {
				fr.regs[d] = copyVal(*p)
				return
			}
			fr.regs[d] = fr.m.load(v, t)
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case bool:
				fr.regs[d] = !v
			case *sym.Term:
				fr.regs[d] = boolVal(fr.m.F.Not(v))
			}
		}
	case token.SUB:
		w, s, isInt := intInfo(in.X.Type())
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case int64:
				if isInt {
					fr.regs[d] = norm(-v, w, s)
				}
			case float64:
				fr.regs[d] = -v
			case *sym.Term:
				fr.regs[d] = intVal(fr.m.F.Neg(v), s)
			}
		}
	case token.XOR:
		w, s, _ := intInfo(in.X.Type())
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case int64:
				fr.regs[d] = norm(^v, w, s)
			case *sym.Term:
				fr.regs[d] = intVal(fr.m.F.BNot(v), s)
			}
		}
	}
	return func(fr *frame) { fr.m.Path.Unsupported("unop %s", in.Op) }
}

func (c *compiler) binop(in *ssa.BinOp) func(fr *frame) {
	d, x, y := c.slots[in], c.op(in.X), c.op(in.Y)
	op := in.Op
	t := in.X.Type()
	w, signed, isInt := intInfo(t)
	yw, ysigned, _ := intInfo(in.Y.Type())
	return func(fr *frame) {
		a, b := x(fr), y(fr)
		if isInt {
			p, ok1 := a.(int64)
			q, ok2 := b.(int64)
			if ok1 && ok2 {
				switch op {
				case token.ADD:
					fr.regs[d] = norm(p+q, w, signed)
					return
				case token.SUB:
					fr.regs[d] = norm(p-q, w, signed)
					return
				case token.MUL:
					fr.regs[d] = norm(p*q, w, signed)
					return
				case token.EQL:
					fr.regs[d] = p == q
					return
				case token.NEQ:
					fr.regs[d] = p != q
					return
				case token.LSS:
					if signed {
						fr.regs[d] = p < q
					} else {
						fr.regs[d] = uint64(p) < uint64(q)
					}
					return
				case token.LEQ:
					if signed {
						fr.regs[d] = p <= q
					} else {
						fr.regs[d] = uint64(p) <= uint64(q)
					}
					return
				case token.GTR:
					if signed {
						fr.regs[d] = p > q
					} else {
						fr.regs[d] = uint64(p) > uint64(q)
					}
					return
				case token.GEQ:
					if signed {
						fr.regs[d] = p >= q
					} else {
						fr.regs[d] = uint64(p) >= uint64(q)
					}
					return
				case token.AND:
					fr.regs[d] = norm(p&q, w, signed)
					return
				case token.OR:
					fr.regs[d] = norm(p|q, w, signed)
					return
				case token.XOR:
					fr.regs[d] = norm(p^q, w, signed)
					return
				case token.AND_NOT:
					fr.regs[d] = norm(p&^q, w, signed)
					return
				}
			}
			fr.regs[d] = fr.m.symInt(op, a, b, w, signed, yw, ysigned)
			return
		}
		fr.regs[d] = fr.m.binGeneric(op, a, b)
	}
}

func (m *Machine) symInt(op token.Token, a, b Value, w uint8, signed bool, yw uint8, ysigned bool) Value {
	f := m.F
	A := m.intTerm(a, w)
	if op == token.SHL || op == token.SHR {
		B := m.intTerm(b, yw)
		if ysigned && m.Path.Branch(f.Slt(B, f.BV(0, yw))) {
			m.rtPanic("negative shift amount")
		}
		if yw < w {
			B = f.ZExt(B, w)
		} else if yw > w {
			big := f.Not(f.Ult(B, f.BV(int64(w), yw)))
			B = f.Ite(big, f.BV(int64(w), w), f.Trunc(B, w))
		}
		so := sym.OShl
		if op == token.SHR {
			so = sym.OLShr
			if signed {
				so = sym.OAShr
			}
		}
		return intVal(f.Bin(so, A, B), signed)
	}
	B := m.intTerm(b, w)
	lt, le := sym.OUlt, sym.OUle
	if signed {
		lt, le = sym.OSlt, sym.OSle
	}
	switch op {
	case token.ADD:
		return intVal(f.Add(A, B), signed)
	case token.SUB:
		return intVal(f.Sub(A, B), signed)
	case token.MUL:
		return intVal(f.Mul(A, B), signed)
	case token.QUO, token.REM:
		if m.Path.Branch(f.Eq(B, f.BV(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		var o sym.Op
		switch {
		case op == token.QUO && signed:
			o = sym.OSDiv
		case op == token.QUO:
			o = sym.OUDiv
		case signed:
			o = sym.OSRem
		default:
			o = sym.OURem
		}
		return intVal(f.Bin(o, A, B), signed)
	case token.AND:
		return intVal(f.Bin(sym.OBAnd, A, B), signed)
	case token.OR:
		return intVal(f.Bin(sym.OBOr, A, B), signed)
	case token.XOR:
		return intVal(f.Bin(sym.OBXor, A, B), signed)
	case token.AND_NOT:
		return intVal(f.Bin(sym.OBAnd, A, f.BNot(B)), signed)
	case token.EQL:
		return boolVal(f.Eq(A, B))
	case token.NEQ:
		return boolVal(f.Not(f.Eq(A, B)))
	case token.LSS:
		return boolVal(f.Cmp(lt, A, B))
	case token.LEQ:
		return boolVal(f.Cmp(le, A, B))
	case token.GTR:
		return boolVal(f.Cmp(lt, B, A))
	case token.GEQ:
		return boolVal(f.Cmp(le, B, A))
	}
	panic("symInt " + op.String())
}

func (m *Machine) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return boolVal(m.F.Not(v.(*sym.Term)))
}

func (m *Machine) binGeneric(op token.Token, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.equal(a, b)
	case token.NEQ:
		return m.not(m.equal(a, b))
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		return m.binStr(op, a, b)
	case *RStr:
		return m.binStr(op, a, b)
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case bool, *sym.Term:
		A, B := m.boolTerm(a), m.boolTerm(b)
		switch op {
		case token.AND, token.LAND:
			return boolVal(m.F.And(A, B))
		case token.OR, token.LOR:
			return boolVal(m.F.Or(A, B))
		}
	}
	m.Path.Unsupported("binop %s %T", op, a)
	return nil
}

func (m *Machine) binStr(op token.Token, a, b Value) Value {
	A, B := toStr(a), toStr(b)
	switch op {
	case token.ADD:
		return mkStr(sym.Cat(A, B))
	case token.LSS:
		return boolVal(m.strLess(A, B))
	case token.GTR:
		return boolVal(m.strLess(B, A))
	case token.LEQ:
		return boolVal(m.F.Not(m.strLess(B, A)))
	case token.GEQ:
		return boolVal(m.F.Not(m.strLess(A, B)))
	}
	panic("binStr")
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *compiler) convert(in ssa.Value, xv ssa.Value, to types.Type) func(fr *frame) {
	d, x := c.slots[in], c.op(xv)
	from := xv.Type()
	fw, fs, fi := intInfo(from)
	tw, ts, ti := intInfo(to)
	isFloat := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	}
	switch {
	case fi && ti:
		return func(fr *frame) {
			switch v := x(fr).(type) {
			case int64:
				fr.regs[d] = norm(v, tw, ts)
			case *sym.Term:
				var r *sym.Term
				switch {
				case tw == fw:
					r = v
				case tw < fw:
					r = fr.m.F.Trunc(v, tw)
				case fs:
					r = fr.m.F.SExt(v, tw)
				default:
					r = fr.m.F.ZExt(v, tw)
				}
				fr.regs[d] = intVal(r, ts)
			}
		}
	case fi && isFloat(to):
		return func(fr *frame) {
			v := fr.m.concInt(x(fr))
			if fs {
				fr.regs[d] = float64(v)
			} else {
				fr.regs[d] = float64(uint64(v))
			}
		}
	case isFloat(from) && ti:
		return func(fr *frame) { fr.regs[d] = norm(int64(x(fr).(float64)), tw, ts) }
	case isFloat(from) && isFloat(to):
		return func(fr *frame) { fr.regs[d] = x(fr) }
	case isString(to) && fi:
		return func(fr *frame) { fr.regs[d] = fr.m.runeToStr(x(fr), fw, fs) }
	case isString(to) && isByteSlice(from):
		return func(fr *frame) { fr.regs[d] = bytesToStr(x(fr).(Slice)) }
	case isString(to) && isRuneSlice(from):
		return func(fr *frame) {
			r := sym.Str{}
			for _, v := range x(fr).(Slice) {
				r = append(r, toStr(fr.m.runeToStr(v, 32, true))...)
			}
			fr.regs[d] = mkStr(r)
		}
	case isString(from) && isByteSlice(to):
		return func(fr *frame) {
			switch s := x(fr).(type) {
			case string:
				r := make(Slice, len(s))
				for i := 0; i < len(s); i++ {
					r[i] = int64(s[i])
				}
				fr.regs[d] = r
			case *RStr:
				r := Slice{}
				for _, ch := range fr.m.Path.Digits(s.S) {
					r = append(r, chVal(ch))
				}
				fr.regs[d] = r
			}
		}
	case isString(from) && isRuneSlice(to):
		return func(fr *frame) {
			s := fr.m.Path.Digits(toStr(x(fr)))
			r := Slice{}
			for len(s) > 0 {
				v, n := fr.m.decodeRune(s)
				r = append(r, v)
				s = s[n:]
			}
			fr.regs[d] = r
		}
	case isString(from) && isString(to):
		return func(fr *frame) { fr.regs[d] = x(fr) }
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return func(fr *frame) { fr.regs[d] = x(fr) }
	}
	return func(fr *frame) { fr.m.Path.Unsupported("convert %s -> %s in %s", from, to, fr.cf.fn) }
}

func bytesToStr(s Slice) Value {
	conc := true
	for _, v := range s {
		if _, ok := v.(int64); !ok {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(s))
		for i, v := range s {
			b[i] = byte(v.(int64))
		}
		return string(b)
	}
	r := make(sym.Str, len(s))
	for i, v := range s {
		r[i] = valCh(v)
	}
	return mkStr(r)
}

// runeToStr is string(rune).
func (m *Machine) runeToStr(v Value, w uint8, signed bool) Value {
	switch v := v.(type) {
	case int64:
		return string(rune(v))
	case *sym.Term:
		if m.Path.Branch(m.F.Ult(v, m.F.BV(128, w))) {
			return mkStr(sym.Str{sym.ByteCh(m.F.Trunc(v, 8))})
		}
		// two-byte encodings cover byte values >= 0x80
		if w == 8 || m.Path.Branch(m.F.Ult(v, m.F.BV(0x800, w))) {
			b := v
			if w < 16 {
				b = m.F.ZExt(v, 16)
			} else if w > 16 {
				b = m.F.Trunc(v, 16)
			}
			f := m.F
			hi := f.Trunc(f.Bin(sym.OBOr, f.BV(0xC0, 16), f.Bin(sym.OLShr, b, f.BV(6, 16))), 8)
			lo := f.Trunc(f.Bin(sym.OBOr, f.BV(0x80, 16), f.Bin(sym.OBAnd, b, f.BV(0x3F, 16))), 8)
			return mkStr(sym.ByteStr(hi, lo))
		}
		return string(rune(m.concInt(v)))
	}
	panic("runeToStr")
}

// decodeRune decodes the first rune of s (no itoa elements).
func (m *Machine) decodeRune(s sym.Str) (Value, int) {
	c := s[0]
	f := m.F
	if c.T == nil {
		n := 1
		for n < 4 && n < len(s) && s[n].T == nil {
			n++
		}
		b := make([]byte, n)
		for i := 0; i < n; i++ {
			b[i] = s[i].B
		}
		if c.B < 0x80 {
			return int64(c.B), 1
		}
		if n < 4 && n < len(s) { // symbolic continuation byte
			need := 0
			switch {
			case c.B >= 0xC2 && c.B < 0xE0:
				need = 2
			case c.B >= 0xE0 && c.B < 0xF0:
				need = 3
			case c.B >= 0xF0 && c.B < 0xF5:
				need = 4
			}
			for i := n; i < need && i < len(s); i++ {
				b = append(b, byte(m.concInt(chVal(s[i]))))
			}
		}
		r, k := decodeRuneBytes(b)
		return int64(r), k
	}
	if m.Path.Branch(f.Ult(c.T, f.BV(0x80, 8))) {
		return f.ZExt(c.T, 32), 1
	}
	// a multi-byte sequence with a symbolic lead: case split on the lead class
	if m.Path.Branch(f.Ult(c.T, f.BV(0xC2, 8))) || m.Path.Branch(f.Ult(f.BV(0xF4, 8), c.T)) {
		return int64(0xFFFD), 1
	}
	if len(s) >= 2 && m.Path.Branch(f.Ult(c.T, f.BV(0xE0, 8))) {
		t := f.ByteTerm(s[1])
		if m.Path.Branch(f.And(f.Ule(f.BV(0x80, 8), t), f.Ult(t, f.BV(0xC0, 8)))) {
			hi := f.Bin(sym.OShl, f.Bin(sym.OBAnd, f.ZExt(c.T, 32), f.BV(0x1F, 32)), f.BV(6, 32))
			return f.Bin(sym.OBOr, hi, f.Bin(sym.OBAnd, f.ZExt(t, 32), f.BV(0x3F, 32))), 2
		}
		return int64(0xFFFD), 1
	}
	b := []byte{byte(m.concInt(c.T))}
	for i := 1; i < 4 && i < len(s); i++ {
		b = append(b, byte(m.concInt(chVal(s[i]))))
	}
	r, k := decodeRuneBytes(b)
	return int64(r), k
}

// libPath is the package path of a library function (also of instances of generic functions).
func libPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		if p := fn.Parent(); p != nil {
			return libPath(p)
		}
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func ownOrMaps(P *Program, fn *ssa.Function) bool {
	p := libPath(fn)
	return p == "maps" || P.inModule(p)
}
