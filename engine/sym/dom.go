package sym

import "math/bits"

// dom is a set of byte values. Conditions over a single byte variable are decided by its remaining values
// without a solver call; everything else goes to the solver.
type dom [4]uint64

var fullDom = dom{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (d dom) and(e dom) dom { return dom{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]} }
func (d dom) or(e dom) dom  { return dom{d[0] | e[0], d[1] | e[1], d[2] | e[2], d[3] | e[3]} }
func (d dom) not() dom      { return dom{^d[0], ^d[1], ^d[2], ^d[3]} }
func (d dom) empty() bool   { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dom) first() uint64 {
	for i, w := range d {
		if w != 0 {
			return uint64(64*i + bits.TrailingZeros64(w))
		}
	}
	return 0
}

// byteVar returns the variable of a condition over one byte variable.
func (t *Term) byteVar() *Term {
	if t.W == 0 && t.uv != nil && t.uv.W == 8 {
		return t.uv
	}
	return nil
}

// table is the set of values of the byte variable that satisfy t.
func (f *Factory) table(t *Term) dom {
	if t.IsTrue() {
		return fullDom
	}
	if t.IsFalse() {
		return dom{}
	}
	if d, ok := f.tt[t]; ok {
		return d
	}
	var d dom
	switch t.Op {
	case ONot:
		d = f.table(t.A[0]).not()
	case OAnd:
		d = f.table(t.A[0]).and(f.table(t.A[1]))
	case OOr:
		d = f.table(t.A[0]).or(f.table(t.A[1]))
	default:
		m := Model{}
		for v := uint64(0); v < 256; v++ {
			m[t.uv] = v
			if Eval(t, m, nil) != 0 {
				d[v>>6] |= 1 << (v & 63)
			}
		}
	}
	f.tt[t] = d
	return d
}

// vars lists the variables of t.
func (f *Factory) vars(t *Term) []*Term {
	if t.uv != nil {
		return []*Term{t.uv}
	}
	if !t.mv {
		return nil
	}
	if l, ok := f.vl[t]; ok {
		return l
	}
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.uv != nil {
			if !seen[t.uv] {
				seen[t.uv] = true
				out = append(out, t.uv)
			}
			return
		}
		if !t.mv || done[t] {
			return
		}
		done[t] = true
		for i := 0; i < int(t.NA); i++ {
			rec(t.A[i])
		}
	}
	rec(t)
	f.vl[t] = out
	return out
}

// learn updates the byte domains with a new conjunct.
func (p *Path) learn(t *Term) {
	if v := t.byteVar(); v != nil {
		d, ok := p.dom[v]
		if !ok {
			d = fullDom
		}
		p.dom[v] = d.and(p.F.table(t))
		return
	}
	if t.mv {
		for _, v := range p.F.vars(t) {
			if v.W == 8 {
				p.ent[v] = true
			}
		}
	}
}

// byDomain: 1 always true, -1 always false, 0 otherwise.
func (p *Path) byDomain(t *Term) int {
	v := t.byteVar()
	if v == nil {
		return 0
	}
	d, ok := p.dom[v]
	if !ok {
		d = fullDom
	}
	tt := p.F.table(t)
	if d.and(tt).empty() {
		return -1
	}
	if d.and(tt.not()).empty() {
		return 1
	}
	return 0
}

// domModel returns a model of the path in which t holds, changing only its byte variable.
func (p *Path) domModel(t *Term) Model {
	v := t.byteVar()
	if v == nil || p.M == nil || p.ent[v] {
		return nil
	}
	d, ok := p.dom[v]
	if !ok {
		d = fullDom
	}
	d = d.and(p.F.table(t))
	if d.empty() {
		return nil
	}
	m := make(Model, len(p.M)+1)
	for k, x := range p.M {
		m[k] = x
	}
	m[v] = d.first()
	return m
}

// Domains rewrites a conjunction: its conditions over single byte variables become sets of values.
func (f *Factory) Domains(t *Term) *Term {
	doms := map[*Term]dom{}
	var order []*Term
	rest := f.True
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OAnd {
			rec(t.A[0])
			rec(t.A[1])
			return
		}
		v := t.byteVar()
		if v == nil {
			rest = f.And(rest, t)
			return
		}
		d, ok := doms[v]
		if !ok {
			d = fullDom
			order = append(order, v)
		}
		doms[v] = d.and(f.table(t))
	}
	rec(t)
	for _, v := range order {
		d := doms[v]
		in := f.False
		for lo := 0; lo < 256; lo++ {
			if d[lo>>6]>>(uint(lo)&63)&1 == 0 {
				continue
			}
			hi := lo
			for hi < 255 && d[(hi+1)>>6]>>(uint(hi+1)&63)&1 == 1 {
				hi++
			}
			switch {
			case lo == hi:
				in = f.Or(in, f.Eq(v, f.BV(int64(lo), 8)))
			case lo == 0 && hi == 255:
				in = f.True
			case lo == 0:
				in = f.Or(in, f.Ule(v, f.BV(int64(hi), 8)))
			case hi == 255:
				in = f.Or(in, f.Ule(f.BV(int64(lo), 8), v))
			default:
				in = f.Or(in, f.And(f.Ule(f.BV(int64(lo), 8), v), f.Ule(v, f.BV(int64(hi), 8))))
			}
			lo = hi
		}
		rest = f.And(rest, in)
	}
	return rest
}

// VarsOf lists the variables of t.
func (f *Factory) VarsOf(t *Term) []*Term { return f.vars(t) }
