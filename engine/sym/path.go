package sym

import (
	"fmt"
	"maps"
	"sort"
)

// Abort ends the current path for a stated reason (infeasible, out of bounds, unsupported).
type Abort struct {
	Kind string // "infeasible", "bound", "unsupported", "unknown"
	Msg  string
}

func (a Abort) Error() string { return a.Kind + ": " + a.Msg }

// Path is one execution path of an exploration.
type Path struct {
	X    *Explorer
	F    *Factory
	base int
	pc   []*Term // includes the base conditions
	set  map[*Term]bool
	pfx  []int32
	pos  int
	dec  []int32 // decisions taken so far
	M    Model   // model of pc, when known
	mc   map[*Term]uint64
	dom  map[*Term]dom
	ent  map[*Term]bool
	Data map[string]any
	// Tag prefixes fresh names so that nested explorations cannot clash.
	fresh  int
	onFork func([]int32, Model)
}

// Explorer runs a body over every feasible path (DFS by re-execution).
type Explorer struct {
	F        *Factory
	S        *Solver
	Base     []*Term
	BaseM    Model
	MaxPaths int

	Paths     int
	Truncated bool
	Unknowns  int
	Aborts    map[string]int
	Choices   int64
	Branches  int64

	bdom map[*Term]dom
	bent map[*Term]bool
}

type workItem struct {
	pfx []int32
	m   Model
}

// Run explores body. The body may panic with Abort to drop the path.
func (x *Explorer) Run(body func(p *Path)) {
	if x.Aborts == nil {
		x.Aborts = map[string]int{}
	}
	if x.MaxPaths == 0 {
		x.MaxPaths = 5000
	}
	work := []workItem{{nil, x.BaseM}}
	for len(work) > 0 {
		if x.F.Stop != nil && x.F.Stop() {
			x.Aborts["budget"]++
			x.Truncated = true
			return
		}
		if x.Paths >= x.MaxPaths {
			x.Truncated = true
			return
		}
		w := work[len(work)-1]
		work = work[:len(work)-1]
		x.Paths++
		p := &Path{X: x, F: x.F, pfx: w.pfx, M: w.m, Data: map[string]any{}}
		p.pc = append(p.pc, x.Base...)
		p.base = len(x.Base)
		p.set = make(map[*Term]bool, len(x.Base)+16)
		for _, t := range x.Base {
			p.set[t] = true
		}
		p.dom, p.ent = make(map[*Term]dom, len(x.bdom)+8), make(map[*Term]bool, len(x.bent)+8)
		if x.bdom == nil {
			for _, t := range x.Base {
				p.learn(t)
			}
			x.bdom, x.bent = maps.Clone(p.dom), maps.Clone(p.ent)
		} else {
			for k, v := range x.bdom {
				p.dom[k] = v
			}
			for k, v := range x.bent {
				p.ent[k] = v
			}
		}
		p.onFork = func(d []int32, m Model) { work = append(work, workItem{d, m}) }
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(Abort); ok {
						x.Aborts[a.Kind]++
						if a.Kind == "unknown" {
							x.Unknowns++
						}
						return
					}
					panic(r)
				}
			}()
			body(p)
		}()
	}
}

func (p *Path) fork(d int32, m Model) {
	nd := make([]int32, len(p.dec)+1)
	copy(nd, p.dec)
	nd[len(p.dec)] = d
	p.onFork(nd, m)
}

// PC returns the path condition.
func (p *Path) PC() []*Term { return p.pc }

// Decisions taken so far (identifies the path).
func (p *Path) Decisions() []int32 { return p.dec }

func (p *Path) addRaw(t *Term) {
	if t.Op == OAnd {
		p.addRaw(t.A[0])
		p.addRaw(t.A[1])
		return
	}
	if t.IsTrue() || p.set[t] {
		return
	}
	p.pc = append(p.pc, t)
	p.set[t] = true
	p.learn(t)
	if t.Op == ONot && t.A[0].Op == OOr {
		p.set[p.F.Not(t.A[0].A[0])] = true
		p.set[p.F.Not(t.A[0].A[1])] = true
	}
}

// known: 1 true, -1 false, 0 unknown by lookup
func (p *Path) known(t *Term) int {
	if t.IsTrue() {
		return 1
	}
	if t.IsFalse() {
		return -1
	}
	if p.set[t] {
		return 1
	}
	if p.set[p.F.Not(t)] {
		return -1
	}
	if k := p.byDomain(t); k != 0 {
		return k
	}
	switch t.Op {
	case ONot:
		return -p.known(t.A[0])
	case OAnd:
		a, b := p.known(t.A[0]), p.known(t.A[1])
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OOr:
		a, b := p.known(t.A[0]), p.known(t.A[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	}
	return 0
}

func (p *Path) evalM(t *Term) uint64 {
	if p.mc == nil {
		p.mc = map[*Term]uint64{}
	}
	return Eval(t, p.M, p.mc)
}

func (p *Path) setModel(m Model) {
	p.M = m
	p.mc = nil
}

// sat checks pc ∧ t.
func (p *Path) sat(t *Term) (Result, Model) {
	l := make([]*Term, len(p.pc), len(p.pc)+1)
	copy(l, p.pc)
	return p.X.S.Check(append(l, t))
}

// Sat checks pc ∧ t without changing the path.
func (p *Path) Sat(t *Term) (Result, Model) {
	if p.known(t) == -1 {
		return Unsat, nil
	}
	return p.sat(t)
}

// Assume restricts the path; aborts when infeasible.
func (p *Path) Assume(t *Term) {
	switch p.known(t) {
	case 1:
		return
	case -1:
		panic(Abort{"infeasible", "assume"})
	}
	if p.M != nil && p.evalM(t) == 1 {
		p.addRaw(t)
		return
	}
	if p.pos < len(p.pfx) {
		// replaying: the recorded path is feasible, so the assumption was
		p.addRaw(t)
		return
	}
	if m := p.domModel(t); m != nil {
		p.setModel(m)
		p.addRaw(t)
		return
	}
	r, m := p.sat(t)
	switch r {
	case Unsat:
		panic(Abort{"infeasible", "assume"})
	case Unknown:
		panic(Abort{"unknown", "assume"})
	}
	p.setModel(m)
	p.addRaw(t)
}

// Branch decides a symbolic condition, forking when both outcomes are feasible.
func (p *Path) Branch(t *Term) bool {
	switch p.known(t) {
	case 1:
		return true
	case -1:
		return false
	}
	nt := p.F.Not(t)
	if p.pos < len(p.pfx) {
		d := p.pfx[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d == 1 {
			p.addRaw(t)
		} else {
			p.addRaw(nt)
		}
		return d == 1
	}
	p.X.Branches++
	p.pos++
	var can [2]bool
	var ms [2]Model
	if p.M == nil {
		r, m := p.sat(p.F.True)
		if r == Unsat {
			panic(Abort{"infeasible", "branch"})
		}
		if r == Sat {
			p.setModel(m)
		}
	}
	if p.M != nil {
		v := p.evalM(t)
		can[v] = true
		ms[v] = p.M
	}
	for v := 0; v < 2; v++ {
		if can[v] {
			continue
		}
		c := t
		if v == 0 {
			c = nt
		}
		if m := p.domModel(c); m != nil {
			can[v], ms[v] = true, m
			continue
		}
		r, m := p.sat(c)
		switch r {
		case Sat:
			can[v], ms[v] = true, m
		case Unknown:
			p.X.Unknowns++
			can[v] = true // keep exploring; feasibility undecided
		}
	}
	take := 1
	switch {
	case can[0] && can[1]:
		if p.M != nil { // follow the model we have, fork the other
			take = int(p.evalM(t))
		}
		p.fork(int32(1-take), ms[1-take])
	case can[1]:
		take = 1
	case can[0]:
		take = 0
	default:
		panic(Abort{"infeasible", "branch"})
	}
	p.dec = append(p.dec, int32(take))
	if ms[take] == nil {
		p.setModel(nil)
	} else if p.M == nil || p.evalM(t) != uint64(take) {
		p.setModel(ms[take])
	}
	if take == 1 {
		p.addRaw(t)
	} else {
		p.addRaw(nt)
	}
	return take == 1
}

// Choose makes an n-way nondeterministic choice (explored exhaustively).
func (p *Path) Choose(n int) int {
	if n <= 0 {
		panic(Abort{"infeasible", "empty choice"})
	}
	if n == 1 {
		return 0
	}
	if p.pos < len(p.pfx) {
		d := p.pfx[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		return int(d)
	}
	p.pos++
	p.X.Choices++
	for i := n - 1; i >= 1; i-- {
		p.fork(int32(i), p.M)
	}
	p.dec = append(p.dec, 0)
	return 0
}

// Concretize forks over the feasible values of t (at most max of them).
func (p *Path) Concretize(t *Term, max int) uint64 {
	for n := 0; ; n++ {
		if t.IsConst() {
			return t.V
		}
		if n >= max {
			panic(Abort{"bound", "concretize"})
		}
		var v uint64
		if p.pos < len(p.pfx) {
			// value is recorded as the next-but-one decision pair (lo, hi)
			lo, hi := p.pfx[p.pos], p.pfx[p.pos+1]
			p.pos += 2
			p.dec = append(p.dec, lo, hi)
			v = uint64(uint32(lo)) | uint64(uint32(hi))<<32
		} else {
			if p.M == nil {
				r, m := p.sat(p.F.True)
				if r != Sat {
					panic(Abort{"unknown", "concretize"})
				}
				p.setModel(m)
			}
			v = p.evalM(t)
			p.pos += 2
			p.dec = append(p.dec, int32(uint32(v)), int32(uint32(v>>32)))
		}
		var c *Term
		if t.W == 0 {
			c = p.F.Bool(v == 1)
		} else {
			c = p.F.BV(int64(v), t.W)
		}
		if p.Branch(p.F.Eq(t, c)) {
			return v
		}
	}
}

// Check decides whether t holds on the whole path; on failure returns a model.
func (p *Path) Check(t *Term) (Result, Model) {
	if t = p.open(t, 0); t.IsTrue() {
		return Unsat, nil
	}
	return p.sat(p.F.Not(t))
}

// open drops the conjuncts that the path condition contains.
func (p *Path) open(t *Term, n int) *Term {
	if p.set[t] {
		return p.F.True
	}
	if t.Op == OAnd && n < 2000 {
		a, b := p.open(t.A[0], n+1), p.open(t.A[1], n+1)
		if a != t.A[0] || b != t.A[1] {
			return p.F.And(a, b)
		}
	}
	return t
}

// Model returns a model of the path condition.
func (p *Path) Model() (Model, bool) {
	if p.M != nil {
		return p.M, true
	}
	r, m := p.sat(p.F.True)
	if r != Sat {
		return nil, false
	}
	p.setModel(m)
	return m, true
}

func (p *Path) Unsupported(format string, a ...any) {
	panic(Abort{"unsupported", fmt.Sprintf(format, a...)})
}

func (p *Path) Bound(format string, a ...any) {
	panic(Abort{"bound", fmt.Sprintf(format, a...)})
}

func (p *Path) Fresh(prefix string, w uint8) *Term {
	p.fresh++
	return p.F.Var(fmt.Sprintf("%s!%d", prefix, p.fresh), w)
}

func sortedKeys(m map[string]int) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
