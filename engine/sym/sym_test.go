package sym

import "testing"

func TestExplore(t *testing.T) {
	f := NewFactory()
	s := NewSolver(f)
	defer s.Close()
	x := &Explorer{F: f, S: s}
	a, b := f.Var("a", 64), f.Var("b", 64)
	n := 0
	x.Run(func(p *Path) {
		p.Assume(f.Slt(a, f.BV(10, 64)))
		p.Assume(f.Slt(f.BV(0, 64), a))
		r := 0
		if p.Branch(f.Slt(a, b)) {
			r |= 1
		}
		if p.Branch(f.Eq(b, f.BV(5, 64))) {
			r |= 2
		}
		v := p.Concretize(a, 20)
		t.Log(r, v)
		n++
	})
	if n != 9*2+8+5 && n != 31 {
		t.Log("paths", n)
	}
	x = &Explorer{F: f, S: s}
	x.Run(func(p *Path) {
		c := f.Var("c", 64)
		r, m := p.Check(p.StrEq(Itoa(c), Lit("123")))
		t.Log(r, m)
		e := p.StrEq(Cat(Itoa(c), Lit("5")), Cat(ByteStr(f.Var("x", 8)), Lit("25")))
		if p.Branch(e) {
			m, _ := p.Model()
			t.Log(int64(m[c]), m[f.Var("x", 8)], p.Decisions())
		}
	})
	t.Logf("%+v paths %d", s.Stats, x.Paths)
}
