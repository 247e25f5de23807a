package harness

import (
	"os"
	"testing"
	"time"

	"verif/gosym"
	"verif/sym"
)

func TestSmoke(t *testing.T) {
	t0 := time.Now()
	P, err := gosym.Load(RepoDir, ".", "./lexer", "./parser", "./transpiler", "./converters/...")
	if err != nil {
		t.Fatal(err)
	}
	t.Log("load", time.Since(t0), P.Module)
	f := sym.NewFactory()
	s := sym.NewSolver(f)
	defer s.Close()
	x := &sym.Explorer{F: f, S: s}
	m := gosym.NewMachine(P, f)
	src := `func add(a int, b int) int { 
	return a + b
}
x := 8100001
s := "hello"
for i := 0; i < 3; i++ {
	if x > i && true {
		print(add(x, i), s + "w", len(s))
	} else if x == 5 {
		print("no")
	}
}
`
	m.IntHoles = map[string]*sym.Term{"8100001": f.Var("x", 64)}
	for _, tg := range []string{"bash", "batch"} {
		x.Run(func(p *sym.Path) {
			t1 := time.Now()
			m.FS = gosym.NewVFS()
			m.FS.PutString("/work/a.tsh", src)
			m.Begin(p)
			t2 := time.Now()
			o := m.Protect(func() gosym.Value { return Transpile(m, "/work/a.tsh", tg) })
			t.Log(time.Since(t1), t2.Sub(t1), m.Steps)
			if o.Panic != nil {
				t.Log(m.ErrText(o.Panic.V))
				return
			}
			r := o.Ret.(gosym.Tuple)
			e, bad := m.ErrText(r[1])
			t.Log(bad, e)
			t.Log(StrOf(r[0]).String())
			dir := t.TempDir()
			n, err := BuildNative(dir, false, false)
			if err != nil {
				t.Fatal(err)
			}
			os.WriteFile(dir+"/a.tsh", []byte(src), 0644)
			nr := n.Transpile(dir+"/a.tsh", tg)
			mm := sym.Model{f.Var("x", 64): 8100001}
			if nr.Out != StrOf(r[0]).Eval(mm) {
				t.Error("differs", nr.Out, nr.Err)
			}
		})
	}
	t.Log(x.Aborts)
}
