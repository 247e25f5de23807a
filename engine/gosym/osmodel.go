package gosym

import (
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

// VFS is the virtual file system seen by the interpreted program.
type VFS struct {
	Files map[string]*VNode
	Log   []string // effects in order: "write <path>", "remove <path>", ...
	// Fault decides whether an operation fails ("" = no; otherwise the error text).
	Fault func(op, path string) string
}

// VNode is a file or directory.
type VNode struct {
	Dir     bool
	Content sym.Str
	NoRead  bool
	NoWrite bool
}

type vfile struct {
	path   string
	node   *VNode
	pos    int
	std    int // 1 stdout, 2 stderr
	app    bool
	closed bool
}

type fileInfo struct {
	name string
	dir  bool
	size int
	path string
}

func NewVFS() *VFS { return &VFS{Files: map[string]*VNode{"/": {Dir: true}}} }

// Clone copies the tree (contents shared).
func (v *VFS) Clone() *VFS {
	n := &VFS{Files: map[string]*VNode{}, Fault: v.Fault}
	for k, f := range v.Files {
		c := *f
		n.Files[k] = &c
	}
	return n
}

// Put adds a file and its parent directories.
func (v *VFS) Put(path string, content sym.Str) {
	v.MkdirAll(filepath.Dir(path))
	v.Files[path] = &VNode{Content: content}
}

func (v *VFS) PutString(path, s string) { v.Put(path, sym.Lit(s)) }

func (v *VFS) MkdirAll(path string) {
	for p := path; ; p = filepath.Dir(p) {
		if v.Files[p] == nil {
			v.Files[p] = &VNode{Dir: true}
		}
		if p == "/" || p == "." {
			return
		}
	}
}

// Paths lists all entries, sorted.
func (v *VFS) Paths() []string {
	r := []string{}
	for k := range v.Files {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m *Machine) abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(m.Cwd, p)
	}
	return filepath.Clean(p)
}

func (m *Machine) libVar(pkg, name string) Value {
	sp := m.P.Pkgs[pkg]
	if sp == nil {
		m.Path.Unsupported("package %s not loaded", pkg)
	}
	g := sp.Var(name)
	return *m.global(g, m.P.gid(g))
}

func (m *Machine) pathErr(op, path, kind string) Value {
	var e Value
	switch kind {
	case "notexist":
		e = m.libVar("internal/oserror", "ErrNotExist")
	case "perm":
		e = m.libVar("internal/oserror", "ErrPermission")
	case "exist":
		e = m.libVar("internal/oserror", "ErrExist")
	default:
		e = m.NewError(kind)
	}
	c := new(Value)
	*c = Struct{op, path, e}
	return Iface{T: m.P.PathErrT, V: c}
}

func (m *Machine) fault(op, path string) Value {
	if m.FS.Fault != nil {
		if k := m.FS.Fault(op, path); k != "" {
			return m.pathErr(op, path, k)
		}
	}
	return nil
}

func (m *Machine) stat(p string) (*VNode, string, Value) {
	if p == "" {
		return nil, p, m.pathErr("stat", p, "notexist")
	}
	a := m.abs(p)
	// every ancestor must be a directory
	for d := filepath.Dir(a); ; d = filepath.Dir(d) {
		n := m.FS.Files[d]
		if n == nil {
			return nil, a, m.pathErr("stat", p, "notexist")
		}
		if !n.Dir {
			return nil, a, m.pathErr("stat", p, "not a directory")
		}
		if d == "/" {
			break
		}
	}
	n := m.FS.Files[a]
	if n == nil {
		return nil, a, m.pathErr("stat", p, "notexist")
	}
	if !n.Dir && len(p) > 1 && strings.HasSuffix(p, "/") {
		return nil, a, m.pathErr("stat", p, "not a directory")
	}
	return n, a, nil
}

func (m *Machine) writeFile(p string, s sym.Str, app bool) Value {
	a := m.abs(p)
	if e := m.fault("open", a); e != nil {
		return e
	}
	par := m.FS.Files[filepath.Dir(a)]
	if p == "" || par == nil {
		return m.pathErr("open", p, "notexist")
	}
	if !par.Dir {
		return m.pathErr("open", p, "not a directory")
	}
	n := m.FS.Files[a]
	if n != nil && n.Dir {
		return m.pathErr("open", p, "is a directory")
	}
	if n != nil && n.NoWrite || n == nil && par.NoWrite {
		return m.pathErr("open", p, "perm")
	}
	if e := m.fault("write", a); e != nil {
		// open with O_TRUNC succeeded, the data did not arrive
		m.FS.Files[a] = &VNode{}
		m.FS.Log = append(m.FS.Log, "write "+a)
		return e
	}
	if app && n != nil {
		s = sym.Cat(n.Content, s)
	}
	nn := &VNode{Content: s}
	m.FS.Files[a] = nn
	m.FS.Log = append(m.FS.Log, "write "+a)
	return Iface{}
}

func (m *Machine) fileWrite(f *vfile, s sym.Str) {
	switch f.std {
	case 1:
		m.Stdout = append(m.Stdout, s...)
		return
	case 2:
		m.Stderr = append(m.Stderr, s...)
		return
	}
	f.node.Content = sym.Cat(f.node.Content, s)
	m.FS.Log = append(m.FS.Log, "write "+f.path)
}

func fileOf(m *Machine, v Value) *vfile {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	n, ok := (*p).(*Native)
	if !ok || n == nil {
		// os.Stdout / os.Stderr are recognised by identity
		m.Path.Unsupported("file object")
	}
	return n.V.(*vfile)
}

func mkFile(f *vfile) Value {
	p := new(Value)
	*p = &Native{f}
	return p
}

func initOS() {
	def("os.ReadFile", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		n, ab, e := m.stat(p)
		if e != nil {
			return Tuple{Slice(nil), e}
		}
		if e := m.fault("read", ab); e != nil {
			return Tuple{Slice(nil), e}
		}
		if n.Dir {
			return Tuple{Slice(nil), m.pathErr("read", p, "is a directory")}
		}
		if n.NoRead {
			return Tuple{Slice(nil), m.pathErr("open", p, "perm")}
		}
		r := make(Slice, 0, len(n.Content))
		for _, c := range n.Content {
			r = append(r, chVal(c))
		}
		return Tuple{r, Iface{}}
	})
	def("os.WriteFile", func(m *Machine, a []Value) Value {
		return m.writeFile(m.concStr(a[0]), toStr(bytesToStr(a[1].(Slice))), false)
	})
	st := func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		n, ab, e := m.stat(p)
		if e != nil {
			return Tuple{Iface{}, e}
		}
		if e := m.fault("stat", ab); e != nil {
			return Tuple{Iface{}, e}
		}
		return Tuple{Iface{T: hashType, V: &Native{&fileInfo{filepath.Base(ab), n.Dir, len(n.Content), ab}}}, Iface{}}
	}
	def("os.Stat", st)
	def("os.Lstat", st)
	def("os.SameFile", func(m *Machine, a []Value) Value {
		x, ok1 := a[0].(Iface).V.(*Native)
		y, ok2 := a[1].(Iface).V.(*Native)
		if !ok1 || !ok2 {
			m.Path.Unsupported("os.SameFile")
		}
		return x.V.(*fileInfo).path == y.V.(*fileInfo).path
	})
	def("os.Executable", func(m *Machine, a []Value) Value { return Tuple{m.ExePath, Iface{}} })
	def("os.Getwd", func(m *Machine, a []Value) Value { return Tuple{m.Cwd, Iface{}} })
	def("os.Getenv", func(m *Machine, a []Value) Value {
		if m.NDEnv && m.Path.Choose(2) == 1 {
			return "value"
		}
		return ""
	})
	def("os.LookupEnv", func(m *Machine, a []Value) Value {
		if m.NDEnv && m.Path.Choose(2) == 1 {
			return Tuple{"value", true}
		}
		return Tuple{"", false}
	})
	def("os.Environ", func(m *Machine, a []Value) Value {
		if m.NDEnv && m.Path.Choose(2) == 1 {
			return Slice{"A=value"}
		}
		return Slice{}
	})
	nd := func(name string, v Value) {
		def(name, func(m *Machine, a []Value) Value {
			if m.NDEnv {
				return m.Path.Fresh("env", 64)
			}
			return v
		})
	}
	for _, n := range []string{"os.Getpid", "os.Getppid", "os.Getuid", "math/rand.Int", "math/rand.Int63", "math/rand/v2.Int", "math/rand/v2.Int64", "math/rand/v2.Uint64", "runtime.NumGoroutine", "runtime.NumCPU"} {
		nd(n, int64(1))
	}
	ndn := func(m *Machine, a []Value) Value {
		n, ok := a[0].(int64)
		if m.NDEnv && ok && n > 0 {
			return int64(m.Path.Choose(int(min(n, 4))))
		}
		return int64(0)
	}
	for _, n := range []string{"math/rand.Intn", "math/rand.Int63n", "math/rand/v2.IntN", "math/rand/v2.N"} {
		def(n, ndn)
	}
	def("os.Hostname", func(m *Machine, a []Value) Value {
		if m.NDEnv && m.Path.Choose(2) == 1 {
			return Tuple{"other", Iface{}}
		}
		return Tuple{"host", Iface{}}
	})
	def("os.Exit", func(m *Machine, a []Value) Value { panic(ExitPanic{m.concInt(a[0])}) })
	def("path/filepath.Abs", func(m *Machine, a []Value) Value { return Tuple{m.abs(m.concStr(a[0])), Iface{}} })
	def("path/filepath.EvalSymlinks", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		if _, _, e := m.stat(p); e != nil {
			return Tuple{"", e}
		}
		return Tuple{filepath.Clean(p), Iface{}}
	})
	def("os.Remove", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		_, ab, e := m.stat(p)
		if e != nil {
			return e
		}
		delete(m.FS.Files, ab)
		m.FS.Log = append(m.FS.Log, "remove "+ab)
		return Iface{}
	})
	def("os.Rename", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		n, ab, e := m.stat(p)
		if e != nil {
			return e
		}
		to := m.abs(m.concStr(a[1]))
		if e := m.fault("rename", to); e != nil {
			return e
		}
		if d := m.FS.Files[to]; d != nil && d.Dir {
			return m.pathErr("rename", p, "file exists")
		}
		delete(m.FS.Files, ab)
		m.FS.Files[to] = n
		m.FS.Log = append(m.FS.Log, "remove "+ab, "write "+to)
		return Iface{}
	})
	mk := func(m *Machine, a []Value) Value { m.FS.MkdirAll(m.abs(m.concStr(a[0]))); return Iface{} }
	def("os.MkdirAll", mk)
	def("os.Mkdir", mk)
	def("os.Open", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		n, ab, e := m.stat(p)
		if e != nil {
			return Tuple{(*Value)(nil), e}
		}
		if n.NoRead {
			return Tuple{(*Value)(nil), m.pathErr("open", p, "perm")}
		}
		return Tuple{mkFile(&vfile{path: ab, node: n}), Iface{}}
	})
	create := func(m *Machine, p string) Value {
		if e := m.writeFile(p, nil, false); e.(Iface).T != nil {
			return Tuple{(*Value)(nil), e}
		}
		ab := m.abs(p)
		return Tuple{mkFile(&vfile{path: ab, node: m.FS.Files[ab]}), Iface{}}
	}
	def("os.Create", func(m *Machine, a []Value) Value { return create(m, m.concStr(a[0])) })
	def("os.OpenFile", func(m *Machine, a []Value) Value {
		p := m.concStr(a[0])
		fl := m.concInt(a[1])
		const wronly, rdwr, creat, trunc, app, excl = 1, 2, 0x40, 0x200, 0x400, 0x80
		n, ab, e := m.stat(p)
		if e == nil && fl&excl != 0 && fl&creat != 0 {
			return Tuple{(*Value)(nil), m.pathErr("open", p, "exist")}
		}
		if fl&(wronly|rdwr) == 0 {
			if e != nil {
				return Tuple{(*Value)(nil), e}
			}
			return Tuple{mkFile(&vfile{path: ab, node: n}), Iface{}}
		}
		if e != nil && fl&creat == 0 {
			return Tuple{(*Value)(nil), e}
		}
		if e != nil || fl&trunc != 0 {
			return create(m, p)
		}
		if fl&app == 0 {
			m.Path.Unsupported("overwrite without truncation")
		}
		return Tuple{mkFile(&vfile{path: ab, node: n, app: true}), Iface{}}
	})
	def("os.CreateTemp", func(m *Machine, a []Value) Value {
		d := m.concStr(a[0])
		if d == "" {
			d = "/tmp"
			m.FS.MkdirAll(d)
		}
		return create(m, filepath.Join(d, strings.ReplaceAll(m.concStr(a[1]), "*", "123456")))
	})
	wr := func(m *Machine, a []Value, s sym.Str) Value {
		f := fileOf(m, a[0])
		if e := m.fault("write", f.path); e != nil {
			return Tuple{int64(0), e}
		}
		m.fileWrite(f, s)
		return Tuple{int64(len(s)), Iface{}}
	}
	def("(*os.File).WriteString", func(m *Machine, a []Value) Value { return wr(m, a, toStr(a[1])) })
	def("(*os.File).Write", func(m *Machine, a []Value) Value { return wr(m, a, toStr(bytesToStr(a[1].(Slice)))) })
	def("(*os.File).Close", func(m *Machine, a []Value) Value { fileOf(m, a[0]); return Iface{} })
	def("(*os.File).Sync", func(m *Machine, a []Value) Value { return Iface{} })
	def("(*os.File).Name", func(m *Machine, a []Value) Value { return fileOf(m, a[0]).path })
	def("(*os.File).Stat", func(m *Machine, a []Value) Value {
		f := fileOf(m, a[0])
		return Tuple{Iface{T: hashType, V: &Native{&fileInfo{filepath.Base(f.path), f.node.Dir, len(f.node.Content), f.path}}}, Iface{}}
	})
	def("io.ReadAll", func(m *Machine, a []Value) Value {
		f := fileOf(m, a[0].(Iface).V)
		if f.node.Dir {
			return Tuple{Slice(nil), m.pathErr("read", f.path, "is a directory")}
		}
		r := Slice{}
		for _, c := range f.node.Content {
			r = append(r, chVal(c))
		}
		return Tuple{r, Iface{}}
	})
	def("os.IsNotExist", func(m *Machine, a []Value) Value {
		e := a[0].(Iface)
		if e.T == nil {
			return false
		}
		if p, ok := e.V.(*Value); ok && p != nil {
			if st, ok := (*p).(Struct); ok && len(st) == 3 {
				return m.equal(st[2], m.libVar("internal/oserror", "ErrNotExist"))
			}
		}
		return false
	})
}

// libGlobalHook supplies values of library globals that need no initialiser.
func (m *Machine) libGlobalHook(g *ssa.Global) (Value, bool) {
	switch g.RelString(nil) {
	case "os.Stdout":
		return mkFile(&vfile{std: 1}), true
	case "os.Stderr":
		return mkFile(&vfile{std: 2}), true
	case "os.ErrNotExist":
		return m.libVar("internal/oserror", "ErrNotExist"), true
	case "os.ErrPermission":
		return m.libVar("internal/oserror", "ErrPermission"), true
	case "os.ErrExist":
		return m.libVar("internal/oserror", "ErrExist"), true
	}
	return nil, false
}
