package gosym

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

type intrinsic func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	// library functions only; module code is always interpreted
	if fn.Pkg == nil && fn.Origin() == nil && fn.Object() == nil {
		return nil
	}
	o := fn
	if g := fn.Origin(); g != nil {
		o = g
	}
	if o.Pkg != nil && strings.Contains(o.Pkg.Pkg.Path(), ".") {
		return nil
	}
	return intrinsics[o.String()]
}

func decodeRuneBytes(b []byte) (rune, int) { return utf8.DecodeRune(b) }

// ---- reflection based natives for concrete arguments

func conv(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s).Convert(t), ok
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8,
		reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		i, ok := v.(int64)
		return reflect.ValueOf(i).Convert(t), ok
	case reflect.Bool:
		b, ok := v.(bool)
		return reflect.ValueOf(b), ok
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, x := range s {
			e, ok := conv(x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (m *Machine) unconv(v reflect.Value) Value {
	t := v.Type()
	if t == errType {
		if v.IsNil() {
			return Iface{}
		}
		return m.NewError(v.Interface().(error).Error())
	}
	switch t.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return v.Int()
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return int64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		r := make(Slice, v.Len())
		for i := range r {
			r[i] = m.unconv(v.Index(i))
		}
		return r
	}
	panic("unconv " + t.String())
}

// native registers f as the implementation of the library function for concrete arguments.
func native(name string, f any) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	prev := intrinsics[name]
	intrinsics[name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := conv(a, rt.In(i))
			if !ok {
				if prev != nil {
					return prev(m, fn, args)
				}
				return nil, false
			}
			in[i] = v
		}
		var out []reflect.Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(GoPanic{V: m.NewError(fmt.Sprint(r)), Runtime: fmt.Sprint(r)})
				}
			}()
			if rt.IsVariadic() {
				out = rv.CallSlice(in)
			} else {
				out = rv.Call(in)
			}
		}()
		switch len(out) {
		case 0:
			return nil, true
		case 1:
			return m.unconv(out[0]), true
		}
		t := make(Tuple, len(out))
		for i, o := range out {
			t[i] = m.unconv(o)
		}
		return t, true
	}
}

func def(name string, f func(m *Machine, args []Value) Value) {
	intrinsics[name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) { return f(m, args), true }
}

func strSlice(ss []string) Slice {
	r := make(Slice, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

func init() {
	// --- symbolic versions first, concrete fast paths wrap them
	def("strings.Join", func(m *Machine, a []Value) Value {
		parts := a[0].(Slice)
		sep := toStr(a[1])
		r := sym.Str{}
		for i, p := range parts {
			if i > 0 {
				r = append(r, sep...)
			}
			r = append(r, toStr(p)...)
		}
		return mkStr(r)
	})
	def("strings.ReplaceAll", func(m *Machine, a []Value) Value { return m.strReplace(a[0], a[1], a[2], -1) })
	def("strings.Replace", func(m *Machine, a []Value) Value { return m.strReplace(a[0], a[1], a[2], m.concInt(a[3])) })
	def("strings.HasPrefix", func(m *Machine, a []Value) Value { return m.hasPrefix(toStr(a[0]), toStr(a[1])) })
	def("strings.HasSuffix", func(m *Machine, a []Value) Value { return m.hasSuffix(toStr(a[0]), toStr(a[1])) })
	def("strings.Index", func(m *Machine, a []Value) Value { return m.strFind(a[0], a[1]) })
	def("strings.Contains", func(m *Machine, a []Value) Value { return m.strFind(a[0], a[1]).(int64) >= 0 })
	def("strings.Clone", func(m *Machine, a []Value) Value { return a[0] })
	def("internal/stringslite.Clone", func(m *Machine, a []Value) Value { return a[0] })
	def("strings.Repeat", func(m *Machine, a []Value) Value {
		n := m.concInt(a[1])
		if n < 0 {
			m.rtPanic("strings: negative Repeat count")
		}
		r := sym.Str{}
		for i := int64(0); i < n; i++ {
			r = append(r, toStr(a[0])...)
		}
		return mkStr(r)
	})
	def("strings.Split", func(m *Machine, a []Value) Value {
		sep := toStr(a[1])
		s := m.Path.Digits(toStr(a[0]))
		if len(sep) == 0 {
			r := Slice{}
			for _, c := range s {
				r = append(r, mkStr(sym.Str{c}))
			}
			return r
		}
		r := Slice{}
		for {
			i := m.strFind(mkStr(s), a[1]).(int64)
			if i < 0 {
				break
			}
			r = append(r, mkStr(s[:i]))
			s = s[i+int64(len(sep)):]
		}
		return append(r, mkStr(s))
	})
	def("strings.Count", func(m *Machine, a []Value) Value {
		sep := toStr(a[1])
		s := m.Path.Digits(toStr(a[0]))
		if len(sep) == 0 {
			return int64(len(s) + 1)
		}
		n := int64(0)
		for {
			i := m.strFind(mkStr(s), a[1]).(int64)
			if i < 0 {
				return n
			}
			n++
			s = s[i+int64(len(sep)):]
		}
	})
	def("strings.TrimSpace", func(m *Machine, a []Value) Value {
		s := toStr(a[0])
		sp := func(c sym.Ch) bool {
			if c.IsItoa() {
				return false
			}
			t := m.F.ByteTerm(c)
			r := m.F.False
			for _, k := range "\t\n\v\f\r " {
				r = m.F.Or(r, m.F.Eq(t, m.F.BV(int64(k), 8)))
			}
			return m.Path.Branch(r)
		}
		for len(s) > 0 && sp(s[0]) {
			s = s[1:]
		}
		for len(s) > 0 && sp(s[len(s)-1]) {
			s = s[:len(s)-1]
		}
		return mkStr(s)
	})
	native("strings.Join", strings.Join)
	native("strings.ReplaceAll", strings.ReplaceAll)
	native("strings.Replace", strings.Replace)
	native("strings.HasPrefix", strings.HasPrefix)
	native("strings.HasSuffix", strings.HasSuffix)
	native("strings.Index", strings.Index)
	native("strings.Contains", strings.Contains)
	native("strings.Repeat", strings.Repeat)
	native("strings.Split", strings.Split)
	native("strings.Count", strings.Count)
	native("strings.TrimSpace", strings.TrimSpace)
	for n, f := range map[string]any{
		"SplitN": strings.SplitN, "SplitAfter": strings.SplitAfter, "Fields": strings.Fields, "ToUpper": strings.ToUpper, "ToLower": strings.ToLower,
		"TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight, "Trim": strings.Trim,
		"TrimPrefix": strings.TrimPrefix, "TrimSuffix": strings.TrimSuffix, "LastIndex": strings.LastIndex,
		"IndexByte": strings.IndexByte, "IndexAny": strings.IndexAny, "ContainsAny": strings.ContainsAny,
		"ContainsRune": strings.ContainsRune, "IndexRune": strings.IndexRune, "EqualFold": strings.EqualFold, "Cut": strings.Cut,
		"CutPrefix": strings.CutPrefix, "CutSuffix": strings.CutSuffix, "Compare": strings.Compare, "LastIndexByte": strings.LastIndexByte, "Title": strings.Title,
	} {
		native("strings."+n, f)
	}
	for n, f := range map[string]any{
		"strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
		"strconv.ParseBool": strconv.ParseBool, "strconv.Unquote": strconv.Unquote, "strconv.ParseInt": strconv.ParseInt, "strconv.FormatInt": strconv.FormatInt,
		"strconv.ParseUint": strconv.ParseUint, "strconv.FormatUint": strconv.FormatUint,
		"path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext, "path.Join": path.Join, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs,
		"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.Join": filepath.Join,
		"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
		"path/filepath.Split": filepath.Split, "path/filepath.Rel": filepath.Rel,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
		"encoding/hex.EncodeToString": hex.EncodeToString,
	} {
		native(n, f)
	}
	uni := func(name string, f func(rune) bool) {
		intrinsics["unicode."+name] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
			switch v := args[0].(type) {
			case int64:
				return f(rune(v)), true
			case *sym.Term:
				// decided per ASCII range; larger code points are concretised
				if m.Path.Branch(m.F.Ult(v, m.F.BV(128, 32))) {
					r := m.F.False
					for c := 0; c < 128; {
						if !f(rune(c)) {
							c++
							continue
						}
						e := c
						for e+1 < 128 && f(rune(e+1)) {
							e++
						}
						r = m.F.Or(r, m.F.And(m.F.Ule(m.F.BV(int64(c), 32), v), m.F.Ule(v, m.F.BV(int64(e), 32))))
						c = e + 1
					}
					return boolVal(r), true
				}
				return f(rune(m.concInt(v))), true
			}
			return nil, false
		}
	}
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	uni("IsDigit", unicode.IsDigit)
	uni("IsNumber", unicode.IsNumber)
	uni("IsLetter", unicode.IsLetter)
	uni("IsSpace", unicode.IsSpace)
	uni("IsPrint", unicode.IsPrint)
	uni("IsControl", unicode.IsControl)
	uni("IsPunct", unicode.IsPunct)
	native("unicode.ToUpper", unicode.ToUpper)
	native("unicode.ToLower", unicode.ToLower)

	def("strconv.Atoi", func(m *Machine, a []Value) Value { return m.parseInt(a[0], "Atoi") })
	pi := intrinsics["strconv.ParseInt"]
	intrinsics["strconv.ParseInt"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if s, ok := args[0].(string); ok {
			if _, hole := m.intHole(s); !hole {
				return pi(m, fn, args)
			}
		}
		return m.parseInt(args[0], "ParseInt"), true
	}
	itoa := func(m *Machine, v Value) Value {
		switch v := v.(type) {
		case int64:
			return strconv.FormatInt(v, 10)
		case *sym.Term:
			return mkStr(sym.Itoa(v))
		}
		panic("itoa")
	}
	def("strconv.Itoa", func(m *Machine, a []Value) Value { return itoa(m, a[0]) })
	fi := intrinsics["strconv.FormatInt"]
	intrinsics["strconv.FormatInt"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if t, ok := args[0].(*sym.Term); ok {
			if b, ok := args[1].(int64); ok && b == 10 {
				return mkStr(sym.Itoa(t)), true
			}
			return nil, false
		}
		return fi(m, fn, args)
	}
	uq := intrinsics["strconv.Unquote"]
	intrinsics["strconv.Unquote"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		if _, ok := args[0].(string); ok {
			return uq(m, fn, args)
		}
		return m.unquoteSym(fn, args)
	}

	// errors / fmt
	def("errors.New", func(m *Machine, a []Value) Value { return m.NewErrorStr(a[0]) })
	def("fmt.Errorf", func(m *Machine, a []Value) Value {
		return m.NewErrorStr(mkStr(m.sprintf(toStr(a[0]), a[1].(Slice))))
	})
	def("fmt.Sprintf", func(m *Machine, a []Value) Value { return mkStr(m.sprintf(toStr(a[0]), a[1].(Slice))) })
	def("fmt.Sprint", func(m *Machine, a []Value) Value { return mkStr(m.sprint(a[0].(Slice), false)) })
	def("fmt.Sprintln", func(m *Machine, a []Value) Value {
		return mkStr(append(m.sprint(a[0].(Slice), true), sym.Ch{B: '\n'}))
	})
	out := func(f func(m *Machine, a []Value) sym.Str) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			s := f(m, a)
			m.Stdout = append(m.Stdout, s...)
			return Tuple{int64(len(s)), Iface{}}
		}
	}
	def("fmt.Printf", out(func(m *Machine, a []Value) sym.Str { return m.sprintf(toStr(a[0]), a[1].(Slice)) }))
	def("fmt.Print", out(func(m *Machine, a []Value) sym.Str { return m.sprint(a[0].(Slice), false) }))
	def("fmt.Println", out(func(m *Machine, a []Value) sym.Str {
		return append(m.sprint(a[0].(Slice), true), sym.Ch{B: '\n'})
	}))
	fout := func(f func(m *Machine, a []Value) sym.Str) func(m *Machine, a []Value) Value {
		return func(m *Machine, a []Value) Value {
			s := f(m, a[1:])
			m.writeTo(a[0].(Iface), s)
			return Tuple{int64(len(s)), Iface{}}
		}
	}
	def("fmt.Fprintf", fout(func(m *Machine, a []Value) sym.Str { return m.sprintf(toStr(a[0]), a[1].(Slice)) }))
	def("fmt.Fprint", fout(func(m *Machine, a []Value) sym.Str { return m.sprint(a[0].(Slice), false) }))
	def("fmt.Fprintln", fout(func(m *Machine, a []Value) sym.Str {
		return append(m.sprint(a[0].(Slice), true), sym.Ch{B: '\n'})
	}))

	// strings.Builder / bytes.Buffer: content kept as a string in field 0 of a side table
	for _, T := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		def(T+".WriteString", func(m *Machine, a []Value) Value {
			m.sbAppend(a[0], a[1])
			return Tuple{m.strLen(a[1]), Iface{}}
		})
		def(T+".WriteByte", func(m *Machine, a []Value) Value {
			m.sbAppend(a[0], mkStr(sym.Str{valCh(a[1])}))
			return Iface{}
		})
		def(T+".WriteRune", func(m *Machine, a []Value) Value {
			s := m.runeToStr(a[1], 32, true)
			m.sbAppend(a[0], s)
			return Tuple{m.strLen(s), Iface{}}
		})
		def(T+".Write", func(m *Machine, a []Value) Value {
			s := bytesToStr(a[1].(Slice))
			m.sbAppend(a[0], s)
			return Tuple{int64(len(a[1].(Slice))), Iface{}}
		})
		def(T+".String", func(m *Machine, a []Value) Value { return m.sbGet(a[0]) })
		def(T+".Len", func(m *Machine, a []Value) Value { return m.strLen(m.sbGet(a[0])) })
		def(T+".Cap", func(m *Machine, a []Value) Value { return m.strLen(m.sbGet(a[0])) })
		def(T+".Grow", func(m *Machine, a []Value) Value { return nil })
		def(T+".Reset", func(m *Machine, a []Value) Value { m.sbSet(a[0], ""); return nil })
	}
	def("(*bytes.Buffer).Bytes", func(m *Machine, a []Value) Value {
		r := Slice{}
		for _, c := range m.Path.Digits(toStr(m.sbGet(a[0]))) {
			r = append(r, chVal(c))
		}
		return r
	})
	def("bytes.NewBufferString", func(m *Machine, a []Value) Value {
		p := new(Value)
		*p = Struct{a[0], int64(0), int64(0)}
		return p
	})
	def("strings.NewReplacer", func(m *Machine, a []Value) Value {
		p := new(Value)
		*p = &Native{a[0].(Slice)}
		return p
	})
	def("(*strings.Replacer).Replace", func(m *Machine, a []Value) Value {
		pairs := (*a[0].(*Value)).(*Native).V.(Slice)
		return m.replacer(pairs, a[1])
	})

	// maps / slices helpers implemented in the runtime
	def("maps.Clone", func(m *Machine, a []Value) Value { return a[0].(*Map).clone() })
	def("maps.clone", func(m *Machine, a []Value) Value {
		e := a[0].(Iface)
		return Iface{e.T, e.V.(*Map).clone()}
	})
	def("slices.overlaps", func(m *Machine, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if len(x) == 0 || len(y) == 0 {
			return false
		}
		for i := range x {
			if &x[i] == &y[0] {
				return true
			}
		}
		for i := range y {
			if &y[i] == &x[0] {
				return true
			}
		}
		return false
	})
	intrinsics["slices.Contains"] = func(m *Machine, fn *ssa.Function, args []Value) (Value, bool) {
		s := args[0].(Slice)
		for _, x := range s {
			if m.truth(m.equal(x, args[1])) {
				return true, true
			}
		}
		return false, true
	}
	sortS := func(m *Machine, a []Value) Value {
		s := a[0].(Slice)
		if iv, ok := a[0].(Iface); ok {
			s = iv.V.(Slice)
		}
		slices.SortStableFunc(s, func(x, y Value) int {
			switch x.(type) {
			case string, *RStr:
				if m.truth(boolVal(m.strLess(toStr(x), toStr(y)))) {
					return -1
				}
				if m.truth(boolVal(m.strLess(toStr(y), toStr(x)))) {
					return 1
				}
				return 0
			}
			if m.truth(boolVal(m.F.Slt(m.intTerm(x, 64), m.intTerm(y, 64)))) {
				return -1
			}
			if m.truth(boolVal(m.F.Slt(m.intTerm(y, 64), m.intTerm(x, 64)))) {
				return 1
			}
			return 0
		})
		return nil
	}
	def("sort.Strings", sortS)
	def("sort.Ints", sortS)
	def("slices.Sort", sortS)
	lessSort := func(m *Machine, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		cp := append(Slice{}, s...)
		idx := make([]int, len(s))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool {
			// less works on current contents of s, which stay unmoved until the end
			return m.truth(m.CallFunc(a[1].(*Func), []Value{int64(idx[i]), int64(idx[j])}))
		})
		for i, k := range idx {
			s[i] = cp[k]
		}
		return nil
	}
	def("sort.Slice", lessSort)
	def("sort.SliceStable", lessSort)

	// sync primitives are no-ops in single-threaded exploration
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		def(n, func(m *Machine, a []Value) Value { return nil })
	}
	def("(*sync.Once).Do", func(m *Machine, a []Value) Value {
		p := a[0].(*Value)
		key := onceKey{p}
		if m.Path.Data["once"] == nil {
			m.Path.Data["once"] = map[onceKey]bool{}
		}
		mp := m.Path.Data["once"].(map[onceKey]bool)
		if mp[key] {
			return nil
		}
		mp[key] = true
		return m.CallFunc(a[1].(*Func), nil)
	})

	// bytealg
	def("internal/bytealg.IndexByteString", func(m *Machine, a []Value) Value { return m.indexByte(m.Path.Digits(toStr(a[0])), a[1]) })
	def("internal/bytealg.IndexByte", func(m *Machine, a []Value) Value { return m.indexByte(toStr(bytesToStr(a[0].(Slice))), a[1]) })
	def("internal/bytealg.LastIndexByteString", func(m *Machine, a []Value) Value {
		s := m.Path.Digits(toStr(a[0]))
		for i := len(s) - 1; i >= 0; i-- {
			if m.truth(m.equal(chVal(s[i]), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	def("internal/bytealg.CountString", func(m *Machine, a []Value) Value {
		n := int64(0)
		for _, c := range m.Path.Digits(toStr(a[0])) {
			if m.truth(m.equal(chVal(c), a[1])) {
				n++
			}
		}
		return n
	})
	def("internal/bytealg.IndexString", func(m *Machine, a []Value) Value { return m.strFind(a[0], a[1]) })
	def("internal/bytealg.MakeNoZero", func(m *Machine, a []Value) Value {
		n := m.concInt(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})

	// hashing
	def("crypto/sha256.New", func(m *Machine, a []Value) Value {
		return Iface{T: hashType, V: &Native{&hashObj{}}}
	})
	def("crypto/sha256.Sum256", func(m *Machine, a []Value) Value {
		d := m.digest(toStr(bytesToStr(a[0].(Slice))))
		r := make(Array, len(d))
		for i, c := range d {
			r[i] = chVal(c)
		}
		return r
	})

	initOS()
	initRegexp()
}

type onceKey struct{ p *Value }

type hashObj struct{ s sym.Str }

var hashType types.Type = types.NewNamed(types.NewTypeName(0, nil, "sha256hash", nil), types.NewStruct(nil, nil), nil)

// digest is the SHA-256 of s (32 bytes), or the harness-chosen symbolic digest.
func (m *Machine) digest(s sym.Str) sym.Str {
	c, ok := s.Concrete()
	if !ok && m.OpaqueHash {
		// one fixed digest per symbolic text (distinct texts get distinct digests)
		d := sha256.Sum256([]byte(m.F.StrKey(s)))
		return sym.Lit(string(d[:]))
	}
	if !ok {
		c = m.concStr(mkStr(s))
	}
	if h, ok := m.HashHoles[c]; ok {
		return h
	}
	d := sha256.Sum256([]byte(c))
	return sym.Lit(string(d[:]))
}

// nativeMethod dispatches methods of opaque objects.
func (m *Machine) nativeMethod(n *Native, name string, args []Value) Value {
	switch o := n.V.(type) {
	case *hashObj:
		switch name {
		case "Write":
			o.s = append(o.s, toStr(bytesToStr(args[0].(Slice)))...)
			return Tuple{int64(len(args[0].(Slice))), Iface{}}
		case "Sum":
			r := append(Slice{}, args[0].(Slice)...)
			for _, c := range m.digest(o.s) {
				r = append(r, chVal(c))
			}
			return r
		case "Size":
			return int64(32)
		case "BlockSize":
			return int64(64)
		case "Reset":
			o.s = nil
			return nil
		}
	case *fileInfo:
		switch name {
		case "IsDir":
			return o.dir
		case "Name":
			return o.name
		case "Size":
			return int64(o.size)
		case "Mode":
			if o.dir {
				return int64(1<<31 | 0755)
			}
			return int64(0644)
		}
	}
	m.Path.Unsupported("method %s of %T", name, n.V)
	return nil
}

func (m *Machine) sbCell(v Value) Struct { return (*deref(m, v)).(Struct) }

func (m *Machine) sbGet(v Value) Value {
	if p, ok := v.(*Value); ok && p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	st := m.sbCell(v)
	for i := range st {
		if _, ok := st[i].(*RStr); ok {
			return st[i]
		}
		if _, ok := st[i].(string); ok {
			return st[i]
		}
	}
	return ""
}

func (m *Machine) sbSet(v, s Value) {
	st := m.sbCell(v)
	// the slice-typed buffer field carries the content
	for i := range st {
		switch st[i].(type) {
		case Slice, string, *RStr:
			st[i] = s
			return
		}
	}
	panic("builder layout")
}

func (m *Machine) sbAppend(v, s Value) {
	cur := m.sbGet(v)
	if a, ok := cur.(string); ok {
		if b, ok := s.(string); ok {
			m.sbSet(v, a+b)
			return
		}
	}
	m.sbSet(v, mkStr(sym.Cat(toStr(cur), toStr(s))))
}

func (m *Machine) writeTo(w Iface, s sym.Str) {
	if w.T == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if n, ok := w.V.(*Native); ok && n != nil {
		if f, ok := n.V.(*vfile); ok {
			m.fileWrite(f, s)
			return
		}
	}
	if strings.HasSuffix(w.T.String(), "strings.Builder") || strings.HasSuffix(w.T.String(), "bytes.Buffer") {
		m.sbAppend(w.V, mkStr(s))
		return
	}
	b := Slice{}
	for _, c := range m.Path.Digits(s) {
		b = append(b, chVal(c))
	}
	if _, ok := m.CallMethod(w, "Write", b); !ok {
		m.Path.Unsupported("write to %s", w.T)
	}
}

func (m *Machine) indexByte(s sym.Str, b Value) Value {
	for i, c := range s {
		if m.truth(m.equal(chVal(c), b)) {
			return int64(i)
		}
	}
	return int64(-1)
}

// matchAt: condition that pat occurs in s at i (no itoa elements).
func (m *Machine) matchAt(s, pat sym.Str, i int) *sym.Term {
	r := m.F.True
	for k, c := range pat {
		if s[i+k] == c {
			continue
		}
		r = m.F.And(r, m.F.Eq(m.F.ByteTerm(s[i+k]), m.F.ByteTerm(c)))
		if r.IsFalse() {
			break
		}
	}
	return r
}

// impossible: the itoa elements of s can never take part in a match of pat.
func itoaFree(pat sym.Str) bool {
	for _, c := range pat {
		if !c.IsLit() || c.B == '-' || c.B >= '0' && c.B <= '9' {
			return false
		}
	}
	return len(pat) > 0
}

func (m *Machine) strFind(sv, pv Value) Value {
	s, pat := toStr(sv), m.Path.Digits(toStr(pv))
	s = m.Path.Digits(s)
	if len(pat) == 0 {
		return int64(0)
	}
	for i := 0; i+len(pat) <= len(s); i++ {
		if m.Path.Branch(m.matchAt(s, pat, i)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (m *Machine) strReplace(sv, ov, nv Value, n int64) Value {
	s, o, nw := toStr(sv), m.Path.Digits(toStr(ov)), toStr(nv)
	if len(o) == 0 {
		s = m.Path.Digits(s)
		r := sym.Str{}
		for i := 0; i <= len(s); i++ {
			if n != 0 {
				r = append(r, nw...)
				n--
			}
			if i < len(s) {
				r = append(r, s[i])
			}
		}
		return mkStr(r)
	}
	if !itoaFree(o) {
		s = m.Path.Digits(s)
	}
	r := sym.Str{}
	for i := 0; i < len(s); {
		if n != 0 && i+len(o) <= len(s) && !s[i:i+len(o)].HasItoa() && m.Path.Branch(m.matchAt(s, o, i)) {
			r = append(r, nw...)
			i += len(o)
			n--
			continue
		}
		r = append(r, s[i])
		i++
	}
	return mkStr(r)
}

func (m *Machine) replacer(pairs Slice, sv Value) Value {
	s := toStr(sv)
	for i := 0; i < len(pairs); i += 2 {
		if !itoaFree(toStr(pairs[i])) {
			s = m.Path.Digits(s)
		}
	}
	r := sym.Str{}
	for i := 0; i <= len(s); {
		done := false
		for k := 0; k+1 < len(pairs); k += 2 {
			o := toStr(pairs[k])
			if len(o) == 0 {
				m.Path.Unsupported("replacer with empty pattern")
			}
			if i+len(o) <= len(s) && !s[i:i+len(o)].HasItoa() && m.Path.Branch(m.matchAt(s, o, i)) {
				r = append(r, toStr(pairs[k+1])...)
				i += len(o)
				done = true
				break
			}
		}
		if done {
			continue
		}
		if i < len(s) {
			r = append(r, s[i])
		}
		i++
	}
	return mkStr(r)
}

func (m *Machine) hasPrefix(s, p sym.Str) Value {
	if len(s) >= len(p) && !s[:len(p)].HasItoa() && !p.HasItoa() {
		return boolVal(m.matchAt(s, p, 0))
	}
	if len(s) > 0 && len(p) > 0 && s[0].IsItoa() && p[0].IsLit() && p[0].B != '-' && (p[0].B < '0' || p[0].B > '9') {
		return false
	}
	s, p = m.Path.Digits(s), m.Path.Digits(p)
	if len(s) < len(p) {
		return false
	}
	return boolVal(m.matchAt(s, p, 0))
}

func (m *Machine) hasSuffix(s, p sym.Str) Value {
	if len(s) >= len(p) && !s[len(s)-len(p):].HasItoa() && !p.HasItoa() {
		return boolVal(m.matchAt(s, p, len(s)-len(p)))
	}
	if n := len(s); n > 0 && len(p) > 0 && s[n-1].IsItoa() {
		if c := p[len(p)-1]; c.IsLit() && (c.B < '0' || c.B > '9') {
			return false
		}
	}
	s, p = m.Path.Digits(s), m.Path.Digits(p)
	if len(s) < len(p) {
		return false
	}
	return boolVal(m.matchAt(s, p, len(s)-len(p)))
}

// intHole recognises a decimal placeholder of a symbolic integer literal.
func (m *Machine) intHole(s string) (*sym.Term, bool) {
	if t, ok := m.IntHoles[s]; ok {
		return t, true
	}
	if strings.HasPrefix(s, "-") {
		if t, ok := m.IntHoles[s[1:]]; ok {
			return m.F.Neg(t), true
		}
	}
	return nil, false
}

func (m *Machine) parseInt(v Value, fn string) Value {
	switch s := v.(type) {
	case string:
		if t, ok := m.intHole(s); ok {
			return Tuple{t, Iface{}}
		}
		i, err := strconv.Atoi(s)
		if err != nil {
			return Tuple{int64(i), m.NewError(err.Error())}
		}
		return Tuple{int64(i), Iface{}}
	case *RStr:
		if len(s.S) == 1 && s.S[0].IsItoa() {
			return Tuple{s.S[0].T, Iface{}}
		}
		str := m.Path.Digits(s.S)
		f := m.F
		neg := false
		rest := str
		if len(rest) > 0 {
			t := f.ByteTerm(rest[0])
			if m.Path.Branch(f.Eq(t, f.BV('-', 8))) {
				neg = true
				rest = rest[1:]
			} else if m.Path.Branch(f.Eq(t, f.BV('+', 8))) {
				rest = rest[1:]
			}
		}
		bad := Tuple{int64(0), m.NewError("strconv." + fn + ": parsing: invalid syntax")}
		if len(rest) == 0 {
			return bad
		}
		acc := f.BV(0, 64)
		for _, c := range rest {
			t := f.ByteTerm(c)
			if !m.Path.Branch(f.And(f.Ule(f.BV('0', 8), t), f.Ule(t, f.BV('9', 8)))) {
				return bad
			}
			acc = f.Add(f.Mul(acc, f.BV(10, 64)), f.ZExt(f.Sub(t, f.BV('0', 8)), 64))
		}
		if len(rest) > 18 {
			m.Path.Bound("symbolic integer of %d digits", len(rest))
		}
		if neg {
			acc = f.Neg(acc)
		}
		return Tuple{intVal(acc, true), Iface{}}
	}
	panic("parseInt")
}

// unquoteSym handles strconv.Unquote of `"\c"` with symbolic c (the only symbolic use);
// anything else is interpreted from the library source.
func (m *Machine) unquoteSym(fn *ssa.Function, args []Value) (Value, bool) { return nil, false }
