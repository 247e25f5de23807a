// Package gosym executes Go SSA symbolically.
package gosym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/sym"
)

// Value is one of: bool, int64 (every integer kind, normalised), float64, string, *sym.Term
// (symbolic bool/integer), *RStr (symbolic string), *Value (pointer), *SymPtr, Struct, Array,
// Slice, *Map, *Func, Iface, Tuple, *Native (opaque library object), nil (unset).
type Value any

type Struct []Value
type Array []Value
type Slice []Value // nil slice == Slice(nil)
type Tuple []Value

// RStr is a symbolic string.
type RStr struct {
	S  sym.Str
	st int8 // 1: no decimal renderings, 2: some
}

// flat reports that every element is one byte.
func (r *RStr) flat() bool {
	if r.st == 0 {
		r.st = 1
		if r.S.HasItoa() {
			r.st = 2
		}
	}
	return r.st == 1
}

// Iface is an interface value; T==nil is the nil interface.
type Iface struct {
	T types.Type
	V Value
}

// Func is a function value.
type Func struct {
	Fn     *ssa.Function
	Env    []Value
	Native func(m *Machine, args []Value) Value
	Name   string
}

// Native is an opaque library object.
type Native struct{ V any }

// SymPtr points to element Idx (symbolic, in range) of Cells.
type SymPtr struct {
	Cells []Value
	Idx   *sym.Term
}

// Map is an insertion-ordered map.
type Map struct {
	idx  map[any]int
	ents []mapEnt
	live int
	syms int // entries with symbolic keys
}

type mapEnt struct {
	k, v Value
	dead bool
	symk bool
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

func mkStr(s sym.Str) Value {
	if c, ok := s.Concrete(); ok {
		return c
	}
	return &RStr{S: s}
}

func toStr(v Value) sym.Str {
	switch v := v.(type) {
	case string:
		return sym.Lit(v)
	case *RStr:
		return v.S
	}
	panic(fmt.Sprintf("toStr %T", v))
}

// hashKey gives a comparable key for a concrete value.
func hashKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, float64, string, *Value, *Map, *Func, *Native:
		return v, true
	case *sym.Term, *RStr, *SymPtr:
		return nil, false
	case Iface:
		if v.T == nil {
			return "<nil iface>", true
		}
		k, ok := hashKey(v.V)
		if !ok {
			return nil, false
		}
		return [2]any{v.T.String(), k}, true
	case Struct:
		return hashSeq("S", v)
	case Array:
		return hashSeq("A", v)
	case nil:
		return nil, true
	}
	panic(fmt.Sprintf("unhashable %T", v))
}

func hashSeq(tag string, vs []Value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(tag)
	for _, x := range vs {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

// find returns the entry index of key or -1 (forks on symbolic keys).
func (mp *Map) find(m *Machine, k Value) int {
	if mp == nil {
		return -1
	}
	h, ok := hashKey(k)
	if ok {
		if i, ok := mp.idx[h]; ok {
			return i
		}
		if mp.syms == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead || ok && !e.symk {
			continue
		}
		if m.truth(m.equal(e.k, k)) {
			return i
		}
	}
	return -1
}

func (mp *Map) get(m *Machine, k Value) (Value, bool) {
	if i := mp.find(m, k); i >= 0 {
		return mp.ents[i].v, true
	}
	return nil, false
}

func (mp *Map) set(m *Machine, k, v Value) {
	if i := mp.find(m, k); i >= 0 {
		mp.ents[i].v = v
		return
	}
	h, ok := hashKey(k)
	if ok {
		mp.idx[h] = len(mp.ents)
	} else {
		mp.syms++
	}
	mp.ents = append(mp.ents, mapEnt{k: k, v: v, symk: !ok})
	mp.live++
}

func (mp *Map) del(m *Machine, k Value) {
	i := mp.find(m, k)
	if i < 0 {
		return
	}
	e := &mp.ents[i]
	if e.symk {
		mp.syms--
	} else {
		h, _ := hashKey(e.k)
		delete(mp.idx, h)
	}
	e.dead = true
	e.v = nil
	mp.live--
}

func (mp *Map) clone() *Map {
	if mp == nil {
		return nil
	}
	n := newMap()
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if h, ok := hashKey(e.k); ok {
			n.idx[h] = len(n.ents)
		}
		if e.symk {
			n.syms++
		}
		n.ents = append(n.ents, e)
		n.live++
	}
	return n
}

type mapIter struct {
	mp   *Map
	pos  int
	todo []int // remaining entry indices when order is nondeterministic
	nd   bool
}

type strIter struct {
	s   sym.Str
	pos int
}

// copyVal copies aggregate values (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case *Lazy:
		return v.F()
	}
	return v
}

// Lazy is a value that is determined when it is read.
type Lazy struct{ F func() Value }

// zero value of a type.
func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Native)(nil)
	case *types.Struct:
		r := make(Struct, t.NumFields())
		for i := range r {
			r[i] = zero(t.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(Array, t.Len())
		for i := range r {
			r[i] = zero(t.Elem())
		}
		return r
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic("zero of type param " + t.String())
	}
	panic(fmt.Sprintf("zero: %T %s", t, t))
}

// intInfo gives width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func norm(v int64, w uint8, signed bool) int64 {
	if w >= 64 {
		return v
	}
	s := 64 - uint(w)
	if signed {
		return v << s >> s
	}
	return int64(uint64(v) << s >> s)
}

func sortedStrings(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// FromStr wraps a string as a machine value.
func FromStr(s sym.Str) Value { return mkStr(s) }

// ElemType is the element type of a slice type.
func ElemType(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

// CallOn calls a method (value or pointer receiver) of type t on v.
func (m *Machine) CallOn(t types.Type, v Value, name string, args ...Value) Value {
	if sel := m.P.Prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		return m.Call(m.P.Prog.MethodValue(sel), append([]Value{v}, args...))
	}
	sel := m.P.Prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, name)
	if sel == nil {
		m.Path.Unsupported("no method %s", name)
	}
	c := new(Value)
	*c = v
	return m.Call(m.P.Prog.MethodValue(sel), append([]Value{c}, args...))
}

// IntTerm64 converts an integer value to a 64-bit term.
func (m *Machine) IntTerm64(v Value) *sym.Term {
	if t, ok := v.(*sym.Term); ok {
		return m.F.SExt(t, 64)
	}
	return m.F.BV(v.(int64), 64)
}
