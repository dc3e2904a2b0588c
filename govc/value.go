package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, *StructV, *PtrV, *SliceV, *IfaceV, *ClosV, *MapV, *TupleV, *StreamV, *IterV.
type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}

// PtrV points into an object; Obj 0 is nil.
type PathEl struct {
	Field int
	Index *Term // non-nil for an element of an array/slice
}
type PtrV struct {
	Obj  int
	Path []PathEl
}

// SliceV is a window of a mutable array object. Immutable slices are plain terms.
type SliceV struct {
	Obj      int
	Off, Len *Term
}

type IfaceV struct {
	T types.Type
	V Value
}

type ClosV struct {
	Fn   *ssa.Function
	Bind []Value
}

type MapV struct{ Obj int }

type TupleV []Value

// StreamV is an abstract io.Reader or io.Writer whose state lives in an object.
type StreamV struct{ Obj int }

// IterV iterates over a map: keys is the (unknown) enumeration.
type IterV struct {
	Obj int // object holding the position
	M   *Term
	Enc *Term // Seq of keys
	str bool
}

// NilV is an untyped nil for pointer, func and similar values.
type NilV struct{}

type Object struct {
	ID     int
	Name   string
	T      types.Type // type of the content
	V      Value
	Kind   string // "", "reader", "writer", "array", "map", "iter", "flatew", ...
	Frozen bool
	// frozen only because Bytes() was taken of a buffer: replacing the whole
	// object leaves those bytes as they were
	BytesOnly bool
	Links     []int
	Input     bool
	AllCap    bool // array object whose capacity equals its length
	F         map[string]Value
	Size      *Term // number of elements, once noted
}

var objCount int

// State of one symbolic path.
var debugDead = os.Getenv("GOVC_DEAD") != ""

type State struct {
	RetLine int // line of the return statement
	Frames []*Frame
	Heap   map[int]*Object
	Facts  []*Term
	Ghost  map[string]tv // named by (let …) hints
	Prov   []string
	Ret    []Value // result of the last finished call (set when Frames becomes empty)
	Dead   bool
	NFork  int
	Loops  int
	Writes map[int]bool // shared tracker in dry runs
}

type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Value
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Dest   ssa.Value // call instruction in the caller receiving the result
	Site   string    // chain of call sites, identifies inlined loops
	Loops  map[*ssa.BasicBlock]*LoopCtx
	Depth  int
	Unroll map[*ssa.BasicBlock]int
}

func (s *State) clone() *State {
	n := &State{Heap: make(map[int]*Object, len(s.Heap)), NFork: s.NFork, Writes: s.Writes}
	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		nf := *f
		nf.Env = make(map[ssa.Value]Value, len(f.Env))
		for k, v := range f.Env {
			nf.Env[k] = v
		}
		nf.Loops = make(map[*ssa.BasicBlock]*LoopCtx, len(f.Loops))
		for k, v := range f.Loops {
			nf.Loops[k] = v
		}
		nf.Unroll = make(map[*ssa.BasicBlock]int, len(f.Unroll))
		for k, v := range f.Unroll {
			nf.Unroll[k] = v
		}
		n.Frames[i] = &nf
	}
	for k, v := range s.Heap {
		n.Heap[k] = v
	}
	n.Facts = s.Facts[:len(s.Facts):len(s.Facts)]
	n.Ghost = s.Ghost
	n.RetLine = s.RetLine
	return n
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		if debugDead {
			fmt.Println("DEAD at", string(debug.Stack()))
		}
		s.Dead = true
	}
	for _, f := range s.Facts {
		if f == t {
			return
		}
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.Facts = append(s.Facts, t)
}

// holds reports whether the fact is syntactically known on this path.
func (s *State) known(t *Term) (bool, bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	nt := Not(t)
	for _, f := range s.Facts {
		if f == t {
			return true, true
		}
		if f == nt {
			return false, true
		}
	}
	return false, false
}

func (s *State) newObj(kind, name string, t types.Type, v Value) *Object {
	objCount++
	o := &Object{ID: objCount, Name: name, T: t, V: v, Kind: kind}
	if t != nil && isBytesLike(t) {
		o.F = map[string]Value{"short": False}
	}
	s.Heap[o.ID] = o
	return o
}

func (s *State) mut(id int) *Object {
	o := s.Heap[id]
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	n := *o
	if o.F != nil {
		n.F = make(map[string]Value, len(o.F))
		for k, v := range o.F {
			n.F[k] = v
		}
	}
	s.Heap[id] = &n
	if s.Writes != nil {
		s.Writes[id] = true
	}
	return &n
}

type verr struct{ msg string }

func (e verr) Error() string { return e.msg }

func unsupported(format string, a ...interface{}) {
	panic(verr{fmt.Sprintf(format, a...)})
}

// zeroValue of a Go type.
func zeroValue(t types.Type) Value {
	t = types.Unalias(t)
	if isBytesLike(t) || isNamed(t, "time", "Time") {
		return zeroTerm(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t, F: make([]Value, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = zeroValue(u.Field(i).Type())
		}
		return sv
	case *types.Pointer, *types.Signature:
		return NilV{}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zeroValue(u.At(i).Type())
		}
		return tv
	}
	return zeroTerm(t)
}

// expand turns a struct term into a StructV of selector terms.
func expand(t types.Type, v Value) Value {
	tm, ok := v.(*Term)
	if !ok {
		return v
	}
	if isBytesLike(t) || isNamed(t, "time", "Time") {
		return v
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	si := structOf[sortOf(t)]
	sv := &StructV{T: t, F: make([]Value, u.NumFields())}
	for i := range sv.F {
		sv.F[i] = App(si.Fields[i], si.Sorts[i], tm)
	}
	return sv
}

func (s *State) freezeBytes(id int) {
	if o := s.Heap[id]; o != nil && !o.Frozen {
		o2 := *o
		o2.Frozen, o2.BytesOnly = true, true
		s.Heap[id] = &o2
	}
}

// toTerm converts a value of Go type t into a term. Objects that become part of
// a term are frozen: later writes to them are rejected.
func (s *State) toTerm(v Value, t types.Type) *Term {
	return s.toTermF(v, t, true)
}

// peek converts without freezing (a snapshot).
func (s *State) peek(v Value, t types.Type) *Term {
	return s.toTermF(v, t, false)
}

func (s *State) freeze(id int) {
	o := s.Heap[id]
	if o == nil || o.Frozen && !o.BytesOnly {
		return
	}
	o2 := *o
	o2.Frozen = true
	o2.BytesOnly = false
	s.Heap[id] = &o2
}

func (s *State) toTermF(v Value, t types.Type, frz bool) *Term {
	t = types.Unalias(t)
	switch x := v.(type) {
	case *Term:
		return x
	case NilV:
		if _, ok := t.Underlying().(*types.Interface); ok {
			return nilI
		}
		return zeroTerm(t)
	case *StructV:
		si := structOf[sortOf(x.T)]
		st := x.T.Underlying().(*types.Struct)
		args := make([]*Term, len(x.F))
		for i, f := range x.F {
			args[i] = s.toTermF(f, st.Field(i).Type(), frz)
		}
		return App(si.Ctor, si.Sort, args...)
	case *SliceV:
		o := s.Heap[x.Obj]
		c := o.V.(*Term)
		if frz {
			s.freeze(x.Obj)
		}
		if x.Off == IntC(0) && o.Size == x.Len {
			return c
		}
		return sqTake(sqDrop(c, x.Off), x.Len)
	case *MapV:
		if frz {
			s.freeze(x.Obj)
		}
		return s.Heap[x.Obj].V.(*Term)
	case *IfaceV:
		return Box(x.T, s.toTermF(x.V, x.T, frz))
	case *PtrV:
		if x.Obj == 0 {
			return zeroTerm(t)
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			unsupported("pointer converted to %s", typeName(t))
		}
		c := s.loadPath(x)
		if frz {
			s.freeze(x.Obj)
		}
		if isBytesLike(pt.Elem()) {
			return s.toTermF(c, pt.Elem(), frz)
		}
		ps := sortOf(t)
		return App("ref_"+ps, ps, s.toTermF(c, pt.Elem(), frz))
	case *ClosV:
		args := make([]*Term, len(x.Bind))
		for i, b := range x.Bind {
			args[i] = s.toTermF(b, x.Fn.FreeVars[i].Type(), frz)
		}
		return App("clo_"+x.Fn.String(), "Fn", args...)
	case *StreamV:
		// an abstract stream used as a plain interface value
		return Var(fmt.Sprintf("stream!%d", x.Obj), "If")
	}
	unsupported("cannot turn %T into a term of type %s", v, typeName(t))
	return nil
}

func getField(s *State, v Value, t types.Type, i int) Value {
	switch x := v.(type) {
	case *StructV:
		return x.F[i]
	case *Term:
		si := structOf[sortOf(t)]
		if si == nil {
			unsupported("field of non-struct %s", typeName(t))
		}
		return App(si.Fields[i], si.Sorts[i], x)
	}
	unsupported("field %d of %T", i, v)
	return nil
}

func (s *State) loadPath(p *PtrV) Value {
	if p.Obj == 0 {
		unsupported("load through nil pointer")
	}
	o := s.Heap[p.Obj]
	v := o.V
	t := o.T
	for _, el := range p.Path {
		v, t = s.step(v, t, el)
	}
	return v
}

func (s *State) step(v Value, t types.Type, el PathEl) (Value, types.Type) {
	if el.Index != nil {
		var et types.Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		default:
			unsupported("index into %s", typeName(t))
		}
		q := v.(*Term)
		for u := sqf("upd", q.Sort); q.Op == u; {
			e := Eq(q.Args[1], el.Index)
			if e == False {
				q = q.Args[0]
				continue
			}
			if e == True && isElem(q.Sort, q.Args[2]) && s.holds(Le(IntC(0), el.Index)) && s.holds(Lt(el.Index, sqLen(q))) {
				return q.Args[2], et
			}
			break
		}
		return sqAt(q, el.Index), et
	}
	st := t.Underlying().(*types.Struct)
	return getField(s, v, t, el.Field), st.Field(el.Field).Type()
}

func (s *State) holds(c *Term) bool {
	if c == True {
		return true
	}
	v, ok := decideByFacts(s.Facts, c)
	return ok && v
}

func (s *State) ptrElemType(p *PtrV) types.Type {
	t := s.Heap[p.Obj].T
	for _, el := range p.Path {
		if el.Index != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			}
		} else {
			t = t.Underlying().(*types.Struct).Field(el.Field).Type()
		}
	}
	return t
}

func (s *State) storePath(p *PtrV, v Value) {
	if p.Obj == 0 {
		unsupported("store through nil pointer")
	}
	o := s.mut(p.Obj)
	if o.Frozen && o.BytesOnly && len(p.Path) == 0 {
		o.Frozen, o.BytesOnly = false, false
	}
	if o.Frozen {
		unsupported("write to object %s after it became part of an immutable value", o.Name)
	}
	o.V = s.update(o.V, o.T, p.Path, v)
	if o.Kind == "array" {
		s.smash(o)
	}
}

// smash: element writes may be seen through slices that share the backing array
func (s *State) smash(o *Object) {
	for _, l := range o.Links {
		if lo, ok := s.Heap[l]; ok {
			m := s.mut(l)
			old := lo.V.(*Term)
			m.V = Fresh("aliased", old.Sort)
			s.assume(Eq(sqLen(m.V.(*Term)), sqLen(old)))
		}
	}
}

func (s *State) update(old Value, t types.Type, path []PathEl, v Value) Value {
	if len(path) == 0 {
		return v
	}
	el := path[0]
	if el.Index != nil {
		sub, et := s.step(old, t, el)
		nv := s.update(sub, et, path[1:], v)
		return sqUpd(old.(*Term), el.Index, s.toTerm(nv, et))
	}
	sv := expand(t, old).(*StructV)
	n := &StructV{T: sv.T, F: append([]Value{}, sv.F...)}
	ft := t.Underlying().(*types.Struct).Field(el.Field).Type()
	n.F[el.Field] = s.update(sv.F[el.Field], ft, path[1:], v)
	return n
}
