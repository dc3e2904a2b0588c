package main

import (
	"go/types"
)

// Views of readers and writers. A reader is the sequence of bytes it will still
// deliver (rem) and whether an exact read has run past it (short). A writer is
// the bytes submitted to it (out) and whether any write failed (failed).

type rdV struct {
	base  int // object
	wraps []*PtrV
}

func isErrReader(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 3 {
		return false
	}
	n := typeName(t)
	return n == "internal/io/binary.ErrReader"
}

func isErrWriter(t types.Type) bool {
	return typeName(t) == "format/io.errWriter"
}

func (x *Exec) rdMaybe(st *State, v Value) *rdV {
	r := &rdV{}
	for {
		switch y := v.(type) {
		case *IfaceV:
			v = y.V
			continue
		case *StreamV:
			r.base = y.Obj
			if st.Heap[y.Obj].Kind != "reader" {
				return nil
			}
			return r
		case *PtrV:
			if y.Obj <= 0 {
				return nil
			}
			t := st.ptrElemType(y)
			if isErrReader(t) {
				r.wraps = append(r.wraps, y)
				v = getField(st, st.loadPath(y), t, 0)
				continue
			}
			if isBytesLike(t) && len(y.Path) == 0 {
				r.base = y.Obj
				return r
			}
		}
		return nil
	}
}

func (x *Exec) rd(st *State, v Value) *rdV {
	r := x.rdMaybe(st, v)
	if r == nil {
		unsupported("%T is not a known reader", v)
	}
	if len(r.wraps) > 0 {
		x.usesContract("internal/io/binary.ErrReader.Read")
		x.usesContract("internal/io/binary.ErrReader.ReadByte")
	}
	return r
}

func (r *rdV) rem(st *State) *Term {
	o := st.Heap[r.base]
	if o.Kind == "reader" {
		return o.F["rem"].(*Term)
	}
	return o.V.(*Term)
}

func (r *rdV) isExact(st *State) bool { return st.Heap[r.base].F["exact"] == Value(True) }

func (r *rdV) short(st *State) *Term {
	o := st.Heap[r.base]
	if t, ok := o.F["short"].(*Term); ok {
		return t
	}
	return False
}

func (r *rdV) set(st *State, rem, short *Term) {
	o := st.mut(r.base)
	if o.Frozen {
		unsupported("read from a frozen stream")
	}
	if o.Kind == "reader" {
		o.F["rem"] = rem
	} else {
		o.V = rem
	}
	if o.F == nil {
		o.F = map[string]Value{}
	}
	o.F["short"] = short
}

// wrapper state of ErrReaders around the base
func (r *rdV) errs(st *State) []*Term {
	var out []*Term
	for _, w := range r.wraps {
		t := st.ptrElemType(w)
		out = append(out, st.peek(getField(st, st.loadPath(w), t, 1), t.Underlying().(*types.Struct).Field(1).Type()))
	}
	return out
}

// consumed records that n bytes were delivered through the wrappers; fail tells
// whether an exact read ran short.
func (r *rdV) consumed(st *State, n *Term, fail *Term) {
	for _, w := range r.wraps {
		t := st.ptrElemType(w)
		v := st.loadPath(w)
		cnt := getField(st, v, t, 2).(*Term)
		p := func(i int) *PtrV { return &PtrV{w.Obj, append(append([]PathEl{}, w.Path...), PathEl{Field: i})} }
		st.storePath(p(2), Add(cnt, n))
		if fail != False {
			old := st.peek(getField(st, v, t, 1), t.Underlying().(*types.Struct).Field(1).Type())
			st.storePath(p(1), Ite(fail, Fresh("nzerr!rd", "If"), old))
		}
	}
}

// exact reads n bytes: the two outcomes as states. The caller continues both.
func (x *Exec) exact(st *State, r *rdV, n *Term, ok func(*State, *Term), fail func(*State, *Term)) []*State {
	for _, e := range r.errs(st) {
		if e != nilI {
			g := Eq(e, nilI)
			x.oblige(st, "reader-not-failed", g)
			st.assume(g)
		}
	}
	rem := r.rem(st)
	c := Le(n, sqLen(rem))
	if r.isExact(st) {
		// an ErrReader that failed once keeps failing
		c = And(c, Not(r.short(st)))
	}
	a, b := st, st.clone()
	a.assume(c)
	b.assume(Not(c))
	var out []*State
	if !a.Dead {
		r.set(a, sqDrop(rem, n), r.short(a))
		r.consumed(a, n, False)
		ok(a, sqTake(rem, n))
		out = append(out, a)
	}
	if !b.Dead {
		r.set(b, sqEmpty(Bytes), True)
		r.consumed(b, sqLen(rem), True)
		fail(b, rem)
		out = append(out, b)
	}
	return out
}

type wrV struct {
	base  int
	path  []PathEl // a buffer inside an object
	wraps []*PtrV
}

func (x *Exec) wrMaybe(st *State, v Value) *wrV {
	r := &wrV{}
	for {
		switch y := v.(type) {
		case *IfaceV:
			v = y.V
			continue
		case *StreamV:
			r.base = y.Obj
			if k := st.Heap[y.Obj].Kind; k != "writer" && k != "flatew" {
				return nil
			}
			return r
		case *PtrV:
			if y.Obj <= 0 {
				return nil
			}
			if k := st.Heap[y.Obj].Kind; k == "flatew" {
				r.base = y.Obj
				return r
			}
			t := st.ptrElemType(y)
			if isErrWriter(t) {
				r.wraps = append(r.wraps, y)
				v = getField(st, st.loadPath(y), t, 0)
				continue
			}
			if isBytesLike(t) {
				r.base, r.path = y.Obj, y.Path
				return r
			}
		}
		return nil
	}
}

func (x *Exec) wr(st *State, v Value) *wrV {
	r := x.wrMaybe(st, v)
	if r == nil {
		unsupported("%T is not a known writer", v)
	}
	if len(r.wraps) > 0 {
		x.usesContract("format/io.errWriter.Write")
	}
	return r
}

func (w *wrV) isBuf(st *State) bool {
	k := st.Heap[w.base].Kind
	return k != "writer" && k != "flatew"
}

// never: the destination is known not to fail (a buffer).
func (w *wrV) never(st *State) bool {
	return w.isBuf(st) || st.Heap[w.base].F["nofail"] == Value(True)
}

func (w *wrV) out(st *State) *Term {
	o := st.Heap[w.base]
	if w.isBuf(st) {
		if len(w.path) > 0 {
			return st.loadPath(&PtrV{w.base, w.path}).(*Term)
		}
		return o.V.(*Term)
	}
	return o.F["out"].(*Term)
}

func (w *wrV) failed(st *State) *Term {
	o := st.Heap[w.base]
	if w.isBuf(st) {
		return False
	}
	return o.F["failed"].(*Term)
}

func (w *wrV) set(st *State, out, failed *Term) {
	o := st.mut(w.base)
	if o.Frozen {
		unsupported("write to a frozen buffer")
	}
	if w.isBuf(st) {
		if len(w.path) > 0 {
			st.storePath(&PtrV{w.base, w.path}, out)
			return
		}
		o.V = out
		return
	}
	o.F["out"] = out
	o.F["failed"] = failed
}

func (w *wrV) errs(st *State) []*Term {
	var out []*Term
	for _, p := range w.wraps {
		t := st.ptrElemType(p)
		out = append(out, st.peek(getField(st, st.loadPath(p), t, 1), t.Underlying().(*types.Struct).Field(1).Type()))
	}
	return out
}

// submit appends data; returns (n, err) of the outermost writer.
func (x *Exec) submit(st *State, w *wrV, data *Term) (*Term, *Term) {
	l := sqLen(data)
	if w.never(st) {
		w.set(st, sqCat(w.out(st), data), False)
		n, err := l, nilI
		for i := len(w.wraps) - 1; i >= 0; i-- {
			n, err = x.wrapWrite(st, w.wraps[i], n, err)
		}
		return n, err
	}
	f := Fresh("wfail", "Bool")
	e := Fresh("nzerr!write", "If")
	m := Fresh("wn", "Int")
	symRange[m.Op] = rng{bigI(0), maxLen}
	st.assume(Le(m, l))
	// a wrapper that failed passes nothing on: then a write has failed before
	w.wrapsMeanFailed(x, st)
	base0, partial := st.Heap[w.base].F["base0"], Fresh("partial", Bytes)
	w.set(st, sqCat(w.out(st), data), Or(w.failed(st), f))
	if base0 != nil {
		// compressed data reaches the destination at any time, and only the
		// destination fails
		b := x.wr(st, st.Heap[w.base].F["base"])
		b.set(st, sqCat(base0.(*Term), partial), Or(b.failed(st), f))
	}
	n, err := Ite(f, m, l), Ite(f, e, nilI)
	for i := len(w.wraps) - 1; i >= 0; i-- {
		n, err = x.wrapWrite(st, w.wraps[i], n, err)
	}
	return n, err
}

// wrapsMeanFailed: an error kept by a wrapper means that a write has failed.
func (w *wrV) wrapsMeanFailed(x *Exec, st *State) {
	for _, we := range w.errs(st) {
		g := Or(Eq(we, nilI), w.failed(st))
		if w.isBuf(st) {
			g = Eq(we, nilI)
		}
		x.oblige(st, "writer-error-means-failed", g)
		st.assume(g)
	}
}

func (x *Exec) wrapWrite(st *State, p *PtrV, n, err *Term) (*Term, *Term) {
	t := st.ptrElemType(p)
	v := st.loadPath(p)
	old := st.peek(getField(st, v, t, 1), t.Underlying().(*types.Struct).Field(1).Type())
	cnt := getField(st, v, t, 2).(*Term)
	live := Eq(old, nilI)
	q := func(i int) *PtrV { return &PtrV{p.Obj, append(append([]PathEl{}, p.Path...), PathEl{Field: i})} }
	n2 := Ite(live, n, IntC(0))
	e2 := Ite(live, err, old)
	st.storePath(q(1), e2)
	st.storePath(q(2), Add(cnt, n2))
	return n2, e2
}
