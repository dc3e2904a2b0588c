package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libFn func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, args []Value) []*State

var libModels map[string]libFn

var byteSlice = types.NewSlice(types.Typ[types.Byte])

func freshErr(p string) *Term { return Fresh("nzerr!"+p, "If") }

func init() {
	libModels = map[string]libFn{
		"errors.New": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, freshErr("new"))
		},
		"fmt.Errorf": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, freshErr("errorf"))
		},
		"fmt.Sprintf": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, Fresh("sprintf", Bytes))
		},
		"math.Inf": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			t := a[0].(*Term)
			if !t.isInt() {
				unsupported("math.Inf of a variable")
			}
			sg := 1
			if t.Int.Sign() < 0 {
				sg = -1
			}
			return x.finishCall(s, in, f64Const(mathInf(sg)))
		},
		"math.Float64bits": conv("f64.bits", "Int"), "math.Float32bits": conv("f32.bits", "Int"),
		"math.Float64frombits": conv("f64.frombits", "F64"), "math.Float32frombits": conv("f32.frombits", "F32"),
		"math.Floor": conv("f64.floor", "F64"), "math.Abs": conv("f64.abs", "F64"), "math.Sqrt": conv("f64.sqrt", "F64"),
		"math.Round": conv("f64.round", "F64"), "math.Ceil": conv("f64.ceil", "F64"),
		"math.Min": conv("f64.min", "F64"), "math.Max": conv("f64.max", "F64"), "math.Mod": conv("f64.fmod", "F64"),
		"time.UnixMicro":      conv("time.ofmicro", "Time"),
		"time.Time.UnixMicro": conv("time.micro", "Int"),
		"encoding/binary.PutUvarint": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			enc := App("encU", Bytes, a[1].(*Term))
			sv, ok := a[0].(*SliceV)
			if !ok {
				unsupported("PutUvarint into %T", a[0])
			}
			x.oblige(s, "varint-buffer", Le(sqLen(enc), sv.Len))
			x.fillSlice(s, sv, enc, sqLen(enc))
			return x.finishCall(s, in, sqLen(enc))
		},
		"bytes.NewBuffer": newBuf, "bytes.NewReader": newBuf, "bytes.NewBufferString": newBuf,
		"bytes.Buffer.Write": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			d := s.peek(a[1], byteSlice)
			bufAppend(s, a[0], d)
			return x.finishCall(s, in, sqLen(d), nilI)
		},
		"bytes.Buffer.WriteString": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			d := a[1].(*Term)
			bufAppend(s, a[0], d)
			return x.finishCall(s, in, sqLen(d), nilI)
		},
		"bytes.Buffer.WriteByte": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			bufAppend(s, a[0], sqUnit(Bytes, a[1].(*Term)))
			return x.finishCall(s, in, nilI)
		},
		"bytes.Buffer.Len": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, sqLen(s.loadPath(a[0].(*PtrV)).(*Term)))
		},
		"bytes.Reader.Len": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, sqLen(s.loadPath(a[0].(*PtrV)).(*Term)))
		},
		"bytes.Buffer.Bytes": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			// the result shares the buffer: the buffer must not change afterwards
			p := a[0].(*PtrV)
			t := s.loadPath(p).(*Term)
			if len(p.Path) == 0 {
				s.freezeBytes(p.Obj)
			}
			return x.finishCall(s, in, t)
		},
		"bytes.Buffer.String": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, s.loadPath(a[0].(*PtrV)).(*Term))
		},
		"bytes.Buffer.Read": readerMethod, "bytes.Reader.Read": readerMethod,
		"bytes.Buffer.ReadByte": readByteM, "bytes.Reader.ReadByte": readByteM,
		"internal/io/binary.ErrReader.Read": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			x.usesContract("internal/io/binary.ErrReader.Read")
			r := x.rd(s, a[0])
			if es := r.errs(s); len(es) > 0 && es[0] != nilI && s.top().Fn.Name() == "ReadByte" {
				// the error of an earlier read stays
				b := s.clone()
				s.assume(Eq(es[0], nilI))
				b.assume(Not(Eq(es[0], nilI)))
				var out []*State
				if !b.Dead {
					out = append(out, x.finishCall(b, in, IntC(0), es[0])...)
				}
				if !s.Dead {
					out = append(out, x.readFull(s, in, r, a[1])...)
				}
				return out
			}
			return x.readFull(s, in, r, a[1])
		},
		"format/io.errWriter.Write": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			x.usesContract("format/io.errWriter.Write")
			n, e := x.submit(s, x.wr(s, a[0]), s.peek(a[1], byteSlice))
			return x.finishCall(s, in, n, e)
		},
		"io.ReadFull": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.readFull(s, in, x.rd(s, a[0]), a[1])
		},
		"io.CopyN": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			n := a[2].(*Term)
			x.oblige(s, "copy-length", Le(IntC(0), n))
			s.assume(Le(IntC(0), n))
			w := x.wr(s, a[0])
			r := x.rd(s, a[1])
			return x.exact(s, r, n, func(q *State, d *Term) {
				if !w.isBuf(q) {
					unsupported("io.CopyN to a general writer")
				}
				x.submit(q, w, d)
				x.stash(q, in, n, nilI)
			}, func(q *State, d *Term) {
				x.submit(q, w, d)
				x.stash(q, in, sqLen(d), freshErr("copyn"))
			})
		},
		"io.Copy": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			r := x.rd(s, a[1])
			d := r.rem(s)
			// the source may fail by itself
			se := Fresh("srcfail", "Bool")
			if e, ok := s.Heap[r.base].F["ends"].(*Term); ok && len(r.wraps) == 0 {
				// a compressed stream fails exactly when its end marker is missing
				se = Not(e)
			}
			r.set(s, sqEmpty(Bytes), r.short(s))
			if t, ok := a[0].(*Term); ok && (t.Op == "global!io.Discard" || t.Op == "global!io/ioutil.Discard") {
				return x.finishCall(s, in, sqLen(d), Ite(se, freshErr("copy"), nilI))
			}
			// without data nothing is written
			var out []*State
			q := s.clone()
			none := Eq(d, sqEmpty(Bytes))
			q.assume(none)
			s.assume(Not(none))
			if x.rd(q, a[1]).isBuf(q) {
				se = False
			}
			if !q.Dead {
				out = append(out, x.finishCall(q, in, IntC(0), Ite(se, freshErr("copy"), nilI))...)
			}
			if !s.Dead {
				n, e := x.submit(s, x.wr(s, a[0]), d)
				out = append(out, x.finishCall(s, in, n, Ite(And(Eq(e, nilI), se), freshErr("copy"), e))...)
			}
			return out
		},
		"io.ReadAll": readAll, "io/ioutil.ReadAll": readAll,
		"compress/flate.NewReader": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			r := x.rd(s, a[0])
			o := s.newObj("reader", "inflate", nil, nil)
			src := r.rem(s)
			o.F = map[string]Value{"rem": App("inflate", Bytes, src), "short": False, "ends": App("inflateEnds", "Bool", src)}
			r.set(s, s.someSuffix(src, "afterflate"), r.short(s))
			return x.finishCall(s, in, &StreamV{o.ID})
		},
		"bufio.NewReader": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			// delivers what the source delivers; how much of the source is taken is left open
			r := x.rd(s, a[0])
			o := s.newObj("reader", "bufio", nil, nil)
			o.F = map[string]Value{"rem": r.rem(s), "short": False}
			r.set(s, s.someSuffix(r.rem(s), "afterbufio"), r.short(s))
			return x.finishCall(s, in, &StreamV{o.ID})
		},
		"compress/flate.NewWriter": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			lv := a[1].(*Term)
			x.oblige(s, "flate-level", And(Le(IntC(-2), lv), Le(lv, IntC(9))))
			o := s.newObj("flatew", "deflate", nil, nil)
			o.F = map[string]Value{"out": sqEmpty(Bytes), "failed": False, "base": a[0], "base0": x.wr(s, a[0]).out(s)}
			return x.finishCall(s, in, &PtrV{Obj: o.ID}, nilI)
		},
		"encoding/binary.Write": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			w := x.wr(s, a[0])
			iv, ok := a[2].(*IfaceV)
			if !ok {
				unsupported("binary.Write of a value of unknown type")
			}
			d := leBytes(s.toTerm(iv.V, iv.T), iv.T)
			_, e := x.submit(s, w, d)
			return x.finishCall(s, in, e)
		},
		"encoding/binary.Read": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			r := x.rd(s, a[0])
			iv, ok := a[2].(*IfaceV)
			if !ok {
				unsupported("binary.Read into a value of unknown type")
			}
			pt, ok := iv.T.Underlying().(*types.Pointer)
			if !ok {
				unsupported("binary.Read into %s", typeName(iv.T))
			}
			p := iv.V.(*PtrV)
			n := leSize(pt.Elem())
			return x.exact(s, r, IntC(n), func(q *State, d *Term) {
				q.storePath(p, unle(d, pt.Elem()))
				x.stash(q, in, nilI)
			}, func(q *State, d *Term) {
				x.stash(q, in, x.shortErr(q, r, sqLen(d)))
			})
		},
		"strings.HasPrefix": func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			return x.finishCall(s, in, App("strprefix", "Bool", a[0].(*Term), a[1].(*Term)))
		},
	}
	for _, n := range []string{"8", "16", "32", "64"} {
		n := n
		_ = n
	}
	for _, b := range []int64{2, 4, 8} {
		b := b
		bits := map[int64]string{2: "16", 4: "32", 8: "64"}[b]
		le := map[int64]string{2: "le2", 4: "le4", 8: "le8"}[b]
		libModels["encoding/binary.littleEndian.PutUint"+bits] = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			sv, ok := a[len(a)-2].(*SliceV)
			if !ok {
				unsupported("PutUint into %T", a[len(a)-2])
			}
			g := Le(IntC(b), sv.Len)
			x.oblige(s, "index", g)
			s.assume(g)
			x.fillSlice(s, sv, leOf(le, a[len(a)-1].(*Term)), IntC(b))
			return x.finishCall(s, in)
		}
		libModels["encoding/binary.littleEndian.Uint"+bits] = func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
			d := s.peek(a[len(a)-1], byteSlice)
			g := Le(IntC(b), sqLen(d))
			x.oblige(s, "index", g)
			s.assume(g)
			return x.finishCall(s, in, unleInt(le, sqTake(d, IntC(b))))
		}
	}
}

func (r *rdV) isBuf(s *State) bool { return s.Heap[r.base].Kind != "reader" }

func conv(op, srt string) libFn {
	return func(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
		ts := make([]*Term, len(a))
		for i := range a {
			ts[i] = a[i].(*Term)
		}
		return x.finishCall(s, in, App(op, srt, ts...))
	}
}

// bufAppend appends to a bytes.Buffer, which may be part of a larger object.
func bufAppend(s *State, v Value, d *Term) {
	p, ok := v.(*PtrV)
	if !ok {
		unsupported("buffer %T", v)
	}
	if s.Heap[p.Obj].Frozen {
		unsupported("write to a buffer whose bytes are already in use")
	}
	s.storePath(p, sqCat(s.loadPath(p).(*Term), d))
}

func bufObj(s *State, v Value) *Object {
	p, ok := v.(*PtrV)
	if !ok || len(p.Path) > 0 {
		unsupported("buffer %T", v)
	}
	o := s.mut(p.Obj)
	if o.Frozen {
		unsupported("write to a buffer whose bytes are already in use")
	}
	return o
}

func newBuf(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
	c := s.toTerm(a[0], byteSlice) // freezes the argument
	et := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	o := s.newObj("", "buf", et, c)
	o.F = map[string]Value{"short": False}
	return x.finishCall(s, in, &PtrV{Obj: o.ID})
}

func readerMethod(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
	return x.rawRead(s, in, x.rd(s, a[0]), a[1])
}

func readByteM(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
	r := x.rd(s, a[0])
	return x.exact(s, r, IntC(1), func(q *State, d *Term) {
		x.stash(q, in, sqAt(d, IntC(0)), nilI)
	}, func(q *State, d *Term) {
		x.stash(q, in, IntC(0), freshErr("eof"))
	})
}

func readAll(x *Exec, s *State, in ssa.CallInstruction, fn *ssa.Function, a []Value) []*State {
	r := x.rd(s, a[0])
	d := r.rem(s)
	r.set(s, sqEmpty(Bytes), r.short(s))
	o := s.newObj("array", "all", byteSlice, d)
	var e *Term = nilI
	if ends, ok := s.Heap[r.base].F["ends"].(*Term); ok && len(r.wraps) == 0 {
		e = Ite(ends, nilI, freshErr("rerr"))
	} else if !r.isBuf(s) {
		e = Fresh("rerr", "If")
	}
	return x.finishCall(s, in, &SliceV{o.ID, IntC(0), sqLen(d)}, e)
}

// little-endian encodings: opaque sequences of known length
func leOf(op string, v *Term) *Term {
	if v.Op == "un"+op && len(v.Args) == 1 {
		// decoding then encoding gives back the same bytes (length known)
		return v.Args[0]
	}
	return App(op, Bytes, v)
}

func unleInt(op string, d *Term) *Term {
	if d.Op == op {
		return d.Args[0]
	}
	t := App("un"+op, "Int", d)
	bits := map[string]uint{"le2": 16, "le4": 32, "le8": 64}[op]
	symRange["un"+op] = rng{bigI(0), new(big.Int).Sub(pow2(bits), bigI(1))}
	return t
}

func leSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1
		case types.Uint16, types.Int16:
			return 2
		case types.Uint32, types.Int32, types.Float32:
			return 4
		case types.Uint64, types.Int64, types.Float64:
			return 8
		}
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			n += leSize(u.Field(i).Type())
		}
		return n
	}
	unsupported("encoding/binary of %s", typeName(t))
	return 0
}

func leBytes(v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		op := map[int64]string{2: "le2", 4: "le4", 8: "le8"}[leSize(t)]
		switch {
		case u.Kind() == types.Uint8:
			return sqUnit(Bytes, v)
		case u.Kind() == types.Float64:
			return leOf(op, App("f64.bits", "Int", v))
		case u.Kind() == types.Float32:
			return leOf(op, App("f32.bits", "Int", v))
		case u.Info()&types.IsUnsigned != 0:
			return leOf(op, v)
		case u.Info()&types.IsInteger != 0 && leSize(t) > 1:
			return leOf(op, wrapInt(v, types.Typ[map[int64]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[leSize(t)]], false))
		}
	case *types.Struct:
		var parts []*Term
		ex := expand(t, v).(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			parts = append(parts, leBytes(ex.F[i].(*Term), u.Field(i).Type()))
		}
		return sqCat(parts...)
	}
	unsupported("encoding/binary of %s", typeName(t))
	return nil
}

func unle(d *Term, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := leSize(t)
		op := map[int64]string{2: "le2", 4: "le4", 8: "le8"}[n]
		switch {
		case u.Kind() == types.Uint8:
			return sqAt(d, IntC(0))
		case u.Kind() == types.Float64:
			return App("f64.frombits", "F64", unleInt(op, d))
		case u.Kind() == types.Float32:
			return App("f32.frombits", "F32", unleInt(op, d))
		case u.Info()&types.IsUnsigned != 0:
			return unleInt(op, d)
		case u.Info()&types.IsInteger != 0 && n > 1:
			return wrapInt(unleInt(op, d), t, false)
		}
	case *types.Struct:
		sv := &StructV{T: t, F: make([]Value, u.NumFields())}
		var off int64
		for i := 0; i < u.NumFields(); i++ {
			n := leSize(u.Field(i).Type())
			sv.F[i] = unle(sqTake(sqDrop(d, IntC(off)), IntC(n)), u.Field(i).Type())
			off += n
		}
		return sv
	}
	unsupported("encoding/binary of %s", typeName(t))
	return nil
}

var _ = strings.HasPrefix

// someSuffix: what is left of a source after an unknown part of it was taken.
func (s *State) someSuffix(src *Term, name string) *Term {
	n := Fresh(name, "Int")
	symRange[n.Op] = rng{bigI(0), maxLen}
	s.assume(Le(n, sqLen(src)))
	return sqDrop(src, n)
}
