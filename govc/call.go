package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func mathInf(s int) float64 { return math.Inf(s) }

// finishCall delivers the result of a call and moves past the instruction.
func (x *Exec) finishCall(s *State, in ssa.Instruction, res ...Value) []*State {
	fr := s.top()
	if v, ok := in.(ssa.Value); ok && len(res) > 0 {
		fr.Env[v] = tupleOf(res)
	}
	fr.Idx++
	return []*State{s}
}

func (x *Exec) call(s *State, in ssa.CallInstruction, cc *ssa.CallCommon) []*State {
	args := make([]Value, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		recv := x.val(s, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.val(s, a))
		}
		return x.invoke(s, in, cc, recv, args)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(s, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(s, in, b, cc, args)
	}
	if fn := cc.StaticCallee(); fn != nil {
		if c, ok := x.val(s, cc.Value).(*ClosV); ok && len(c.Bind) > 0 {
			return x.callFn(s, in, fn, args, c.Bind)
		}
		return x.callFn(s, in, fn, args, nil)
	}
	fv := x.val(s, cc.Value)
	switch f := fv.(type) {
	case *ClosV:
		return x.callFn(s, in, f.Fn, args, f.Bind)
	case *Term:
		return x.callOpaque(s, in, cc, f, args)
	case NilV:
		x.oblige(s, "nil-function", False)
		return nil
	}
	unsupported("call of %T", fv)
	return nil
}

// callOpaque applies an unknown function value. Function values that take one
// pointer and return nothing are options: they transform the pointed value.
func (x *Exec) callOpaque(s *State, in ssa.CallInstruction, cc *ssa.CallCommon, f *Term, args []Value) []*State {
	sig := cc.Signature()
	if sig.Params().Len() == 1 && sig.Results().Len() == 0 {
		if p, ok := args[0].(*PtrV); ok && p.Obj > 0 {
			t := s.ptrElemType(p)
			v := s.peek(s.loadPath(p), t)
			x.P.TrustedUsed["options only change the options value they are given"] = true
			s.storePath(p, expand(t, App("apply_"+v.Sort, v.Sort, f, v)))
			return x.finishCall(s, in)
		}
	}
	unsupported("call of an unknown function value of type %s", typeName(cc.Value.Type()))
	return nil
}

func (x *Exec) applyPure(s *State, f tv, args []*Term) *Term {
	if c, ok := f.v.(*ClosV); ok {
		if r := x.runOption(c, args[0]); r != nil {
			return r
		}
	}
	var ft *Term
	switch y := f.v.(type) {
	case *Term:
		ft = y
	default:
		ft = s.peek(f.v, f.t)
	}
	return App("apply_"+args[0].Sort, args[0].Sort, ft, args[0])
}

// runOption executes a literal option on a value.
func (x *Exec) runOption(c *ClosV, arg *Term) *Term {
	if len(c.Fn.Params) != 1 {
		return nil
	}
	pt, ok := c.Fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok || sortOf(pt.Elem()) != arg.Sort {
		return nil
	}
	y := &Exec{P: x.P, Fn: c.Fn, dry: 0, loopID: map[string]int{}}
	st := &State{Heap: map[int]*Object{}}
	o := st.newObj("", "opt", pt.Elem(), expand(pt.Elem(), arg))
	fr := &Frame{Fn: c.Fn, Env: map[ssa.Value]Value{}, Idx: -1, Block: c.Fn.Blocks[0], Loops: map[*ssa.BasicBlock]*LoopCtx{}, Unroll: map[*ssa.BasicBlock]int{}}
	fr.Env[c.Fn.Params[0]] = &PtrV{Obj: o.ID}
	for i, fv := range c.Fn.FreeVars {
		fr.Env[fv] = c.Bind[i]
		// captured variables are pointers into the closure's frame; only terms are handled
	}
	st.Frames = []*Frame{fr}
	y.explore(st, nil)
	if len(y.finals) != 1 || len(y.Obls) > 0 {
		return nil
	}
	f := y.finals[0]
	return f.peek(f.Heap[o.ID].V, pt.Elem())
}

func (x *Exec) willInline(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	n := x.P.fnName(fn)
	if c := x.P.Spec.Contracts[n]; c != nil {
		return false
	}
	if libModels[n] != nil {
		return false
	}
	if fn.Synthetic != "" && fn.Pkg == nil && x.P.inModuleRecv(fn) {
		return true
	}
	return x.P.inModule(fn)
}

func (p *Prog) inModuleRecv(fn *ssa.Function) bool {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
	}
	return false
}

func (x *Exec) callFn(s *State, in ssa.CallInstruction, fn *ssa.Function, args []Value, bind []Value) []*State {
	n := x.P.fnName(fn)
	if m := libModels[n]; m != nil {
		x.P.TrustedUsed["library: "+n] = true
		return m(x, s, in, fn, args)
	}
	if c := x.P.Spec.Contracts[n]; c != nil {
		if bind == nil {
			return x.applyContract(s, in, c, fn.Signature, fnParamTypes(fn), args, x.P.fnName(fn))
		}
	}
	if !x.willInline(fn) {
		unsupported("call to %s, which has neither contract nor model", n)
	}
	for _, f := range s.Frames {
		if f.Fn == fn {
			unsupported("recursive call to %s without a contract", n)
		}
	}
	if len(s.Frames) > 14 {
		unsupported("inlining too deep at %s", n)
	}
	if x.P.curInl != nil {
		x.P.curInl[n] = true
	}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Value{}, Block: fn.Blocks[0], Idx: -1, Site: s.top().Site + "/" + siteKey(in), Loops: map[*ssa.BasicBlock]*LoopCtx{}, Depth: s.top().Depth + 1, Unroll: map[*ssa.BasicBlock]int{}}
	if v, ok := in.(ssa.Value); ok {
		fr.Dest = v
	}
	for i, p := range fn.Params {
		fr.Env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.Env[f] = bind[i]
	}
	s.Frames = append(s.Frames, fr)
	return []*State{s}
}

func fnParamTypes(fn *ssa.Function) []types.Type {
	out := make([]types.Type, len(fn.Params))
	for i, p := range fn.Params {
		out[i] = p.Type()
	}
	return out
}

func (x *Exec) invoke(s *State, in ssa.CallInstruction, cc *ssa.CallCommon, recv Value, args []Value) []*State {
	m := cc.Method
	if iv, ok := recv.(*IfaceV); ok {
		if o := streamObj(s, iv.V); o != nil && (o.Kind == "flatew" || o.Kind == "reader") {
			return x.streamCall(s, in, m.Name(), recv, args)
		}
		fn := x.P.SSA.LookupMethod(iv.T, m.Pkg(), m.Name())
		if fn == nil {
			unsupported("method %s of %s", m.Name(), typeName(iv.T))
		}
		rv := iv.V
		return x.callFn(s, in, fn, append([]Value{rv}, args...), nil)
	}
	switch r := recv.(type) {
	case *StreamV:
		return x.streamCall(s, in, m.Name(), recv, args)
	case NilV:
		x.oblige(s, "nil-interface", False)
		return nil
	case *Term:
		if r == nilI {
			x.oblige(s, "nil-interface", False)
			return nil
		}
		nn := Not(Eq(r, nilI))
		x.oblige(s, "nil-interface", nn)
		s.assume(nn)
		it := types.Unalias(cc.Value.Type())
		if isErrorType(it) {
			return x.finishCall(s, in, Fresh("errstr", Bytes))
		}
		dt := declIface(it, m)
		if x.P.Spec.Obs[typeName(dt)+"."+m.Name()] {
			ts := make([]*Term, len(args))
			ps := m.Type().(*types.Signature).Params()
			for i, a := range args {
				ts[i] = s.peek(a, ps.At(i).Type())
			}
			rt := m.Type().(*types.Signature).Results().At(0).Type()
			res := x.P.Spec.obsApp(dt, m.Name(), r, ts, rt)
			if c := x.P.Spec.Imeth[typeName(dt)+"."+m.Name()]; c != nil && len(c.Results) == 1 {
				// a pure method with a contract
				x.usesContract(typeName(dt) + "." + m.Name())
				vars := x.bindArgs(c, append([]types.Type{dt}, sigParams(m.Type().(*types.Signature))...), append([]Value{recv}, args...))
				vars[c.Results[0]] = tv{res, rt}
				env := &Env{sp: x.P.Spec, vars: vars, x: x, st: s, old: s}
				for i, q := range c.Req {
					g := env.term(q.E)
					x.oblige(s, fmt.Sprintf("call %s requires%s", m.Name(), clauseName(q, i)), g)
					s.assume(g)
				}
				for _, q := range c.Ens {
					s.assume(env.term(q.E))
				}
			}
			return x.finishCall(s, in, res)
		}
		if c := x.P.Spec.Imeth[typeName(dt)+"."+m.Name()]; c != nil {
			sig := m.Type().(*types.Signature)
			pt := []types.Type{dt}
			for i := 0; i < sig.Params().Len(); i++ {
				pt = append(pt, sig.Params().At(i).Type())
			}
			return x.applyContract(s, in, c, sig, pt, append([]Value{recv}, args...), typeName(dt)+"."+m.Name())
		}
		unsupported("interface method %s.%s has no contract", typeName(dt), m.Name())
	}
	unsupported("method call on %T", recv)
	return nil
}

// declIface: the interface type under which contracts of a method are filed
// (embedded interfaces file them under the embedded name).
func declIface(it types.Type, m *types.Func) types.Type {
	return it
}

func streamObj(s *State, v Value) *Object {
	switch y := v.(type) {
	case *IfaceV:
		return streamObj(s, y.V)
	case *StreamV:
		return s.Heap[y.Obj]
	case *PtrV:
		if y.Obj > 0 && len(y.Path) == 0 {
			return s.Heap[y.Obj]
		}
	}
	return nil
}

// streamCall: Read, Write, ReadByte, Close on an abstract stream.
func (x *Exec) streamCall(s *State, in ssa.CallInstruction, m string, recv Value, args []Value) []*State {
	switch m {
	case "Write":
		w := x.wr(s, recv)
		data := s.peek(args[0], types.NewSlice(types.Typ[types.Byte]))
		n, e := x.submit(s, w, data)
		return x.finishCall(s, in, n, e)
	case "Read":
		r := x.rd(s, recv)
		return x.rawRead(s, in, r, args[0])
	case "ReadByte":
		// an error means that no byte was left
		return x.exact(s, x.rd(s, recv), IntC(1), func(q *State, d *Term) {
			x.stash(q, in, sqAt(d, IntC(0)), nilI)
		}, func(q *State, d *Term) {
			x.stash(q, in, IntC(0), freshErr("eof"))
		})
	case "Close":
		o := streamObj(s, recv)
		if o.Kind == "flatew" {
			base := x.wr(s, o.F["base"])
			x.P.TrustedUsed["library: compress/flate.Writer (flush on Close, errors are sticky)"] = true
			f := Fresh("wfail", "Bool")
			e := Fresh("nzerr!close", "If")
			failed := Or(o.F["failed"].(*Term), f)
			base.set(s, sqCat(o.F["base0"].(*Term), App("deflate", Bytes, o.F["out"].(*Term))), Or(base.failed(s), failed))
			oo := s.mut(o.ID)
			oo.F["failed"] = failed
			return x.finishCall(s, in, Ite(failed, e, nilI))
		}
	}
	unsupported("method %s of an abstract stream", m)
	return nil
}

// rawRead: a single Read on an abstract source delivers any prefix of what it was asked for.
func (x *Exec) rawRead(s *State, in ssa.CallInstruction, r *rdV, buf Value) []*State {
	sv, ok := buf.(*SliceV)
	if !ok {
		unsupported("Read into %T", buf)
	}
	if len(r.wraps) > 0 || r.isExact(s) {
		return x.readFull(s, in, r, buf)
	}
	rem := r.rem(s)
	if s.Heap[r.base].Kind != "reader" {
		// bytes.Buffer and bytes.Reader deliver as much as they have
		full := Le(sv.Len, sqLen(rem))
		a, b := s, s.clone()
		a.assume(full)
		b.assume(Not(full))
		var out []*State
		if !a.Dead {
			x.fillSlice(a, sv, sqTake(rem, sv.Len), sv.Len)
			r.set(a, sqDrop(rem, sv.Len), r.short(a))
			out = append(out, x.finishCall(a, in, sv.Len, nilI)...)
		}
		if !b.Dead {
			x.fillSlice(b, sv, rem, sqLen(rem))
			r.set(b, sqEmpty(Bytes), r.short(b))
			e := Fresh("nzerr!eof", "If")
			out = append(out, x.finishCall(b, in, sqLen(rem), Ite(Eq(sqLen(rem), IntC(0)), e, nilI))...)
		}
		return out
	}
	n := Fresh("rn", "Int")
	symRange[n.Op] = rng{bigI(0), maxLen}
	s.assume(Le(n, sv.Len))
	s.assume(Le(n, sqLen(rem)))
	e := Fresh("rerr", "If")
	// an error other than at the end is the end of what the source delivers
	s.assume(Or(Eq(e, nilI), Eq(n, sqLen(rem))))
	x.fillSlice(s, sv, sqTake(rem, n), n)
	r.set(s, sqDrop(rem, n), r.short(s))
	return x.finishCall(s, in, n, e)
}

// fillSlice stores data at the start of a mutable slice (len(data) <= len(slice)).
func (x *Exec) fillSlice(s *State, sv *SliceV, data, n *Term) {
	o := s.mut(sv.Obj)
	if o.Frozen {
		unsupported("write to %s after it became part of an immutable value", o.Name)
	}
	c := o.V.(*Term)
	end := Add(sv.Off, n)
	// the number of elements never changes, even where the content is a window
	// of something whose length the terms do not show
	if o.Size == nil {
		o.Size = sqLen(c)
	}
	tail := sqEmpty(c.Sort)
	if end != o.Size {
		tail = sqDrop(c, end)
	}
	o.V = sqCat(sqTake(c, sv.Off), data, tail)
	s.smash(o)
}

func (x *Exec) asSliceV(s *State, v Value) *SliceV {
	switch y := v.(type) {
	case *SliceV:
		return y
	case *Term:
		if sqLen(y) == IntC(0) {
			o := s.newObj("array", "empty", types.NewSlice(types.Typ[types.Byte]), y)
			return &SliceV{o.ID, IntC(0), IntC(0)}
		}
	}
	unsupported("write into an immutable slice")
	return nil
}

// readFull models io.ReadFull(r, buf).
func (x *Exec) readFull(s *State, in ssa.CallInstruction, r *rdV, buf Value) []*State {
	sv := x.asSliceV(s, buf)
	return x.after(x.exact(s, r, sv.Len, func(a *State, d *Term) {
		x.fillSlice(a, sv, d, sv.Len)
		x.stash(a, in, sv.Len, nilI)
	}, func(b *State, d *Term) {
		x.fillSlice(b, sv, d, sqLen(d))
		x.stash(b, in, sqLen(d), x.shortErr(b, r, sqLen(d)))
	}))
}

// shortErr is the error of a read that ran short: the wrappers remember it.
func (x *Exec) shortErr(s *State, r *rdV, got *Term) *Term {
	es := r.errs(s)
	if len(es) > 0 {
		return es[0]
	}
	return Fresh("nzerr!short", "If")
}

func (x *Exec) stash(s *State, in ssa.CallInstruction, res ...Value) {
	fr := s.top()
	if v, ok := in.(ssa.Value); ok && len(res) > 0 {
		fr.Env[v] = tupleOf(res)
	}
	fr.Idx++
}

func (x *Exec) after(ss []*State) []*State { return ss }

// ---- builtins ----

func (x *Exec) builtin(s *State, in ssa.CallInstruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) []*State {
	switch b.Name() {
	case "len":
		switch y := args[0].(type) {
		case *SliceV:
			return x.finishCall(s, in, y.Len)
		case *MapV:
			return x.finishCall(s, in, mpLen(s.Heap[y.Obj].V.(*Term)))
		case NilV:
			return x.finishCall(s, in, IntC(0))
		case *Term:
			if isMapSort(y.Sort) {
				return x.finishCall(s, in, mpLen(y))
			}
			return x.finishCall(s, in, sqLen(y))
		}
		unsupported("len of %T", args[0])
	case "cap":
		v := Fresh("cap", "Int")
		symRange[v.Op] = rng{bigI(0), maxLen}
		return x.finishCall(s, in, v)
	case "append":
		return x.appendB(s, in, cc, args)
	case "copy":
		sv, ok := args[0].(*SliceV)
		if !ok {
			unsupported("copy into an immutable slice")
		}
		src := s.peek(args[1], cc.Args[1].Type())
		n := Ite(Le(sv.Len, sqLen(src)), sv.Len, sqLen(src))
		d := sqTake(src, n)
		s.assume(Eq(sqLen(d), n))
		x.fillSlice(s, sv, d, n)
		return x.finishCall(s, in, n)
	case "print", "println":
		return x.finishCall(s, in)
	case "min", "max":
		unsupported("builtin %s", b.Name())
	case "ssa:wrapnilchk":
		return x.finishCall(s, in, args[0])
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendB(s *State, in ssa.CallInstruction, cc *ssa.CallCommon, args []Value) []*State {
	t := cc.Args[0].Type()
	var add *Term
	if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok {
		add = x.val(s, cc.Args[1]).(*Term)
	} else {
		add = s.peek(args[1], cc.Args[1].Type())
		// elements that are themselves mutable become shared
		if sv, ok := args[1].(*SliceV); ok {
			_ = sv
		}
	}
	old := s.peek(args[0], t)
	nv := sqCat(old, add)
	o := s.newObj("array", "append", t, nv)
	if sv, ok := args[0].(*SliceV); ok {
		bo := s.Heap[sv.Obj]
		bl := sqLen(bo.V.(*Term))
		full := bo.AllCap && Eq(Add(sv.Off, sv.Len), bl) == True && sqLen(add) != IntC(0)
		if !full && !x.P.assumeNoAlias {
			// the result may share the array with the original
			o.Links = []int{sv.Obj}
			b2 := s.mut(sv.Obj)
			b2.Links = addLink(b2.Links, o.ID)
			if Eq(Add(sv.Off, sv.Len), bl) != True {
				// bytes past the slice may be overwritten by the append
				if bo.Frozen {
					unsupported("append over the rest of a frozen array")
				}
				keep := sqTake(bo.V.(*Term), Add(sv.Off, sv.Len))
				tail := Fresh("spare", bo.V.(*Term).Sort)
				s.assume(Eq(sqLen(tail), Sub(bl, Add(sv.Off, sv.Len))))
				b2.V = sqCat(keep, tail)
				for _, l := range bo.Links {
					if lo, ok := s.Heap[l]; ok && l != o.ID {
						m := s.mut(l)
						ot := lo.V.(*Term)
						m.V = Fresh("aliased", ot.Sort)
						s.assume(Eq(sqLen(m.V.(*Term)), sqLen(ot)))
					}
				}
			}
		}
	}
	return x.finishCall(s, in, &SliceV{o.ID, IntC(0), sqLen(nv)})
}

// ---- contracts ----

func (x *Exec) bindArgs(c *Contract, ptypes []types.Type, args []Value) map[string]tv {
	m := map[string]tv{}
	if len(c.Params) > len(args) {
		die("contract %s names %d parameters, the function has %d", c.Name, len(c.Params), len(args))
	}
	for i, n := range c.Params {
		m[n] = tv{args[i], ptypes[i]}
	}
	return m
}

func hasPointers(t types.Type) bool {
	t = types.Unalias(t)
	if isErrorType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Struct:
		if isNamed(t, "time", "Time") {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (x *Exec) applyContract(s *State, in ssa.CallInstruction, c *Contract, sig *types.Signature, ptypes []types.Type, args []Value, name string) []*State {
	x.usesContract(name)
	if c.Trusted {
		x.P.TrustedUsed["trusted contract: "+name] = true
	}
	vars := x.bindArgs(c, ptypes, args)
	// pointer receivers and parameters must not be nil
	for i, a := range args {
		if _, ok := ptypes[i].Underlying().(*types.Pointer); ok {
			if t, ok := a.(*Term); ok && strings.HasPrefix(t.Sort, "Pt_") {
				args[i] = x.ptr(s, t, ptypes[i])
				if i < len(c.Params) {
					vars[c.Params[i]] = tv{args[i], ptypes[i]}
				}
			}
		}
	}
	for _, g := range c.Ghosts {
		v, ok := s.Ghost[g.name]
		if !ok {
			v, ok = x.envs[g.name]
		}
		if !ok {
			unsupported("no ghost argument %s for %s", g.name, name)
		}
		vars[g.name] = v
	}
	env := &Env{sp: x.P.Spec, vars: vars, x: x, st: s}
	for i, r := range c.Req {
		g := env.term(r.E)
		x.oblige(s, fmt.Sprintf("call %s requires%s", shortName(name), clauseName(r, i)), g)
		s.assume(g)
	}
	old := s.clone()
	var results []Value
	var rts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, sig.Results().At(i).Type())
	}
	// effects
	type rdEff struct {
		r     *rdV
		rem0  *Term
		sh    *Term
		short *Term
	}
	var rds []rdEff
	for _, e := range c.Readers {
		r := x.rd(s, env.eval(e).v)
		for _, er := range r.errs(s) {
			if er != nilI {
				g := Eq(er, nilI)
				x.oblige(s, "reader-not-failed", g)
				s.assume(g)
			}
		}
		if c.Exact[e.String()] && len(r.wraps) == 0 && !r.isExact(s) {
			x.oblige(s, "an ErrReader is required", False)
		}
		rem0, sh0 := r.rem(s), r.short(s)
		rem1, f := Fresh("rem", Bytes), Fresh("short", "Bool")
		s.assume(Le(sqLen(rem1), sqLen(rem0)))
		r.set(s, rem1, f)
		rds = append(rds, rdEff{r, rem0, f, sh0})
	}
	type wrEff struct {
		w        *wrV
		out0, f0 *Term
		out1, f1 *Term
	}
	var wrs []wrEff
	for _, e := range c.Writers {
		w := x.wr(s, env.eval(e).v)
		w.wrapsMeanFailed(x, s)
		out0, f0 := w.out(s), w.failed(s)
		d := Fresh("wrote", Bytes)
		out1 := sqCat(out0, d)
		f1 := Fresh("failed", "Bool")
		s.assume(Implies(f0, f1))
		if c.Buffers[e.String()] && !w.never(s) {
			x.oblige(s, "a buffer is required", False)
		}
		if w.never(s) {
			f1 = False
		}
		if b := s.Heap[w.base].F["base0"]; b != nil {
			base := x.wr(s, s.Heap[w.base].F["base"])
			base.set(s, sqCat(b.(*Term), Fresh("partial", Bytes)), Or(base.failed(s), And(f1, Not(f0))))
		}
		w.set(s, out1, f1)
		for i := len(w.wraps) - 1; i >= 0; i-- {
			p := w.wraps[i]
			t := s.ptrElemType(p)
			v := s.loadPath(p)
			eo := s.peek(getField(s, v, t, 1), t.Underlying().(*types.Struct).Field(1).Type())
			q := func(i int) *PtrV { return &PtrV{p.Obj, append(append([]PathEl{}, p.Path...), PathEl{Field: i})} }
			ee := Fresh("werr", "If")
			nn := Fresh("wn", "Int")
			noteRange(nn, types.Typ[types.Int])
			cnt := getField(s, v, t, 2).(*Term)
			s.assume(Implies(Not(Eq(eo, nilI)), Eq(ee, eo)))
			// the writer law: without failure exactly the data was counted
			s.assume(Implies(Not(f1), And(Eq(ee, nilI), Eq(nn, Add(cnt, sqLen(d))))))
			s.assume(Implies(And(Eq(ee, nilI), Not(f0)), Not(f1)))
			s.assume(Le(cnt, nn))
			s.storePath(q(1), ee)
			s.storePath(q(2), nn)
		}
		wrs = append(wrs, wrEff{w, out0, f0, out1, f1})
	}
	for _, e := range c.Mod {
		x.havocMod(s, env.eval(e))
	}
	for i, t := range rts {
		n := "res"
		if i < len(c.Results) {
			n = c.Results[i]
		}
		var v Value
		switch {
		case c.Fresh && isSlice(t):
			r := freshOf(n, t)
			o := s.newObj("array", n, t, r)
			v = &SliceV{o.ID, IntC(0), sqLen(r)}
		case c.Fresh && isMap(t):
			r := freshOf(n, t)
			o := s.newObj("map", n, t, r)
			v = &MapV{o.ID}
		case c.Fresh && isPtr(t):
			et := t.Underlying().(*types.Pointer).Elem()
			o := s.newObj("", n, et, expand(et, freshOf(n, et)))
			v = &PtrV{Obj: o.ID}
		case isReaderType(t):
			o := s.newObj("reader", n, t, nil)
			o.F = map[string]Value{"rem": Fresh("rem", Bytes), "short": False, "ends": Fresh("ends", "Bool")}
			v = &StreamV{o.ID}
		default:
			v = expand(t, freshOf(n, t))
		}
		results = append(results, v)
		if i < len(c.Results) {
			vars[c.Results[i]] = tv{v, t}
		}
	}
	env2 := &Env{sp: x.P.Spec, vars: vars, x: x, st: s, old: old}
	for _, r := range c.Ens {
		s.assume(env2.term(r.E))
	}
	errT := errorResult(rts, results)
	for _, r := range rds {
		if errT != nil {
			s.assume(Implies(Eq(errT, nilI), Not(r.sh)))
		}
		rem1 := r.r.rem(s)
		// wrappers count what was delivered
		r.r.set(s, rem1, Or(r.short, r.sh))
		r.r.consumed(s, Sub(sqLen(r.rem0), sqLen(rem1)), r.sh)
	}
	for _, w := range wrs {
		if errT != nil {
			s.assume(Implies(Eq(errT, nilI), Eq(w.f1, w.f0)))
		}
	}
	// results may share memory with arguments
	if !c.Fresh {
		shares := false
		for _, t := range rts {
			if hasPointers(t) {
				shares = true
			}
		}
		if shares {
			for _, a := range args {
				switch y := a.(type) {
				case *SliceV:
					s.freeze(y.Obj)
				case *MapV:
					s.freeze(y.Obj)
				}
			}
		}
	}
	if s.Dead {
		return nil
	}
	return x.finishCall(s, in, results...)
}

func errorResult(rts []types.Type, rs []Value) *Term {
	for i, t := range rts {
		if isErrorType(t) {
			if v, ok := rs[i].(*Term); ok {
				return v
			}
		}
	}
	return nil
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }
func isPtr(t types.Type) bool   { _, ok := t.Underlying().(*types.Pointer); return ok }
func isReaderType(t types.Type) bool {
	return isNamed(t, "io", "Reader") || isNamed(t, "io", "ByteReader") || isNamed(t, "io", "ReadCloser")
}

func clauseName(c Clause, i int) string {
	if c.Name != "" {
		return " " + c.Name
	}
	return fmt.Sprintf(" %d", i)
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (x *Exec) havocMod(s *State, v tv) {
	switch y := v.v.(type) {
	case *PtrV:
		t := s.ptrElemType(y)
		s.storePath(y, expand(t, freshOf("mod", t)))
	case *IfaceV:
		x.havocMod(s, tv{y.V, y.T})
	case *SliceV:
		o := s.mut(y.Obj)
		if o.Frozen {
			unsupported("callee writes to a frozen slice")
		}
		c := o.V.(*Term)
		n := Fresh("mod", c.Sort)
		s.assume(Eq(sqLen(n), y.Len))
		if y.Off == IntC(0) && y.Len == o.Size {
			o.V = n
		} else {
			o.V = sqCat(sqTake(c, y.Off), n, sqDrop(c, Add(y.Off, y.Len)))
		}
		s.smash(o)
	case *MapV:
		o := s.mut(y.Obj)
		if o.Frozen {
			unsupported("callee writes to a frozen map")
		}
		o.V = Fresh("mod", o.V.(*Term).Sort)
	default:
		unsupported("modifies clause on %T", v.v)
	}
}

func (x *Exec) usesContract(n string) {
	if x.deps == nil {
		x.deps = map[string]bool{}
	}
	x.deps[n] = true
}

func (x *Exec) useLemma(n string) {
	if x.lemmas == nil {
		x.lemmas = map[string]bool{}
	}
	x.lemmas[n] = true
}

// ---- loop invariants ----

func (x *Exec) loopEnv(st *State, lc *LoopCtx) *Env {
	vars := map[string]tv{}
	for k, v := range x.envs {
		vars[k] = v
	}
	fr := st.top()
	if len(st.Frames) > 1 {
		for _, p := range fr.Fn.Params {
			vars[p.Name()] = tv{fr.Env[p], p.Type()}
		}
	}
	for _, vb := range lc.Spec.Vars {
		vars[vb.name] = x.resolveVar(st, lc, vb)
	}
	for _, in := range lc.Header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if it, ok := fr.Env[nx.Iter].(*IterV); ok {
				vars["$keys"] = tv{it.Enc, types.NewSlice(nx.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key())}
			}
		}
	}
	if lc.Pre != nil {
		pv := map[string]tv{}
		for k, v := range x.envs {
			pv[k] = v
		}
		for _, vb := range lc.Spec.Vars {
			pv[vb.name] = x.resolveVar(lc.Pre, lc, vb)
		}
		vars["$prevars"] = tv{v: pv}
	}
	if lc.Head != nil && lc.Head != st {
		hv := map[string]tv{}
		for k, v := range vars {
			hv[k] = v
		}
		for _, vb := range lc.Spec.Vars {
			hv[vb.name] = x.resolveVar(lc.Head, lc, vb)
		}
		vars["$headvars"] = tv{v: hv}
	}
	return &Env{sp: x.P.Spec, vars: vars, x: x, st: st, old: x.entry, pre: lc.Pre, head: lc.Head, k: lc.K}
}

// resolveVar finds the value of a program variable by name, else by type.
func (x *Exec) resolveVar(st *State, lc *LoopCtx, vb varBind) tv {
	fr := st.top()
	h := lc.Header
	same := func(t types.Type) bool { return vb.t == nil || types.Identical(t, vb.t) }
	var byType []tv
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := fr.Env[ph]; ok && same(ph.Type()) {
			if ph.Comment == vb.name {
				return tv{v, ph.Type()}
			}
			if ph.Comment != "rangeindex" {
				byType = append(byType, tv{v, ph.Type()})
			}
		}
	}
	// values named by debug references in dominating blocks
	var best tv
	bestDepth := -1
	for _, b := range fr.Fn.Blocks {
		if !b.Dominates(h) {
			continue
		}
		d := domDepth(b)
		for _, in := range b.Instrs {
			switch q := in.(type) {
			case *ssa.Alloc:
				et := q.Type().Underlying().(*types.Pointer).Elem()
				if v, ok := fr.Env[q]; ok && same(et) {
					p := v.(*PtrV)
					if isBytesLike(et) || vb.t != nil && isBytesLike(vb.t) {
						if q.Comment == vb.name {
							return tv{p, q.Type()}
						}
						byType = append(byType, tv{p, q.Type()})
						continue
					}
					if q.Comment == vb.name {
						return tv{st.loadPath(p), et}
					}
					byType = append(byType, tv{st.loadPath(p), et})
				}
			case *ssa.Phi:
				if b != h && q.Comment == vb.name && same(q.Type()) && d >= bestDepth {
					if v, ok := fr.Env[q]; ok {
						best, bestDepth = tv{v, q.Type()}, d
					}
				}
			case *ssa.DebugRef:
				if b == h {
					continue
				}
				if id, ok := q.Object().(*types.Var); ok && id.Name() == vb.name && !q.IsAddr {
					if v, ok := fr.Env[q.X]; ok && same(q.X.Type()) && d >= bestDepth {
						best, bestDepth = tv{v, q.X.Type()}, d
					}
				}
			}
		}
	}
	if bestDepth >= 0 {
		return best
	}
	// unique candidate of the type
	if vb.t != nil {
		for _, b := range fr.Fn.Blocks {
			if !b.Dominates(h) || b == h {
				continue
			}
			for _, in := range b.Instrs {
				q, ok := in.(ssa.Value)
				if !ok || !same(q.Type()) {
					continue
				}
				switch in.(type) {
				case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
					if v, ok := fr.Env[q]; ok {
						byType = append(byType, tv{v, q.Type()})
					}
				case *ssa.Slice:
					if v, ok := fr.Env[q]; ok && len(byType) == 0 {
						byType = append(byType, tv{v, q.Type()})
					}
				}
			}
		}
	}
	if len(byType) == 1 {
		return byType[0]
	}
	unsupported("loop variable %s of the invariant not found in %s", vb.name, fr.Fn.Name())
	return tv{}
}

func domDepth(b *ssa.BasicBlock) int {
	n := 0
	for d := b.Idom(); d != nil; d = d.Idom() {
		n++
	}
	return n
}

func (x *Exec) checkInv(st *State, lc *LoopCtx, what string) {
	if x.dry > 0 && what == "init" {
		// the ghosts named here are needed inside the loop
		env := x.loopEnv(st, lc)
		for _, h := range lc.Spec.Entry {
			if h.Head() == "ghost" {
				x.hint(env, st, h)
			}
		}
	}
	if x.dry > 0 || (len(lc.Spec.Inv) == 0) {
		return
	}
	env := x.loopEnv(st, lc)
	st2 := st
	hs := lc.Spec.Hints
	if what == "init" {
		hs = lc.Spec.Entry
	}
	if len(hs) > 0 {
		st2 = st.clone()
		env.st = st2
		for _, h := range hs {
			x.hint(env, st2, h)
		}
		if what == "init" {
			st.Ghost = st2.Ghost
		}
	}
	for i, c := range lc.Spec.Inv {
		g := env.term(c.E)
		x.oblige(st2, fmt.Sprintf("loop%d/%s%s", lc.Ord, what, clauseName(c, i)), g)
		if g != False {
			st2 = st2.clone()
			env.st = st2
			st2.assume(g)
		}
	}
}

func (x *Exec) assumeInv(st *State, lc *LoopCtx) {
	if len(lc.Spec.Inv) == 0 && len(lc.Spec.Body) == 0 {
		return
	}
	env := x.loopEnv(st, lc)
	for _, c := range lc.Spec.Inv {
		st.assume(env.term(c.E))
	}
	for _, h := range lc.Spec.Body {
		x.hint(env, st, h)
	}
}

// ---- observers on concrete values ----

type autoObsInfo struct {
	fn  *ssa.Function
	arg []*Term
	res *Term
}

// obsOnBox evaluates a getter of a concrete type by running its body.
func (sp *Spec) obsOnBox(it types.Type, m string, recv *Term, args []*Term) *Term {
	bi := boxes[strings.TrimPrefix(recv.Op, "box_")]
	if bi == nil {
		return nil
	}
	return sp.obsOnType(bi.T, m, recv.Args[0], args)
}

func (sp *Spec) obsOnType(t types.Type, m string, recv *Term, args []*Term) *Term {
	key := typeName(t) + "." + m
	info, ok := sp.P.autoObs[key]
	if !ok {
		info = sp.deriveObs(t, m)
		sp.P.autoObs[key] = info
	}
	if info == nil || len(args)+1 != len(info.arg) {
		return nil
	}
	mp := map[*Term]*Term{info.arg[0]: recv}
	for i, a := range args {
		if a.Sort != info.arg[i+1].Sort {
			return nil
		}
		mp[info.arg[i+1]] = a
	}
	return subst(info.res, mp)
}

func (sp *Spec) deriveObs(t types.Type, m string) (res *autoObsInfo) {
	var pkg *types.Package
	if n, ok := types.Unalias(derefT(t)).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	fn := sp.P.SSA.LookupMethod(t, pkg, m)
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verr); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	name := sp.P.fnName(fn)
	info := &autoObsInfo{fn: fn}
	for i, p := range fn.Params {
		info.arg = append(info.arg, Var(fmt.Sprintf("?obs_%s_%d", name, i), sortOf(p.Type())))
	}
	if c := sp.Contracts[name]; c != nil {
		// a contract of the form (ensures (= result E)) without requires
		if len(c.Results) == 1 {
			for _, e := range c.Ens {
				if e.E.Head() == "=" && len(e.E.List) == 3 && e.E.List[1].Atom == c.Results[0] && len(c.Req) == 0 {
					env := &Env{sp: sp, vars: map[string]tv{}}
					for i, p := range c.Params {
						env.vars[p] = tv{info.arg[i], fn.Params[i].Type()}
					}
					info.res = env.term(e.E.List[2])
					return info
				}
			}
		}
		return nil
	}
	y := &Exec{P: sp.P, Fn: fn, loopID: map[string]int{}}
	st := &State{Heap: map[int]*Object{}}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Value{}, Idx: -1, Block: fn.Blocks[0], Loops: map[*ssa.BasicBlock]*LoopCtx{}, Unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 {
			o := st.newObj("", "recv", pt.Elem(), App("deref_"+info.arg[0].Sort, sortOf(pt.Elem()), info.arg[0]))
			o.Frozen = true
			fr.Env[p] = &PtrV{Obj: o.ID}
			continue
		}
		fr.Env[p] = expand(p.Type(), info.arg[i])
	}
	st.Frames = []*Frame{fr}
	y.explore(st, nil)
	if len(y.finals) == 0 || len(y.finals) > 8 {
		return nil
	}
	// index and nil checks only restrict where the method may be called
	checks := map[*Term]bool{}
	for _, o := range y.Obls {
		if o.Unsup != "" || !strings.Contains(o.Name, "index") && !strings.Contains(o.Name, "bounds") && o.Name != "nil-interface" {
			return nil
		}
		checks[o.Goal] = true
		for _, f := range o.Facts {
			checks[f] = true
		}
		if o.Goal.Op == "and" {
			for _, a := range o.Goal.Args {
				checks[a] = true
			}
		}
	}
	// one path, or a case distinction over the receiver and the arguments
	for i, f := range y.finals {
		cond := True
		for _, c := range f.Facts {
			if !checks[c] {
				cond = And(cond, c)
			}
		}
		r := f.peek(f.Ret[0], fn.Signature.Results().At(0).Type())
		if i == 0 {
			if len(y.finals) == 1 && cond != True {
				return nil
			}
			info.res = r
			continue
		}
		plain := true
		walk(cond, func(t *Term) {
			if len(t.Args) == 0 && strings.Contains(t.Op, "!") {
				plain = false
			}
		})
		if !plain || cond == True {
			return nil
		}
		info.res = Ite(cond, r, info.res)
	}
	return info
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func sigParams(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}
