package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome for one function or lemma.
type FuncResult struct {
	Opaque    []string
	Name      string
	Kind      string // function, lemma
	Obls      []*Obl
	Canary    []*Obl
	Unvisited []string
	Deps      []string
	Lemmas    []string
	Inlined   []string
	Err       string
	Seconds   float64
}

type verifier struct {
	sp      *Spec
	p       *Prog
	results map[string]*FuncResult
	order   []string
}

// verifyFunc generates the obligations of one function.
func (v *verifier) verifyFunc(c *Contract, fn *ssa.Function, name string) (res *FuncResult) {
	res = &FuncResult{Name: name, Kind: "function", Opaque: c.Opaque}
	x := &Exec{P: v.p, Fn: fn, C: c}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case verr:
				res.Obls = append(x.Obls, &Obl{Func: name, Name: "reach", Goal: False, Status: "unknown", Unsup: e.msg, Output: e.msg})
			case fatal:
				res.Err = e.msg
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				res.Err = fmt.Sprintf("%v", r)
				if os.Getenv("GOVC_STACK") != "" {
					res.Err += "\n" + string(debug.Stack())
				}
			}
		}
		for k := range x.deps {
			res.Deps = append(res.Deps, k)
		}
		for k := range x.lemmas {
			res.Lemmas = append(res.Lemmas, k)
		}
		sort.Strings(res.Deps)
		sort.Strings(res.Lemmas)
	}()
	if c.Real {
		x.mode = "real"
	}
	v.p.curInl = map[string]bool{}
	x.loopID = v.p.loopOrder(fn, x.willInline)
	st := &State{Heap: map[int]*Object{}}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]Value{}, Block: fn.Blocks[0], Idx: -1, Loops: map[*ssa.BasicBlock]*LoopCtx{}, Unroll: map[*ssa.BasicBlock]int{}}
	st.Frames = []*Frame{fr}
	x.envs = map[string]tv{}
	mods := map[string]bool{}
	for _, m := range c.Mod {
		mods[m.String()] = true
	}
	isStream := func(path string) string {
		for _, r := range c.Readers {
			if r.String() == path {
				return "reader"
			}
		}
		for _, r := range c.Writers {
			if r.String() == path {
				return "writer"
			}
		}
		return ""
	}
	var entryVal func(path string, name string, t types.Type, top bool) Value
	entryVal = func(path, name string, t types.Type, top bool) Value {
		switch isStream(path) {
		case "reader":
			if _, ok := t.Underlying().(*types.Interface); ok {
				o := st.newObj("reader", name, t, nil)
				o.F = map[string]Value{"rem": Fresh("rem", Bytes), "short": False}
				if c.Exact[path] {
					o.F["exact"] = True
				}
				return &StreamV{o.ID}
			}
		case "writer":
			if _, ok := t.Underlying().(*types.Interface); ok {
				o := st.newObj("writer", name, t, nil)
				o.F = map[string]Value{"out": Fresh("out", Bytes), "failed": Fresh("failed", "Bool")}
				if c.Buffers[path] {
					o.F["failed"], o.F["nofail"] = False, True
				}
				return &StreamV{o.ID}
			}
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok && top {
			o := st.newObj("", name, pt.Elem(), nil)
			o.V = entryVal("*"+path, name, pt.Elem(), false)
			if isBytesLike(pt.Elem()) {
				o.F = map[string]Value{"short": False}
			}
			o.Input = true
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok && !isBytesLike(pt.Elem()) && (isErrReader(pt.Elem()) || isErrWriter(pt.Elem())) {
				sv := &StructV{T: pt.Elem(), F: make([]Value, s.NumFields())}
				kind := "reader"
				if isErrWriter(pt.Elem()) {
					kind = "writer"
				}
				b := st.newObj(kind, name+".stream", s.Field(0).Type(), nil)
				if kind == "reader" {
					b.F = map[string]Value{"rem": Fresh("rem", Bytes), "short": False}
				} else {
					b.F = map[string]Value{"out": Fresh("out", Bytes), "failed": Fresh("failed", "Bool")}
				}
				sv.F[0] = &StreamV{b.ID}
				for i := 1; i < s.NumFields(); i++ {
					sv.F[i] = freshOf(name+"."+s.Field(i).Name(), s.Field(i).Type())
				}
				o.V = sv
			}
			return &PtrV{Obj: o.ID}
		}
		if mods[path] {
			switch t.Underlying().(type) {
			case *types.Slice:
				r := freshOf(name, t)
				o := st.newObj("array", name, t, r)
				return &SliceV{o.ID, IntC(0), sqLen(r)}
			case *types.Map:
				o := st.newObj("map", name, t, freshOf(name, t))
				return &MapV{o.ID}
			}
		}
		if s, ok := t.Underlying().(*types.Struct); ok && !isBytesLike(t) && !isNamed(t, "time", "Time") {
			sv := &StructV{T: t, F: make([]Value, s.NumFields())}
			for i := range sv.F {
				f := s.Field(i)
				sv.F[i] = entryVal("(. "+path+" "+f.Name()+")", name+"."+f.Name(), f.Type(), false)
			}
			return sv
		}
		return freshOf(name, t)
	}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(c.Params) {
			n = c.Params[i]
		}
		val := entryVal(n, n, p.Type(), true)
		fr.Env[p] = val
		t := p.Type()
		if c.Iface && i == 0 {
			// the contract sees the receiver as an interface value
			x.envs[n] = tv{&IfaceV{t, val}, t}
			continue
		}
		x.envs[n] = tv{val, t}
	}
	for _, g := range c.Ghosts {
		x.envs[g.name] = tv{Fresh(g.name, g.sort), g.t}
	}
	env := &Env{sp: v.sp, vars: x.envs, x: x, st: st}
	if c.Iface {
		if r, ok := x.envs[c.Params[0]]; ok {
			x.envs[c.Params[0]] = tv{st.peek(r.v, r.t), nil}
		}
	}
	for _, r := range c.Req {
		st.assume(env.term(r.E))
	}
	for _, h := range c.Pre {
		x.hint(env, st, h)
	}
	x.entry = st.clone()
	x.visited = map[int]bool{}
	entryHeap := st.Heap
	entryHeap = map[int]*Object{}
	for k, o := range st.Heap {
		entryHeap[k] = o
	}
	x.explore(st, nil)
	v.p.mu.Lock()
	for k := range v.p.curInl {
		res.Inlined = append(res.Inlined, k)
	}
	v.p.mu.Unlock()
	sort.Strings(res.Inlined)
	sig := fn.Signature
	for pi, f := range x.finals {
		env := &Env{sp: v.sp, vars: map[string]tv{}, x: x, st: f, old: x.entry}
		for k, a := range x.envs {
			env.vars[k] = a
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if i < len(c.Results) {
				env.vars[c.Results[i]] = tv{f.Ret[i], sig.Results().At(i).Type()}
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(verr); ok {
						x.unsup(f, e.msg)
						return
					}
					panic(r)
				}
			}()
			if x.dry == 0 {
				x.canary = append(x.canary, &Obl{Func: name, Name: fmt.Sprintf("reachable/return%d (line %d)", pi, f.RetLine), Facts: append([]*Term{}, f.Facts...), Goal: False, Mode: x.mode, Canary: true})
			}
			for _, h := range c.Post {
				x.hint(env, f, h)
			}
			for i, e := range c.Ens {
				if e.Defines {
					continue
				}
				x.oblige(f, "ensures"+clauseName(e, i), env.term(e.E))
			}
			// readers: success means that no exact read ran short
			var rts []types.Type
			for i := 0; i < sig.Results().Len(); i++ {
				rts = append(rts, sig.Results().At(i).Type())
			}
			var errV *Term
			for i, t := range rts {
				if isErrorType(t) {
					errV = f.peek(f.Ret[i], t)
				}
			}
			for _, r := range c.Readers {
				rv := x.rd(f, env.eval(r).v)
				if errV != nil {
					x.oblige(f, "short-read-reported", Implies(Eq(errV, nilI), Not(rv.short(f))))
				}
				e2 := *env
				e2.st = x.entry
				x.oblige(f, "reader-advances", Le(sqLen(rv.rem(f)), sqLen(x.rd(x.entry, e2.eval(r).v).rem(x.entry))))
			}
			for _, r := range c.Writers {
				wv := x.wr(f, env.eval(r).v)
				if errV != nil && !wv.never(f) {
					e2 := *env
					e2.st = x.entry
					x.oblige(f, "write-failure-reported", Implies(And(Eq(errV, nilI), wv.failed(f)), x.wr(x.entry, e2.eval(r).v).failed(x.entry)))
				}
			}
			x.frame(f, entryHeap, c, env)
		}()
	}
	for _, e := range c.Ens {
		if e.Defines {
			x.Obls = append(x.Obls, v.p.functionObl(fn, name))
			break
		}
	}
	res.Obls = x.Obls
	res.Canary = x.canary
	for _, b := range fn.Blocks {
		if !x.visited[b.Index] {
			p := token.Position{}
			for _, in := range b.Instrs {
				if q := v.p.Fset.Position(in.Pos()); q.IsValid() {
					p = q
					break
				}
			}
			res.Unvisited = append(res.Unvisited, fmt.Sprintf("block %d (line %d)", b.Index, p.Line))
		}
	}
	if len(x.finals) == 0 && len(x.Obls) == 0 {
		res.Err = "no path through the function was explored"
	}
	return res
}

// verifyVia: an implementation has a contract of its own, which is proved from
// its body; here, that it implies the contract of the interface method.
func (v *verifier) verifyVia(c, own *Contract, fn *ssa.Function, name string) (res *FuncResult) {
	res = &FuncResult{Name: name, Kind: "function", Opaque: own.ViaOpaque}
	x := &Exec{P: v.p, Fn: fn, C: own}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case verr:
				res.Obls = append(x.Obls, &Obl{Func: name, Name: "reach", Goal: False, Status: "unknown", Unsup: e.msg, Output: e.msg})
			case fatal:
				res.Err = e.msg
			default:
				panic(r)
			}
		}
		for k := range x.deps {
			res.Deps = append(res.Deps, k)
		}
		for k := range x.lemmas {
			res.Lemmas = append(res.Lemmas, k)
		}
		sort.Strings(res.Deps)
		sort.Strings(res.Lemmas)
	}()
	if len(own.Mod)+len(own.Readers)+len(own.Writers)+len(own.Ghosts)+len(c.Mod)+len(c.Readers)+len(c.Writers)+len(c.Ghosts) > 0 || own.Trusted {
		die("%s: via is for contracts without effects", name)
	}
	st := &State{Heap: map[int]*Object{}}
	st.Frames = []*Frame{{Fn: fn, Env: map[ssa.Value]Value{}, Block: fn.Blocks[0], Idx: -1, Loops: map[*ssa.BasicBlock]*LoopCtx{}, Unroll: map[*ssa.BasicBlock]int{}}}
	mine, theirs := map[string]tv{}, map[string]tv{}
	for i, p := range fn.Params {
		t := Fresh(p.Name(), sortOf(p.Type()))
		noteRange(t, p.Type())
		mine[own.Params[i]] = tv{t, p.Type()}
		if i == 0 {
			theirs[c.Params[i]] = tv{Box(p.Type(), t), nil}
		} else {
			theirs[c.Params[i]] = tv{t, p.Type()}
		}
	}
	both := map[string]tv{}
	add := func() {
		for k, a := range mine {
			both[k] = a
		}
		for k, a := range theirs {
			both[k] = a
		}
	}
	add()
	env := func(m map[string]tv) *Env { return &Env{sp: v.sp, vars: m, x: x, st: st, old: st} }
	for _, r := range c.Req {
		st.assume(env(theirs).term(r.E))
	}
	for i, r := range own.Req {
		x.oblige(st, "requires"+clauseName(r, i), env(mine).term(r.E))
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		val := Fresh("res", sortOf(t))
		noteRange(val, t)
		if i < len(own.Results) {
			mine[own.Results[i]] = tv{val, t}
		}
		if i < len(c.Results) {
			theirs[c.Results[i]] = tv{val, t}
		}
	}
	add()
	for _, e := range own.Ens {
		st.assume(env(mine).term(e.E))
	}
	x.canary = append(x.canary, &Obl{Func: name, Name: "reachable/via", Facts: append([]*Term{}, st.Facts...), Goal: False, Mode: x.mode, Canary: true})
	for _, h := range own.ViaHints {
		x.hint(env(both), st, h)
	}
	for i, e := range c.Ens {
		if e.Defines {
			continue
		}
		x.oblige(st, "ensures"+clauseName(e, i), env(theirs).term(e.E))
	}
	res.Obls, res.Canary = x.Obls, x.canary
	return res
}

// frame: objects reachable from the inputs change only as declared.
func (x *Exec) frame(f *State, entry map[int]*Object, c *Contract, env *Env) {
	allowed := map[int]bool{}
	e2 := *env
	e2.st = x.entry
	var mark func(v Value)
	mark = func(v Value) {
		switch y := v.(type) {
		case *PtrV:
			allowed[y.Obj] = true
		case *SliceV:
			allowed[y.Obj] = true
		case *MapV:
			allowed[y.Obj] = true
		case *StreamV:
			allowed[y.Obj] = true
		case *IfaceV:
			mark(y.V)
		}
	}
	for _, l := range [][]*SX{c.Mod, c.Readers, c.Writers} {
		for _, m := range l {
			v := e2.eval(m).v
			mark(v)
			if r := x.rdMaybe(x.entry, v); r != nil {
				allowed[r.base] = true
				for _, w := range r.wraps {
					allowed[w.Obj] = true
				}
			}
			if r := x.wrMaybe(x.entry, v); r != nil {
				allowed[r.base] = true
				for _, w := range r.wraps {
					allowed[w.Obj] = true
				}
			}
		}
	}
	for id, o := range entry {
		n := f.Heap[id]
		if allowed[id] || n == nil || n == o {
			continue
		}
		if o.Kind == "reader" || o.Kind == "writer" {
			for k := range o.F {
				x.oblige(f, "frame "+o.Name, Eq(o.F[k].(*Term), n.F[k].(*Term)))
			}
			continue
		}
		if sameVal(o.V, n.V) {
			continue
		}
		if _, ok := o.V.(*StructV); ok && hasStreamField(o.V) {
			x.oblige(f, "frame "+o.Name, False)
			continue
		}
		x.oblige(f, "frame "+o.Name, Eq(x.entry.peek(o.V, o.T), f.peek(n.V, o.T)))
	}
}

func hasStreamField(v Value) bool {
	if sv, ok := v.(*StructV); ok {
		for _, f := range sv.F {
			if _, ok := f.(*StreamV); ok {
				return true
			}
		}
	}
	return false
}

func (v *verifier) verifyLemma(l *Lemma) (res *FuncResult) {
	res = &FuncResult{Name: "lemma " + l.Name, Kind: "lemma", Opaque: l.Opaque}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(fatal); ok {
				res.Err = e.msg
				return
			}
			if e, ok := r.(verr); ok {
				res.Err = e.msg
				return
			}
			panic(r)
		}
	}()
	x := &Exec{P: v.p}
	st := &State{Heap: map[int]*Object{}}
	env := &Env{sp: v.sp, vars: map[string]tv{}, x: x, st: st, lem: l}
	for _, p := range l.Params {
		f := Fresh(p.name, p.sort)
		if p.t != nil {
			noteRange(f, p.t)
		}
		env.vars[p.name] = tv{f, p.t}
	}
	for _, r := range l.Req {
		st.assume(env.term(r))
	}
	if l.Measure != nil {
		env.lemM = env.term(l.Measure)
	}
	mode := ""
	if l.Real {
		mode = "real"
	}
	res.Canary = append(res.Canary, &Obl{Func: res.Name, Name: "reachable/lemma", Facts: append([]*Term{}, st.Facts...), Goal: False, Mode: mode, Canary: true})
	x.mode = mode
	for _, h := range l.Hints {
		x.hint(env, st, h)
	}
	for i, e := range l.Ens {
		g := env.term(e)
		x.oblige(st, fmt.Sprintf("ensures %d", i), g)
		st.assume(g)
	}
	res.Obls = x.Obls
	for k := range x.deps {
		res.Deps = append(res.Deps, k)
	}
	sort.Strings(res.Deps)
	for k := range x.lemmas {
		if k != l.Name {
			res.Lemmas = append(res.Lemmas, k)
		}
	}
	sort.Strings(res.Lemmas)
	return res
}

func (p *Property) names(n string) bool {
	for _, r := range append(append([]string{}, p.Roots...), p.Lemmas...) {
		if r == n {
			return true
		}
	}
	return false
}

// closure collects every contract and lemma that the roots depend on.
func (v *verifier) closure(roots, lemmas []string, by map[string]string) {
	type item struct{ kind, name string }
	var work []item
	for _, r := range roots {
		work = append(work, item{"f", r})
	}
	for _, l := range lemmas {
		work = append(work, item{"l", l})
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if other := by[it.name]; other != "" {
			key := it.name
			if it.kind == "l" {
				key = "lemma " + key
			}
			if v.results[key] == nil {
				r := &FuncResult{Name: key, Kind: "proved by the check of " + other}
				if op := v.sp.Props[other]; op == nil || op.By[it.name] != "" || !op.names(it.name) {
					r.Err = "not proved by the check of " + other
				}
				v.put(r)
			}
			continue
		}
		if it.kind == "l" {
			key := "lemma " + it.name
			if v.results[key] != nil {
				continue
			}
			l := v.sp.Lemmas[it.name]
			if l == nil {
				v.put(&FuncResult{Name: key, Kind: "lemma", Err: "unknown lemma"})
				continue
			}
			r := v.verifyLemma(l)
			v.put(r)
			for _, d := range r.Deps {
				work = append(work, item{"f", d})
			}
			for _, d := range r.Lemmas {
				work = append(work, item{"l", d})
			}
			continue
		}
		name := it.name
		if c := v.sp.Imeth[name]; c != nil {
			if v.results[name] != nil {
				continue
			}
			// a contract of an interface method: every implementation in the module
			i := strings.LastIndexByte(name, '.')
			marker := &FuncResult{Name: name, Kind: "interface"}
			v.put(marker)
			for _, t := range v.sp.Impl[name[:i]] {
				var pkg *types.Package
				if n, ok := types.Unalias(derefT(t)).(*types.Named); ok {
					pkg = n.Obj().Pkg()
				}
				fn := v.p.SSA.LookupMethod(t, pkg, name[i+1:])
				if fn == nil {
					v.put(&FuncResult{Name: name + " for " + typeName(t), Err: "no such method"})
					continue
				}
				cc := c
				if own := v.sp.Contracts[v.p.fnName(fn)]; own != nil && c.Via {
					// its own contract must imply this one
					r := v.verifyVia(c, own, fn, v.p.fnName(fn)+" as "+shortName(name))
					v.put(r)
					work = append(work, item{"f", own.Name})
					for _, d := range r.Deps {
						work = append(work, item{"f", d})
					}
					for _, d := range r.Lemmas {
						work = append(work, item{"l", d})
					}
					continue
				}
				if own := v.sp.Contracts[v.p.fnName(fn)]; own != nil && c.onlyDefines() && len(own.Req) == 0 {
					// the contract only names the answers: its own contract, and that it is a function
					v.put(&FuncResult{Name: v.p.fnName(fn) + " as " + shortName(name), Kind: "function", Obls: []*Obl{v.p.functionObl(fn, v.p.fnName(fn))}})
					work = append(work, item{"f", own.Name})
					continue
				} else if own != nil {
					// loop annotations of the implementation itself
					c2 := *c
					c2.Loops, c2.Real = own.Loops, own.Real
					c2.Pre = append(append([]*SX{}, c.Pre...), own.Pre...)
					c2.Post = append(append([]*SX{}, c.Post...), own.Post...)
					cc = &c2
				}
				r := v.verifyFunc(cc, fn, v.p.fnName(fn)+" as "+shortName(name))
				v.put(r)
				for _, d := range r.Deps {
					work = append(work, item{"f", d})
				}
				for _, d := range r.Lemmas {
					work = append(work, item{"l", d})
				}
			}
			continue
		}
		c := v.sp.Contracts[name]
		if c == nil {
			for k, cc := range v.sp.Contracts {
				if strings.HasSuffix(k, "/"+name) {
					c = cc
				}
			}
		}
		if c == nil || c.Fn == nil {
			if v.results[name] == nil {
				v.put(&FuncResult{Name: name, Kind: "function", Err: "no such function or contract"})
			}
			continue
		}
		if v.results[c.Name] != nil {
			continue
		}
		if c.Trusted {
			v.put(&FuncResult{Name: c.Name, Kind: "trusted"})
			v.p.noteTrusted("trusted contract: " + c.Name)
			continue
		}
		r := v.verifyFunc(c, c.Fn, c.Name)
		v.put(r)
		for _, d := range r.Deps {
			work = append(work, item{"f", d})
		}
		for _, d := range r.Lemmas {
			work = append(work, item{"l", d})
		}
	}
}

func (v *verifier) put(r *FuncResult) {
	v.results[r.Name] = r
	if len(r.Opaque) > 0 {
		m := map[string]bool{}
		for _, n := range r.Opaque {
			if v.sp.Funs[n] == nil {
				die("opaque %s in %s: no such function", n, r.Name)
			}
			m[n] = true
		}
		for _, o := range append(append([]*Obl{}, r.Obls...), r.Canary...) {
			o.Opaque = m
		}
	}
	v.order = append(v.order, r.Name)
}

type outObl struct {
	Func, Name, Status, By, Output string
	Seconds                        float64
	Query                          string `json:",omitempty"`
}

type outReport struct {
	Property      string
	Functions     []map[string]interface{}
	Obligations   int
	Discharged    int
	BackEnds      map[string]int
	SolverSeconds float64
	WallSeconds   float64
	Failed        []outObl
	Errors        []string
	Trusted       []string
	Vacuous       []string
	Canaries      int
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check REPO SPECDIR PROPERTY OUT.json | fn REPO SPECDIR NAME...")
		os.Exit(2)
	}
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fatal); ok {
				fmt.Println("error:", f.msg)
				os.Exit(3)
			}
			panic(r)
		}
	}()
	p, err := loadProg(os.Args[2])
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	sp := loadSpec(p, os.Args[3])
	workDir, _ = os.MkdirTemp("", "govc")
	if k := os.Getenv("GOVC_KEEP"); k != "" {
		os.MkdirAll(k, 0o755)
		workDir = k
	} else {
		defer os.RemoveAll(workDir)
	}
	v := &verifier{sp: sp, p: p, results: map[string]*FuncResult{}}
	rep := &outReport{BackEnds: map[string]int{}}
	out := ""
	var by map[string]string
	switch os.Args[1] {
	case "list":
		for _, n := range sp.PropOrder {
			fmt.Println(n, sp.Props[n].Roots, sp.Props[n].Lemmas)
		}
		return
	case "check":
		pr := sp.Props[os.Args[4]]
		if pr == nil {
			die("no property %s", os.Args[4])
		}
		rep.Property = pr.ID
		out = os.Args[5]
		by = pr.By
		if os.Getenv("VERIF_TIER") == "thorough" {
			by = nil
		}
		v.closure(pr.Roots, pr.Lemmas, by)
	case "fn":
		for _, n := range os.Args[4:] {
			if strings.HasPrefix(n, "lemma:") {
				r := v.verifyLemma(sp.Lemmas[n[6:]])
				v.put(r)
				continue
			}
			if c := sp.Imeth[n]; c != nil {
				v.closure([]string{n}, nil, nil)
				continue
			}
			fn := p.findFunc(n)
			if fn == nil {
				die("no function %s", n)
			}
			c := sp.Contracts[p.fnName(fn)]
			if c == nil {
				die("no contract for %s", p.fnName(fn))
			}
			v.put(v.verifyFunc(c, fn, c.Name))
		}
	case "lemmas":
		for _, l := range sp.LemOrder {
			v.put(v.verifyLemma(l))
		}
	case "dump":
		fn := p.findFunc(os.Args[4])
		fn.WriteTo(os.Stdout)
		return
	}
	budget := 10000
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 30000
	}
	if b := os.Getenv("GOVC_BUDGET"); b != "" {
		fmt.Sscan(b, &budget)
	}
	// prove
	var all []*Obl
	ord := map[*Obl]int{}
	for _, n := range v.order {
		r := v.results[n]
		o := 1 << 30
		if l := sp.Lemmas[strings.TrimPrefix(n, "lemma ")]; l != nil && r.Kind == "lemma" {
			o = l.Order
		}
		for _, q := range r.Obls {
			ord[q] = o
			all = append(all, q)
		}
		for _, q := range r.Canary {
			q.Canary = true
			ord[q] = o
			all = append(all, q)
		}
	}
	sp.proveAll(all, func(o *Obl) int { return ord[o] }, budget)
	// a handful left over: a slow machine rather than a broken property, so more time
	if os.Args[1] == "check" {
		var left []*Obl
		for _, o := range all {
			if !o.Canary && o.Status != "proved" && o.Unsup == "" {
				left = append(left, o)
			}
		}
		if len(left) > 0 && len(left) <= 16 {
			sp.proveAll(left, func(o *Obl) int { return ord[o] }, 4*budget)
		}
	}
	// auto lemmas that were used as axioms must be proved too
	for {
		var extra []*Lemma
		for _, l := range sp.LemOrder {
			if len(l.Auto) > 0 && v.results["lemma "+l.Name] == nil && sp.lemmaUsed(l) {
				extra = append(extra, l)
			}
		}
		if len(extra) == 0 {
			break
		}
		var more []*Obl
		if os.Args[1] == "check" {
			n0 := len(v.order)
			var names []string
			for _, l := range extra {
				names = append(names, l.Name)
			}
			v.closure(nil, names, by)
			for _, n := range v.order[n0:] {
				r := v.results[n]
				o := 1 << 30
				if l := sp.Lemmas[strings.TrimPrefix(n, "lemma ")]; l != nil && r.Kind == "lemma" {
					o = l.Order
				}
				for _, q := range append(append([]*Obl{}, r.Obls...), r.Canary...) {
					ord[q] = o
					more = append(more, q)
				}
			}
			extra = nil
		}
		for _, l := range extra {
			r := v.verifyLemma(l)
			v.put(r)
			for _, d := range r.Lemmas {
				if v.results["lemma "+d] == nil {
					r2 := v.verifyLemma(sp.Lemmas[d])
					v.put(r2)
					for _, q := range r2.Obls {
						ord[q] = sp.Lemmas[d].Order
						more = append(more, q)
					}
				}
			}
			for _, q := range append(append([]*Obl{}, r.Obls...), r.Canary...) {
				ord[q] = l.Order
				more = append(more, q)
			}
		}
		sp.proveAll(more, func(o *Obl) int { return ord[o] }, budget)
	}
	verbose := os.Args[1] != "check" || os.Getenv("GOVC_V") != ""
	for _, n := range v.order {
		r := v.results[n]
		nd := 0
		var bad []string
		for _, o := range r.Obls {
			rep.Obligations++
			rep.SolverSeconds += o.Time
			if o.Status == "proved" {
				nd++
				rep.Discharged++
				rep.BackEnds[o.By]++
				if verbose && o.Time > 3 {
					fmt.Printf("   slow %.1fs %s %s\n", o.Time, n, o.Name)
				}
				continue
			}
			oo := outObl{n, o.Name, o.Status, o.By, o.Output, o.Time, o.Query}
			rep.Failed = append(rep.Failed, oo)
			bad = append(bad, fmt.Sprintf("%s [%s %s %.1fs] %s", o.Name, o.Status, o.By, o.Time, o.Output))
			if verbose && os.Getenv("GOVC_SHOW") != "" {
				for _, f := range o.Facts {
					fmt.Println("      fact", short(f))
				}
				fmt.Println("      goal", short(o.Goal))
			}
		}
		// vacuity: some return must be reachable, and every loop body
		anyRet, retOK := false, false
		for _, o := range r.Canary {
			rep.Canaries++
			if verbose && os.Getenv("GOVC_SHOW") == "2" {
				fmt.Println("   canary", o.Name, o.Status)
				for _, f := range o.Facts {
					fmt.Println("      fact", short(f))
				}
			}
			rep.SolverSeconds += o.Time
			if strings.HasPrefix(o.Name, "reachable/loop") && o.Status == "proved" {
				rep.Vacuous = append(rep.Vacuous, n+" "+o.Name)
				bad = append(bad, "VACUOUS "+o.Name)
			}
			if strings.HasPrefix(o.Name, "reachable/return") || strings.HasPrefix(o.Name, "reachable/lemma") {
				anyRet = true
				if o.Status != "proved" {
					retOK = true
				}
			}
		}
		if anyRet && !retOK {
			rep.Vacuous = append(rep.Vacuous, n+" no reachable return")
			bad = append(bad, "VACUOUS no reachable return")
		}
		if r.Err != "" {
			rep.Errors = append(rep.Errors, n+": "+r.Err)
			bad = append(bad, "ERROR "+r.Err)
		}
		rep.Functions = append(rep.Functions, map[string]interface{}{"name": n, "kind": r.Kind, "obligations": len(r.Obls), "discharged": nd, "inlined": r.Inlined})
		if verbose {
			fmt.Printf("%-70s %d/%d\n", n, nd, len(r.Obls))
			for _, b := range bad {
				fmt.Println("     ", b)
			}
			if len(r.Unvisited) > 0 {
				fmt.Println("      no path through", strings.Join(r.Unvisited, ", "))
			}
			for _, o := range r.Canary {
				if o.Status == "proved" {
					fmt.Println("      infeasible", o.Name)
				}
			}
		}
	}
	for k := range p.TrustedUsed {
		rep.Trusted = append(rep.Trusted, k)
	}
	sort.Strings(rep.Trusted)
	rep.WallSeconds = time.Since(t0).Seconds()
	if out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(out, b, 0o644)
	}
	fmt.Printf("obligations %d discharged %d failed %d errors %d vacuous %d wall %.1fs solver %.1fs\n", rep.Obligations, rep.Discharged, len(rep.Failed), len(rep.Errors), len(rep.Vacuous), rep.WallSeconds, rep.SolverSeconds)
	if len(rep.Failed)+len(rep.Errors)+len(rep.Vacuous) > 0 {
		os.Exit(1)
	}
}

func (sp *Spec) lemmaUsed(l *Lemma) bool { return sp.usedLemma[l.Name] }
