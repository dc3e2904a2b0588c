package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Func  string
	Name  string
	Facts []*Term
	Goal  *Term
	Mode  string // "", "real"
	Hints []*Term
	// results
	Status string // proved, failed, unknown
	By     string
	Time   float64
	Output string
	Unsup  string
	Query  string
	Canary bool
	Opaque map[string]bool // functions whose definitions are left out
}

type Exec struct {
	P             *Prog
	Fn            *ssa.Function
	C             *Contract
	Obls          []*Obl
	dry           int
	finals        []*State
	entry         *State
	loopID        map[string]int
	steps         int
	envs          map[string]tv // parameter names
	mode          string
	onBack        func(*State, *Frame, *ssa.BasicBlock) bool
	assumedNonNil bool
	canary        []*Obl
	visited       map[int]bool
	nPaths        int
	deps          map[string]bool
	lemmas        map[string]bool
}

type LoopCtx struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
	K      *Term
	Spec   *LoopSpec
	Ord    int
	Lin    []linAuto
	Pre    *State
	Head   *State // start of the current iteration
	Dry    bool
	Backs  *[]*backState
	Unroll bool
	Vars   map[string]varBind
}

type backState struct {
	st   *State
	phis map[*ssa.Phi]Value
}

type linAuto struct {
	phi  *ssa.Phi
	obj  int
	path []int // field path within StructV
	init *Term
	d    *big.Int
}

func (x *Exec) fname() string {
	if x.Fn == nil {
		return "lemma"
	}
	return x.P.fnName(x.Fn)
}

// hint adds the fact a hint stands for: a lemma instance, an unfolded
// definition, or an assertion, which is proved first.
func (x *Exec) hint(env *Env, st *State, h *SX) {
	if h.Head() == "ghost" {
		// names a value for later contracts of this function
		g := map[string]tv{}
		for k, v := range st.Ghost {
			g[k] = v
		}
		v := env.eval(h.List[2])
		g[h.List[1].Atom] = tv{env.asTerm(v, h.List[2]), v.t}
		st.Ghost = g
		return
	}
	if h.Head() == "on" {
		// only where the ghost value has been named
		if _, ok := st.Ghost[h.List[1].Atom]; ok {
			for _, k := range h.List[2:] {
				x.hint(env, st, k)
			}
		}
		return
	}
	if h.Head() == "assert" {
		g := env.term(h.List[1])
		x.oblige(st, "assert", g)
		st.assume(g)
		return
	}
	st.assume(env.term(h))
}

func (x *Exec) oblige(st *State, name string, goal *Term, hints ...*Term) {
	if x.dry > 0 || goal == True || st.Dead {
		return
	}
	if v, ok := st.known(goal); ok && v {
		return
	}
	if goal.Op == "and" {
		for i, a := range goal.Args {
			x.oblige(st, fmt.Sprintf("%s/%d", name, i), a, hints...)
		}
		return
	}
	x.Obls = append(x.Obls, &Obl{Func: x.fname(), Name: name, Facts: append([]*Term{}, st.Facts...), Goal: goal, Mode: x.mode, Hints: hints})
}

func (x *Exec) pos(st *State, in ssa.Instruction) string {
	fr := st.top()
	return x.P.fnName(fr.Fn)
}

// explore runs st until every path finishes or stop holds; stopped states are returned.
func (x *Exec) explore(st *State, stop func(*State) bool) []*State {
	var out []*State
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.Dead {
				break
			}
			if stop != nil && stop(s) {
				out = append(out, s)
				break
			}
			if len(s.Frames) == 0 {
				x.finish(s)
				break
			}
			next := x.stepSafe(s)
			if len(next) == 0 {
				break
			}
			for i := len(next) - 1; i > 0; i-- {
				work = append(work, next[i])
			}
			s = next[0]
		}
	}
	return out
}

func (x *Exec) finish(s *State) {
	if x.dry > 0 {
		return
	}
	x.finals = append(x.finals, s)
}

func (x *Exec) stepSafe(s *State) (res []*State) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(verr); ok {
				x.unsup(s, e.msg)
				res = nil
				return
			}
			panic(r)
		}
	}()
	x.steps++
	if x.steps > 4000000 {
		panic(fmt.Sprintf("too many steps in %s", x.fname()))
	}
	return x.step(s)
}

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func (x *Exec) unsup(s *State, msg string) {
	if x.dry > 0 {
		return
	}
	where := ""
	if len(s.Frames) > 0 {
		fr := s.top()
		where = x.P.fnName(fr.Fn)
		if fr.Block != nil && fr.Idx >= 0 && fr.Idx < len(fr.Block.Instrs) {
			p := x.P.Fset.Position(fr.Block.Instrs[fr.Idx].Pos())
			if p.IsValid() {
				where += fmt.Sprintf(" line %d", p.Line)
			}
		}
	}
	x.Obls = append(x.Obls, &Obl{Func: x.fname(), Name: "reach", Facts: append([]*Term{}, s.Facts...), Goal: False, Unsup: msg + " at " + where, Mode: x.mode})
}

func (x *Exec) jump(s *State, to *ssa.BasicBlock) {
	fr := s.top()
	fr.Prev = fr.Block
	fr.Block = to
	fr.Idx = -1
}

// step executes one instruction (or a block entry) of the top frame.
func (x *Exec) step(s *State) []*State {
	fr := s.top()
	if fr.Idx < 0 {
		return x.enter(s)
	}
	in := fr.Block.Instrs[fr.Idx]
	if x.visited != nil && x.dry == 0 && len(s.Frames) == 1 {
		x.visited[fr.Block.Index] = true
	}
	if debugTrace {
		fmt.Println("step", x.dry, fr.Fn.Name(), fr.Block.Index, fr.Idx, in)
	}
	switch i := in.(type) {
	case *ssa.Jump:
		x.jump(s, fr.Block.Succs[0])
		return []*State{s}
	case *ssa.If:
		return x.branch(s, x.val(s, i.Cond).(*Term))
	case *ssa.Return:
		res := make([]Value, len(i.Results))
		for k, r := range i.Results {
			res[k] = x.val(s, r)
		}
		s.RetLine = x.P.Fset.Position(i.Pos()).Line
		return x.ret(s, res)
	case *ssa.Panic:
		x.oblige(s, "no-panic", False)
		return nil
	case *ssa.Call:
		return x.call(s, i, i.Common())
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		unsupported("instruction %T", in)
	}
	st2 := x.simple(s, in)
	if st2 != nil {
		return st2
	}
	fr = s.top()
	fr.Idx++
	return []*State{s}
}

func (x *Exec) ret(s *State, res []Value) []*State {
	fr := s.top()
	s.Frames = s.Frames[:len(s.Frames)-1]
	if len(s.Frames) == 0 {
		s.Ret = res
		return []*State{s}
	}
	c := s.top()
	if fr.Dest != nil {
		c.Env[fr.Dest] = tupleOf(res)
	}
	c.Idx++
	return []*State{s}
}

func tupleOf(res []Value) Value {
	if len(res) == 1 {
		return res[0]
	}
	return TupleV(res)
}

// branch splits on a condition.
func (x *Exec) branch(s *State, c *Term) []*State {
	fr := s.top()
	b := fr.Block
	if v, ok := s.known(c); ok {
		if v {
			x.jump(s, b.Succs[0])
		} else {
			x.jump(s, b.Succs[1])
		}
		return []*State{s}
	}
	if fr.Unroll != nil {
		// nothing
	}
	// facts may decide linear comparisons
	if v, ok := decideByFacts(s.Facts, c); ok {
		if v {
			x.jump(s, b.Succs[0])
		} else {
			x.jump(s, b.Succs[1])
		}
		return []*State{s}
	}
	t := s
	e := s.clone()
	nf := len(s.Facts)
	t.assume(c)
	e.assume(Not(c))
	x.jump(t, b.Succs[0])
	x.jump(e, b.Succs[1])
	// merging at the post-dominator
	p := x.P.ipdom(b)
	if p == nil || x.P.loopAt(p) != nil {
		return []*State{t, e}
	}
	depth := len(s.Frames)
	site := fr.Site
	stop := func(q *State) bool {
		if len(q.Frames) < depth {
			return true
		}
		f := q.Frames[depth-1]
		return len(q.Frames) == depth && f.Site == site && f.Block == p && f.Idx == -1
	}
	ts := x.explore(t, stop)
	es := x.explore(e, stop)
	if len(ts) == 1 && len(es) == 1 && len(ts[0].Frames) == depth && len(es[0].Frames) == depth {
		if m := x.merge(ts[0], es[0], c, nf, p); m != nil {
			return []*State{m}
		}
	}
	return append(ts, es...)
}

func (x *Exec) merge(a, b *State, c *Term, nf int, p *ssa.BasicBlock) *State {
	fa, fb := a.top(), b.top()
	all := x.C != nil && x.C.MergeAll
	// phis
	var phis []*ssa.Phi
	for _, in := range p.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	vals := make([]Value, len(phis))
	for i, ph := range phis {
		va := x.val(a, ph.Edges[predIndex(p, fa.Prev)])
		vb := x.val(b, ph.Edges[predIndex(p, fb.Prev)])
		v, ok := mergeVal(c, va, vb, all)
		if !ok {
			return nil
		}
		vals[i] = v
	}
	// heap
	heap := make(map[int]*Object, len(a.Heap))
	for id, oa := range a.Heap {
		ob, ok := b.Heap[id]
		if !ok {
			heap[id] = oa
			continue
		}
		if oa == ob {
			heap[id] = oa
			continue
		}
		n := *oa
		v, ok := mergeVal(c, oa.V, ob.V, all)
		if !ok {
			return nil
		}
		n.V = v
		n.Frozen = oa.Frozen || ob.Frozen
		n.BytesOnly = n.Frozen && (!oa.Frozen || oa.BytesOnly) && (!ob.Frozen || ob.BytesOnly)
		for k, fv := range oa.F {
			w, ok := mergeVal(c, fv, ob.F[k], all)
			if !ok {
				return nil
			}
			if n.F[k] != w {
				nf2 := map[string]Value{}
				for kk, vv := range n.F {
					nf2[kk] = vv
				}
				nf2[k] = w
				n.F = nf2
			}
		}
		for _, l := range ob.Links {
			n.Links = addLink(n.Links, l)
		}
		heap[id] = &n
	}
	for id, ob := range b.Heap {
		if _, ok := heap[id]; !ok {
			heap[id] = ob
		}
	}
	// lower frames must agree
	for i := 0; i < len(a.Frames)-1; i++ {
		if len(a.Frames[i].Loops) != len(b.Frames[i].Loops) {
			return nil
		}
	}
	m := a
	m.Heap = heap
	g := map[string]tv{}
	for k, v := range a.Ghost {
		if w, ok := b.Ghost[k]; ok && sameVal(v.v, w.v) {
			g[k] = v
		}
	}
	m.Ghost = g
	var sa, sb []*Term
	for _, f := range a.Facts[nf:] {
		if f != c {
			sa = append(sa, f)
		}
	}
	for _, f := range b.Facts[nf:] {
		if f != Not(c) {
			sb = append(sb, f)
		}
	}
	m.Facts = append([]*Term{}, a.Facts[:nf]...)
	for _, f := range sa {
		m.assume(Implies(c, f))
	}
	for _, f := range sb {
		m.assume(Implies(Not(c), f))
	}
	f := m.top()
	f.Idx = len(phis)
	for i, ph := range phis {
		f.Env[ph] = vals[i]
	}
	return m
}

func addLink(ls []int, l int) []int {
	for _, x := range ls {
		if x == l {
			return ls
		}
	}
	return append(append([]int{}, ls...), l)
}

func scalarSort(s string) bool {
	switch s {
	case "Int", "Bool", "F64", "F32", "If", "Time":
		return true
	}
	return false
}

// mergeSeq merges two versions of a sequence that differ in one element.
func mergeSeq(c, a, b *Term) (*Term, bool) {
	u := sqf("upd", a.Sort)
	if a.Op == u && b.Op == u && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] && scalarSort(a.Args[2].Sort) {
		return sqUpd(a.Args[0], a.Args[1], Ite(c, a.Args[2], b.Args[2])), true
	}
	if n := sqf("unit", a.Sort); a.Op == n && b.Op == n && scalarSort(a.Args[0].Sort) {
		return sqUnit(a.Sort, Ite(c, a.Args[0], b.Args[0])), true
	}
	return nil, false
}

func mergeVal(c *Term, a, b Value, all bool) (Value, bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.Sort != y.Sort {
			return nil, false
		}
		if isSeqSort(x.Sort) {
			if v, ok := mergeSeq(c, x, y); ok {
				return v, true
			}
		}
		if !all && !scalarSort(x.Sort) {
			return nil, false
		}
		return Ite(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return nil, false
		}
		n := &StructV{T: x.T, F: make([]Value, len(x.F))}
		for i := range x.F {
			v, ok := mergeVal(c, x.F[i], y.F[i], all)
			if !ok {
				return nil, false
			}
			n.F[i] = v
		}
		return n, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if ok && x.Obj == y.Obj && len(x.Path) == 0 && len(y.Path) == 0 {
			return x, true
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && x.Obj == y.Obj && x.Off == y.Off && x.Len == y.Len {
			return x, true
		}
	case *MapV:
		y, ok := b.(*MapV)
		if ok && x.Obj == y.Obj {
			return x, true
		}
	case *StreamV:
		y, ok := b.(*StreamV)
		if ok && x.Obj == y.Obj {
			return x, true
		}
	case NilV:
		if _, ok := b.(NilV); ok {
			return a, true
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if ok && types.Identical(x.T, y.T) {
			v, ok := mergeVal(c, x.V, y.V, all)
			if ok {
				return &IfaceV{x.T, v}, true
			}
		}
	}
	return nil, false
}

// decideByFacts tries to decide c from the integer bounds in the facts.
func decideByFacts(facts []*Term, c *Term) (bool, bool) {
	base := c
	neg := false
	if c.Op == "not" {
		base, neg = c.Args[0], true
	}
	if base.Op == "<=" {
		d := Sub(base.Args[1], base.Args[0]) // d>=0 ?
		for _, f := range facts {
			g := f
			var fd *Term // fd >= 0 known
			if g.Op == "<=" {
				fd = Sub(g.Args[1], g.Args[0])
			} else if g.Op == "not" && g.Args[0].Op == "<=" {
				fd = Sub(Sub(g.Args[0].Args[0], g.Args[0].Args[1]), IntC(1))
			} else if g.Op == "=" && g.Args[0].Sort == "Int" {
				fd = Sub(g.Args[0], g.Args[1])
				if x := Add(d, fd); x.isInt() {
					return (x.Int.Sign() >= 0) != neg, true
				}
				if x := Sub(d, fd); x.isInt() {
					return (x.Int.Sign() >= 0) != neg, true
				}
				continue
			} else {
				continue
			}
			if x := Sub(d, fd); x.isInt() && x.Int.Sign() >= 0 {
				return !neg, true
			}
			if x := Add(d, fd); x.isInt() && x.Int.Sign() < 0 {
				return neg, true
			}
		}
	}
	return false, false
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("no such predecessor")
}

// enter processes entry to the pending block.
func (x *Exec) enter(s *State) []*State {
	fr := s.top()
	b := fr.Block
	// leave loops
	for h, lc := range fr.Loops {
		if !lc.Body[b] {
			if x.dry == 0 && len(lc.Spec.Exit) > 0 && fr.Prev == h {
				env := x.loopEnv(s, lc)
				for _, e := range lc.Spec.Exit {
					x.hint(env, s, e)
				}
			}
			delete(fr.Loops, h)
		}
	}
	if lp := x.P.loopAt(b); lp != nil {
		if lc, ok := fr.Loops[b]; ok && fr.Prev != nil && lp.Body[fr.Prev] {
			return x.backEdge(s, lc)
		}
		if fr.Prev != nil && lp.Body[fr.Prev] {
			// back edge of an unrolled loop
			fr.Unroll[b]++
			if fr.Unroll[b] > 80 {
				unsupported("loop without invariant in %s does not unroll", x.P.fnName(fr.Fn))
			}
			x.evalPhis(s)
			return []*State{s}
		}
		return x.loopEntry(s, lp)
	}
	x.evalPhis(s)
	return []*State{s}
}

func (x *Exec) phiVals(s *State) ([]*ssa.Phi, []Value) {
	fr := s.top()
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range fr.Block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(s, ph.Edges[predIndex(fr.Block, fr.Prev)]))
	}
	return phis, vals
}

func (x *Exec) evalPhis(s *State) {
	fr := s.top()
	phis, vals := x.phiVals(s)
	for i, ph := range phis {
		fr.Env[ph] = vals[i]
	}
	fr.Idx = len(phis)
}

func constDelta(next, cur *Term) *big.Int {
	if next.Op == "mod" && next.Args[1].isInt() {
		if d := Sub(next.Args[0], cur); d.isInt() {
			return d.Int
		}
	}
	d := Sub(next, cur)
	if d.isInt() {
		return d.Int
	}
	return nil
}

func (x *Exec) loopEntry(s *State, lp *Loop) []*State {
	fr := s.top()
	h := fr.Block
	key := fr.Site + "|" + fmt.Sprint(h.Index)
	ord := -1
	if o, ok := x.loopID[key]; ok {
		ord = o
	}
	var spec *LoopSpec
	if x.C != nil && ord >= 0 {
		spec = x.C.Loops[ord]
	}
	if spec == nil && x.constGuard(s, lp) {
		fr.Unroll[h] = 0
		x.evalPhis(s)
		return []*State{s}
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	phis, inits := x.phiVals(s)
	pre := s.clone()
	for i, ph := range phis {
		pre.top().Env[ph] = inits[i]
	}
	// initial check of the invariants with k = 0
	lc0 := &LoopCtx{Header: h, Body: lp.Body, K: IntC(0), Spec: spec, Ord: ord, Pre: pre}
	x.checkInv(pre, lc0, "init")
	s.Ghost = pre.Ghost

	mark := freshN
	// discover what the loop changes
	cur := s
	k := Fresh("k", "Int")
	symRange[k.Op] = rng{bigI(0), maxLen}
	curPhi := make([]Value, len(phis))
	phiChanged := make([]bool, len(phis))
	for i := range phis {
		curPhi[i] = inits[i]
	}
	base := pre
	nb := base.clone()
	var backs []*backState
	for iter := 0; ; iter++ {
		if iter > 8 {
			unsupported("loop effects do not stabilise")
		}
		backs = nil
		d := nb.clone()
		f := d.top()
		for i, ph := range phis {
			f.Env[ph] = curPhi[i]
		}
		lc := &LoopCtx{Header: h, Body: lp.Body, K: k, Spec: spec, Ord: ord, Dry: true, Backs: &backs, Pre: pre}
		f.Loops[h] = lc
		f.Idx = len(phis)
		depth := len(d.Frames)
		x.dry++
		x.explore(d, func(q *State) bool {
			if len(q.Frames) < depth {
				return true
			}
			if len(q.Frames) == depth {
				ff := q.top()
				if ff.Idx == -1 && !lp.Body[ff.Block] {
					return true
				}
			}
			return false
		})
		x.dry--
		changed := false
		for _, bs := range backs {
			for i, ph := range phis {
				if phiChanged[i] {
					continue
				}
				if !sameVal(curPhi[i], bs.phis[ph]) {
					phiChanged[i] = true
					changed = true
					curPhi[i] = x.havocPhi(nb, ph, inits[i], bs.phis[ph])
				}
			}
			for id, o := range nb.Heap {
				eo := bs.st.Heap[id]
				if eo == nil || eo == o {
					continue
				}
				nv, ch := x.widen(nb, o, o.V, eo.V, mark)
				nfm := o.F
				for kf, fv := range o.F {
					w, c2 := x.widen(nb, o, fv, eo.F[kf], mark)
					if c2 {
						cp := map[string]Value{}
						for a, b := range nfm {
							cp[a] = b
						}
						cp[kf] = w
						nfm = cp
						ch = true
					}
				}
				fz := o.Frozen || eo.Frozen
				bo := fz && (!o.Frozen || o.BytesOnly) && (!eo.Frozen || eo.BytesOnly)
				if fz != o.Frozen || bo != o.BytesOnly {
					ch = true
				}
				nl := o.Links
				for _, l := range eo.Links {
					if _, ok := nb.Heap[l]; ok {
						if len(addLink(nl, l)) > len(nl) {
							nl = addLink(nl, l)
							ch = true
						}
					}
				}
				if ch {
					n := *o
					n.V = nv
					n.F = nfm
					n.Frozen, n.BytesOnly = fz, bo
					n.Links = nl
					nb.Heap[id] = &n
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	// linear candidates
	var lins []linAuto
	sub := map[*Term]*Term{}
	if len(backs) > 0 {
		for i, ph := range phis {
			ct, ok := curPhi[i].(*Term)
			it, ok2 := inits[i].(*Term)
			if !ok || !ok2 || !phiChanged[i] || ct.Sort != "Int" || len(ct.Args) > 0 {
				continue
			}
			var d *big.Int
			good := true
			for _, bs := range backs {
				nt, ok := bs.phis[ph].(*Term)
				if !ok {
					good = false
					break
				}
				dd := constDelta(nt, ct)
				if dd == nil || (d != nil && d.Cmp(dd) != 0) {
					good = false
					break
				}
				d = dd
			}
			if good {
				lins = append(lins, linAuto{phi: ph, init: it, d: d})
				sub[ct] = Add(it, Mul(BigC(d), k))
			}
		}
		for id, o := range nb.Heap {
			if pre.Heap[id] == nil || pre.Heap[id] == o {
				continue
			}
			leaves(o.V, nil, func(path []int, v *Term) {
				iv := leafAt(pre.Heap[id].V, path)
				if iv == nil || iv == v || v.Sort != "Int" || len(v.Args) > 0 {
					return
				}
				var d *big.Int
				for _, bs := range backs {
					ev := leafAt(bs.st.Heap[id].V, path)
					if ev == nil {
						return
					}
					dd := constDelta(ev, v)
					if dd == nil || (d != nil && d.Cmp(dd) != 0) {
						return
					}
					d = dd
				}
				lins = append(lins, linAuto{obj: id, path: path, init: iv, d: d})
				sub[v] = Add(iv, Mul(BigC(d), k))
			})
		}
	}
	// the state at an arbitrary iteration
	n := cur
	n.Heap = nb.Heap
	for _, f := range nb.Facts[len(pre.Facts):] {
		n.assume(f)
	}
	if len(sub) > 0 {
		for id, o := range n.Heap {
			if pre.Heap[id] == o {
				continue
			}
			c := *o
			c.V = substVal(o.V, sub)
			n.Heap[id] = &c
		}
		for i, f := range n.Facts {
			n.Facts[i] = subst(f, sub)
		}
	}
	f := n.top()
	for i, ph := range phis {
		f.Env[ph] = substVal(curPhi[i], sub)
	}
	n.assume(Le(IntC(0), k))
	lc := &LoopCtx{Header: h, Body: lp.Body, K: k, Spec: spec, Ord: ord, Lin: lins, Pre: pre}
	f.Loops[h] = lc
	f.Idx = len(phis)
	// guard-derived fact
	if g := x.guardTerm(n, lp); g != nil {
		ok := true
		walk(g, func(t *Term) {
			if len(t.Args) == 0 && t != k {
				if j := strings.LastIndexByte(t.Op, '!'); j >= 0 {
					var num int
					if _, err := fmt.Sscanf(t.Op[j+1:], "%d", &num); err == nil && num > mark {
						ok = false
					}
				}
			}
		})
		if ok {
			gp := subst(g, map[*Term]*Term{k: Sub(k, IntC(1))})
			n.assume(Or(Eq(k, IntC(0)), gp))
			// a bound such as k-1 < B, together with 0 <= B, gives k <= B
			b := gp
			if b.Op == "not" && b.Args[0].Op == "<=" {
				// B <= k-1 negated: k <= B
				lin := Le(b.Args[0].Args[1], Sub(b.Args[0].Args[0], IntC(1)))
				zero := subst(lin, map[*Term]*Term{k: IntC(0)})
				if zero == True {
					n.assume(lin)
				}
			}
		}
	}
	x.assumeInv(n, lc)
	lc.Head = n.clone()
	if x.dry == 0 && os_canary {
		x.canary = append(x.canary, &Obl{Func: x.fname(), Name: fmt.Sprintf("reachable/loop%d", ord), Facts: append([]*Term{}, n.Facts...), Goal: False, Mode: x.mode})
	}
	return []*State{n}
}

var os_canary = true

func leafAt(v Value, path []int) *Term {
	for _, i := range path {
		sv, ok := v.(*StructV)
		if !ok {
			return nil
		}
		v = sv.F[i]
	}
	t, _ := v.(*Term)
	return t
}

func leaves(v Value, path []int, f func([]int, *Term)) {
	switch y := v.(type) {
	case *Term:
		f(append([]int{}, path...), y)
	case *StructV:
		for i, e := range y.F {
			leaves(e, append(append([]int{}, path...), i), f)
		}
	}
}

func substVal(v Value, m map[*Term]*Term) Value {
	if len(m) == 0 {
		return v
	}
	switch y := v.(type) {
	case *Term:
		return subst(y, m)
	case *StructV:
		n := &StructV{T: y.T, F: make([]Value, len(y.F))}
		for i, e := range y.F {
			n.F[i] = substVal(e, m)
		}
		return n
	case *SliceV:
		return &SliceV{y.Obj, subst(y.Off, m), subst(y.Len, m)}
	case *IfaceV:
		return &IfaceV{y.T, substVal(y.V, m)}
	}
	return v
}

func walk(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				rec(a)
			}
		}
	}
	rec(t)
}

func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.Obj == y.Obj && x.Off == y.Off && x.Len == y.Len
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Obj != y.Obj || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	case *StreamV:
		y, ok := b.(*StreamV)
		return ok && x.Obj == y.Obj
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.Obj == y.Obj
	case *ClosV:
		y, ok := b.(*ClosV)
		if !ok || x.Fn != y.Fn {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) havocPhi(nb *State, ph *ssa.Phi, init, next Value) Value {
	t := ph.Type()
	name := ph.Comment
	if name == "" {
		name = ph.Name()
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		c := Fresh(name, sortOf(t))
		o := nb.newObj("array", name, t, c)
		if sv, ok := init.(*SliceV); ok {
			o.Links = []int{sv.Obj}
			io := nb.mut(sv.Obj)
			io.Links = addLink(io.Links, o.ID)
		}
		return &SliceV{o.ID, IntC(0), sqLen(c)}
	case *types.Pointer, *types.Signature, *types.Map:
		unsupported("loop changes pointer variable %s", name)
	}
	if hasStream(init) || hasStream(next) {
		unsupported("loop changes stream variable %s", name)
	}
	return expand(t, freshOf(name, t))
}

func hasStream(v Value) bool {
	switch y := v.(type) {
	case *StreamV:
		return true
	case *IfaceV:
		if _, ok := y.V.(*PtrV); ok {
			return true
		}
	case *PtrV:
		return true
	}
	return false
}

func (x *Exec) widen(nb *State, o *Object, a, b Value, mark int) (Value, bool) {
	if sameVal(a, b) {
		return a, false
	}
	switch y := a.(type) {
	case *Term:
		// already a symbol this loop has havocked: keep
		if len(y.Args) == 0 && strings.HasPrefix(y.Op, "hv$") {
			if j := strings.LastIndexByte(y.Op, '!'); j >= 0 {
				if num, err := strconv.Atoi(y.Op[j+1:]); err == nil && num > mark {
					return a, false
				}
			}
		}
		n := Fresh("hv$"+o.Name, y.Sort)
		if o.Kind == "array" && isSeqSort(y.Sort) {
			nb.assume(Eq(sqLen(n), sqLen(y)))
		}
		if r, ok := symRange[y.Op]; ok && y.Sort == "Int" {
			symRange[n.Op] = r
		}
		if y.Sort == "Int" {
			if _, ok := symRange[n.Op]; !ok && o.T != nil {
				noteRange(n, o.T)
			}
		}
		return n, true
	case *StructV:
		z, ok := b.(*StructV)
		if !ok {
			if zt, ok2 := b.(*Term); ok2 {
				z = expand(y.T, zt).(*StructV)
			} else {
				unsupported("loop changes the shape of %s", o.Name)
			}
		}
		n := &StructV{T: y.T, F: append([]Value{}, y.F...)}
		ch := false
		st := y.T.Underlying().(*types.Struct)
		for i := range y.F {
			w, c := x.widen(nb, &Object{Name: o.Name + "." + st.Field(i).Name(), T: st.Field(i).Type()}, y.F[i], z.F[i], mark)
			n.F[i] = w
			ch = ch || c
		}
		return n, ch
	case *IfaceV, NilV:
		if o.T != nil {
			if _, ok := o.T.Underlying().(*types.Interface); ok {
				if !hasStream(a) && !hasStream(b) {
					return Fresh("hv$"+o.Name, "If"), true
				}
			}
		}
	case *SliceV:
		if o.T != nil && !func() bool { _, ok := b.(*SliceV); return !ok }() || true {
			if o.T != nil {
				return Fresh("hv$"+o.Name, sortOf(o.T)), true
			}
		}
	}
	unsupported("loop changes %s (%T)", o.Name, a)
	return nil, false
}

// guardTerm evaluates the loop condition in the header block (nil when not a simple guard).
func (x *Exec) guardTerm(s *State, lp *Loop) *Term {
	h := s.top().Block
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	in0, in1 := lp.Body[h.Succs[0]], lp.Body[h.Succs[1]]
	if in0 == in1 {
		return nil
	}
	d := s.clone()
	depth := len(d.Frames)
	x.dry++
	outs := x.explore(d, func(q *State) bool {
		return len(q.Frames) < depth || (len(q.Frames) == depth && (q.top().Block != h || q.top().Idx == len(h.Instrs)-1))
	})
	x.dry--
	if len(outs) != 1 || outs[0].top().Block != h || len(outs[0].Frames) != depth {
		return nil
	}
	c, ok := x.val(outs[0], iff.Cond).(*Term)
	if !ok {
		return nil
	}
	if in1 {
		c = Not(c)
	}
	return c
}

func (x *Exec) constGuard(s *State, lp *Loop) bool {
	d := s.clone()
	h := d.top().Block
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	x.evalPhis(d)
	g := x.guardTerm(d, lp)
	if g == nil {
		// header may contain calls; try a few more forms: not constant
		return false
	}
	if g == True || g == False {
		return true
	}
	_, ok := d.known(g)
	return ok
}

func (x *Exec) backEdge(s *State, lc *LoopCtx) []*State {
	phis, vals := x.phiVals(s)
	if lc.Dry {
		m := map[*ssa.Phi]Value{}
		for i, ph := range phis {
			m[ph] = vals[i]
		}
		*lc.Backs = append(*lc.Backs, &backState{s, m})
		return nil
	}
	fr := s.top()
	k1 := Add(lc.K, IntC(1))
	for _, l := range lc.Lin {
		var cur *Term
		if l.phi != nil {
			for i, ph := range phis {
				if ph == l.phi {
					cur = vals[i].(*Term)
				}
			}
		} else {
			cur = leafAt(s.Heap[l.obj].V, l.path)
		}
		x.oblige(s, fmt.Sprintf("loop%d/counter", lc.Ord), Eq(cur, Add(l.init, Mul(BigC(l.d), k1))))
	}
	for i, ph := range phis {
		fr.Env[ph] = vals[i]
	}
	lc2 := *lc
	lc2.K = k1
	x.checkInv(s, &lc2, "keep")
	return nil
}

// ---- instruction semantics without control flow ----

func (x *Exec) val(s *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &ClosV{Fn: c}
	case *ssa.Global:
		return x.P.global(s, c)
	case *ssa.Builtin:
		return nil
	}
	fr := s.top()
	if r, ok := fr.Env[v]; ok {
		return r
	}
	unsupported("value %s not available in %s", v.Name(), fr.Fn.Name())
	return nil
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			i := constant.ToInt(c.Value)
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return BigC(b)
		case u.Info()&types.IsBoolean != 0:
			return BoolC(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return strLit(constant.StringVal(c.Value))
		case u.Kind() == types.Float32:
			f, _ := constant.Float64Val(c.Value)
			return f32Const(float64(float32(f)))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f64Const(f)
		}
	case *types.Interface:
		return zeroTerm(t)
	}
	unsupported("constant of type %s", typeName(t))
	return nil
}

var strLits = map[string]string{} // op -> content

func strLit(v string) *Term {
	if v == "" {
		return sqEmpty(Bytes)
	}
	op := "strlit!" + fmt.Sprintf("%x", v)
	strLits[op] = v
	strLitLen[op] = len(v)
	return Var(op, Bytes)
}

func (x *Exec) term(s *State, v ssa.Value) *Term {
	r := x.val(s, v)
	return s.toTerm(r, v.Type())
}

func (x *Exec) peekT(s *State, v ssa.Value) *Term {
	r := x.val(s, v)
	return s.peek(r, v.Type())
}

func (x *Exec) set(s *State, in ssa.Value, v Value) {
	s.top().Env[in] = v
}

// wrapInt applies Go's wrap-around for the type when the value may leave its range.
func wrapInt(v *Term, t types.Type, arith bool) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	r, ok := intRange(b)
	if !ok {
		return v
	}
	iv := interval(v)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(r.lo) >= 0 && iv.hi.Cmp(r.hi) <= 0 {
		return v
	}
	width := new(big.Int).Add(new(big.Int).Sub(r.hi, r.lo), bigI(1))
	if r.lo.Sign() == 0 {
		return Mod(v, BigC(width))
	}
	half := new(big.Int).Neg(r.lo)
	return Sub(Mod(Add(v, BigC(half)), BigC(width)), BigC(half))
}

func (x *Exec) simple(s *State, in ssa.Instruction) []*State {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		kind := ""
		at, isArr := t.Underlying().(*types.Array)
		if isArr {
			kind = "array"
		}
		name := i.Comment
		o := s.newObj(kind, name, t, zeroValue(t))
		if isArr {
			o.Size = IntC(at.Len())
		}
		o.AllCap = true
		x.set(s, i, &PtrV{Obj: o.ID})
	case *ssa.Phi:
		unsupported("phi outside block entry")
	case *ssa.UnOp:
		x.unop(s, i)
	case *ssa.BinOp:
		x.set(s, i, x.binop(s, i))
	case *ssa.Convert:
		x.set(s, i, x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		x.set(s, i, x.val(s, i.X))
	case *ssa.ChangeInterface:
		x.set(s, i, x.val(s, i.X))
	case *ssa.MakeInterface:
		v := x.val(s, i.X)
		x.set(s, i, &IfaceV{i.X.Type(), v})
	case *ssa.MakeClosure:
		b := make([]Value, len(i.Bindings))
		for k, e := range i.Bindings {
			b[k] = x.val(s, e)
		}
		x.set(s, i, &ClosV{i.Fn.(*ssa.Function), b})
	case *ssa.MakeMap:
		o := s.newObj("map", "map", i.Type(), mpEmpty(sortOf(i.Type())))
		x.set(s, i, &MapV{o.ID})
	case *ssa.MakeSlice:
		n := x.val(s, i.Len).(*Term)
		x.oblige(s, "make-length", Le(IntC(0), n))
		s.assume(Le(IntC(0), n))
		c := x.val(s, i.Cap).(*Term)
		et := i.Type().Underlying().(*types.Slice).Elem()
		if n != c {
			x.oblige(s, "make-length", Le(n, c))
		}
		o := s.newObj("array", "make", i.Type(), sqRep(sortOf(i.Type()), n, zeroTerm(et)))
		o.AllCap = n == c
		if o.AllCap {
			o.Size = n
		}
		x.set(s, i, &SliceV{o.ID, IntC(0), n})
	case *ssa.MapUpdate:
		mv := x.val(s, i.Map)
		m, ok := mv.(*MapV)
		if !ok {
			unsupported("update of an immutable map")
		}
		o := s.mut(m.Obj)
		if o.Frozen {
			unsupported("write to map after it became part of an immutable value")
		}
		o.V = mpSet(o.V.(*Term), x.term(s, i.Key), x.term(s, i.Value))
	case *ssa.Store:
		p := x.ptr(s, x.val(s, i.Addr), i.Addr.Type())
		v := x.val(s, i.Val)
		s.storePath(p, v)
	case *ssa.FieldAddr:
		p := x.ptr(s, x.val(s, i.X), i.X.Type())
		np := &PtrV{Obj: p.Obj, Path: append(append([]PathEl{}, p.Path...), PathEl{Field: i.Field})}
		x.set(s, i, np)
	case *ssa.Field:
		x.set(s, i, x.fix(getField(s, x.val(s, i.X), i.X.Type(), i.Field), i.Type()))
	case *ssa.IndexAddr:
		x.indexAddr(s, i)
	case *ssa.Index:
		idx := x.val(s, i.Index).(*Term)
		c := x.peekT(s, i.X)
		x.oblige(s, "index", And(Le(IntC(0), idx), Lt(idx, sqLen(c))))
		s.assume(And(Le(IntC(0), idx), Lt(idx, sqLen(c))))
		x.set(s, i, x.fix(sqAt(c, idx), i.Type()))
	case *ssa.Lookup:
		x.lookup(s, i)
	case *ssa.Slice:
		x.slice(s, i)
	case *ssa.Extract:
		tv := x.val(s, i.Tuple).(TupleV)
		x.set(s, i, tv[i.Index])
	case *ssa.TypeAssert:
		return x.typeAssert(s, i)
	case *ssa.Range:
		x.rangeInit(s, i)
	case *ssa.Next:
		return x.next(s, i)
	case *ssa.RunDefers:
	default:
		unsupported("instruction %T", in)
	}
	return nil
}

// fix expands struct terms lazily: terms stay terms.
func (x *Exec) fix(v Value, t types.Type) Value { return v }

// ptr coerces a pointer value; immutable pointers become views of a frozen object.
func (x *Exec) ptr(s *State, v Value, t types.Type) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			x.oblige(s, "nil-dereference", False)
			s.Dead = true
			unsupported("nil dereference")
		}
		return p
	case NilV:
		x.oblige(s, "nil-dereference", False)
		s.Dead = true
		panic(verr{"nil dereference"})
	case *Term:
		et := t.Underlying().(*types.Pointer).Elem()
		if isBytesLike(et) {
			unsupported("stored pointer to %s", typeName(et))
		}
		nz := Not(Eq(p, zeroTerm(t)))
		x.oblige(s, "nil-dereference", nz)
		s.assume(nz)
		o := s.newObj("", "deref", et, App("deref_"+p.Sort, sortOf(et), p))
		o.Frozen = true
		return &PtrV{Obj: o.ID}
	}
	unsupported("pointer %T", v)
	return nil
}

func (x *Exec) unop(s *State, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		v := x.val(s, i.X)
		if g, ok := i.X.(*ssa.Global); ok {
			x.set(s, i, x.P.globalLoad(s, g))
			return
		}
		p := x.ptr(s, v, i.X.Type())
		x.set(s, i, x.loadVal(s, p))
	case token.NOT:
		x.set(s, i, Not(x.val(s, i.X).(*Term)))
	case token.SUB:
		a := x.val(s, i.X).(*Term)
		if a.Sort == "F64" || a.Sort == "F32" {
			x.set(s, i, App(strings.ToLower(a.Sort)+".neg", a.Sort, a))
			return
		}
		x.set(s, i, wrapInt(Neg(a), i.Type(), true))
	case token.XOR:
		a := x.val(s, i.X).(*Term)
		if isUnsigned(i.Type()) {
			b := i.Type().Underlying().(*types.Basic)
			r, _ := intRange(b)
			x.set(s, i, Sub(BigC(r.hi), a))
		} else {
			x.set(s, i, Sub(IntC(-1), a))
		}
	default:
		unsupported("unary %s", i.Op)
	}
}

// loadVal copies a struct value out of memory.
func (x *Exec) loadVal(s *State, p *PtrV) Value {
	v := s.loadPath(p)
	return v
}

func (x *Exec) indexAddr(s *State, i *ssa.IndexAddr) {
	idx := x.val(s, i.Index).(*Term)
	bv := x.val(s, i.X)
	switch b := bv.(type) {
	case *SliceV:
		ok := And(Le(IntC(0), idx), Lt(idx, b.Len))
		x.oblige(s, "index", ok)
		s.assume(ok)
		x.set(s, i, &PtrV{Obj: b.Obj, Path: []PathEl{{Index: Add(b.Off, idx)}}})
	case *Term:
		if strings.HasPrefix(b.Sort, "Pt_") {
			unsupported("index through stored array pointer")
		}
		ok := And(Le(IntC(0), idx), Lt(idx, sqLen(b)))
		x.oblige(s, "index", ok)
		s.assume(ok)
		o := s.newObj("array", "view", i.X.Type(), b)
		o.Frozen = true
		x.set(s, i, &PtrV{Obj: o.ID, Path: []PathEl{{Index: idx}}})
	case *PtrV:
		c := s.loadPath(b).(*Term)
		ok := And(Le(IntC(0), idx), Lt(idx, sqLen(c)))
		x.oblige(s, "index", ok)
		s.assume(ok)
		x.set(s, i, &PtrV{Obj: b.Obj, Path: append(append([]PathEl{}, b.Path...), PathEl{Index: idx})})
	default:
		unsupported("index into %T", bv)
	}
}

func (x *Exec) lookup(s *State, i *ssa.Lookup) {
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		idx := x.val(s, i.Index).(*Term)
		c := x.peekT(s, i.X)
		ok := And(Le(IntC(0), idx), Lt(idx, sqLen(c)))
		x.oblige(s, "index", ok)
		s.assume(ok)
		x.set(s, i, sqAt(c, idx))
		return
	}
	m := x.peekT(s, i.X)
	k := x.term(s, i.Index)
	et := i.X.Type().Underlying().(*types.Map).Elem()
	has := mpHas(m, k)
	v := Ite(has, mpGet(m, k), zeroTerm(et))
	if i.CommaOk {
		x.set(s, i, TupleV{v, has})
	} else {
		x.set(s, i, v)
	}
}

func (x *Exec) slice(s *State, i *ssa.Slice) {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(s, v).(*Term)
	}
	bv := x.val(s, i.X)
	switch b := bv.(type) {
	case *Term:
		lo := opt(i.Low, IntC(0))
		hi := opt(i.High, sqLen(b))
		ok := And(Le(IntC(0), lo), Le(lo, hi), Le(hi, sqLen(b)))
		x.oblige(s, "slice-bounds", ok)
		s.assume(ok)
		x.set(s, i, sqDrop(sqTake(b, hi), lo))
	case *SliceV:
		lo := opt(i.Low, IntC(0))
		hi := opt(i.High, b.Len)
		cap := Sub(sqLen(s.Heap[b.Obj].V.(*Term)), b.Off)
		ok := And(Le(IntC(0), lo), Le(lo, hi), Le(hi, cap))
		if i.High == nil {
			ok = And(Le(IntC(0), lo), Le(lo, hi))
		}
		x.oblige(s, "slice-bounds", ok)
		s.assume(ok)
		x.set(s, i, &SliceV{b.Obj, Add(b.Off, lo), Sub(hi, lo)})
	case *PtrV:
		if len(b.Path) != 0 {
			unsupported("slice of an array inside a structure")
		}
		c := s.loadPath(b).(*Term)
		lo := opt(i.Low, IntC(0))
		hi := opt(i.High, sqLen(c))
		ok := And(Le(IntC(0), lo), Le(lo, hi), Le(hi, sqLen(c)))
		x.oblige(s, "slice-bounds", ok)
		s.assume(ok)
		x.set(s, i, &SliceV{b.Obj, lo, Sub(hi, lo)})
	default:
		unsupported("slice of %T", bv)
	}
}

func (x *Exec) typeAssert(s *State, i *ssa.TypeAssert) []*State {
	v := x.val(s, i.X)
	at := i.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	switch y := v.(type) {
	case *IfaceV:
		var ok bool
		var r Value
		if toIface {
			ok = types.Implements(y.T, at.Underlying().(*types.Interface))
			r = y
		} else {
			ok = types.Identical(y.T, at)
			r = y.V
		}
		if !ok {
			r = zeroValue(at)
		}
		if i.CommaOk {
			x.set(s, i, TupleV{r, BoolC(ok)})
		} else {
			x.oblige(s, "type-assertion", BoolC(ok))
			if !ok {
				s.Dead = true
				return nil
			}
			x.set(s, i, r)
		}
		return nil
	case *Term:
		if toIface {
			nn := Not(Eq(y, nilI))
			if types.Implements(i.X.Type(), at.Underlying().(*types.Interface)) {
				if i.CommaOk {
					x.set(s, i, TupleV{y, nn})
				} else {
					x.oblige(s, "type-assertion", nn)
					s.assume(nn)
					x.set(s, i, y)
				}
				return nil
			}
			ok := App("implements_"+mangle(at), "Bool", App("tagI", "Int", y))
			if i.CommaOk {
				x.set(s, i, TupleV{Ite(ok, y, nilI), ok})
			} else {
				x.oblige(s, "type-assertion", ok)
				s.assume(ok)
				x.set(s, i, y)
			}
			return nil
		}
		ok := IsType(at, y)
		if i.CommaOk {
			// split so that the value is used only where it has the type
			if v, kn := s.known(ok); kn {
				if v {
					x.set(s, i, TupleV{x.unboxVal(at, y), True})
				} else {
					x.set(s, i, TupleV{zeroValue(at), False})
				}
				return nil
			}
			a, b := s, s.clone()
			a.assume(ok)
			b.assume(Not(ok))
			x.set(a, i, TupleV{x.unboxVal(at, y), True})
			x.set(b, i, TupleV{zeroValue(at), False})
			a.top().Idx++
			b.top().Idx++
			return []*State{a, b}
		}
		x.oblige(s, "type-assertion", ok)
		s.assume(ok)
		x.set(s, i, x.unboxVal(at, y))
		return nil
	}
	unsupported("type assertion on %T", v)
	return nil
}

func (x *Exec) unboxVal(t types.Type, y *Term) Value { return Unbox(t, y) }

func (x *Exec) rangeInit(s *State, i *ssa.Range) {
	if _, ok := i.X.Type().Underlying().(*types.Basic); ok {
		unsupported("range over string")
	}
	mt := i.X.Type().Underlying().(*types.Map)
	m := x.peekT(s, i.X)
	ks := "Sq_" + strings.ReplaceAll(sortOf(mt.Key()), "_", "-")
	if _, ok := seqElem[ks]; !ok {
		seqElem[ks] = sortOf(mt.Key())
	}
	enc := Fresh("keys", ks)
	o := s.newObj("iter", "iter", nil, IntC(0))
	s.assume(App("mp.enum_"+m.Sort[3:], "Bool", m, enc))
	s.assume(Eq(sqLen(enc), mpLen(m)))
	// the iterated map must not change while iterating
	it := &IterV{Obj: o.ID, M: m, Enc: enc}
	if mv, ok := x.val(s, i.X).(*MapV); ok {
		o2 := s.mut(o.ID)
		o2.Links = []int{mv.Obj}
		s.Heap[o.ID] = o2
	}
	x.set(s, i, it)
}

func (x *Exec) next(s *State, i *ssa.Next) []*State {
	it := x.val(s, i.Iter).(*IterV)
	o := s.mut(it.Obj)
	for _, l := range o.Links {
		if mo, ok := s.Heap[l]; ok && mo.V.(*Term) != it.M {
			unsupported("map changed while it is iterated")
		}
	}
	pos := o.V.(*Term)
	more := Lt(pos, sqLen(it.Enc))
	key := sqAt(it.Enc, pos)
	a, b := s, s.clone()
	emit := func(q *State, ok bool) *State {
		if ok {
			oo := q.mut(it.Obj)
			oo.V = Add(pos, IntC(1))
			q.assume(more)
			q.assume(Le(IntC(0), pos))
			q.assume(mpHas(it.M, key))
			x.set(q, i, TupleV{True, key, mpGet(it.M, key)})
		} else {
			q.assume(Eq(pos, sqLen(it.Enc)))
			x.set(q, i, TupleV{False, key, mpGet(it.M, key)})
		}
		q.top().Idx++
		return q
	}
	return []*State{emit(a, true), emit(b, false)}
}

func sortInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

var _ = token.NoPos
