package main

import (
	"fmt"
	"go/types"
	"math/big"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tv struct {
	v Value
	t types.Type // may be nil when v is a term
}

type Clause struct {
	Name string
	E    *SX
	// gives a name to what the method answers: justified by the method being a
	// function of its arguments
	Defines bool
}

type varBind struct {
	name string
	t    types.Type
}

type LoopSpec struct {
	Vars  []varBind
	Inv   []Clause
	Hints []*SX // evaluated when the invariant is re-established
	Exit  []*SX // evaluated when the loop is left through its header
	Entry []*SX // evaluated at loop entry (init)
	Body  []*SX // evaluated (assumed) at the start of an iteration
}

type Contract struct {
	Opaque    []string // definitions not needed for this function's obligations
	Name      string
	Fn        *ssa.Function
	Params    []string
	Results   []string
	Readers   []*SX
	Exact     map[string]bool // readers that deliver all that is asked for or fail (ErrReader)
	Writers   []*SX
	Buffers   map[string]bool // writers that are memory buffers: they never fail
	Req       []Clause
	Ens       []Clause
	Mod       []*SX
	Loops     map[int]*LoopSpec
	Pre       []*SX
	Post      []*SX
	MergeAll  bool
	Real      bool
	Trusted   bool
	Pure      bool
	Fresh     bool
	SX        *SX
	Iface     bool
	Via       bool
	ViaHints  []*SX
	ViaOpaque []string
	Uses      []string
	Ghosts    []varSort // parameters for the proof only
}

type SpecFun struct {
	Name   string
	Params []varSort
	Ret    string
	Body   *SX
	Kind   string // def rec decl macro
	Fuel   int
	Where  string
	body   *Term
	vars   []*Term
}

type varSort struct {
	name, sort string
	t          types.Type
}

type Axiom struct {
	Name  string
	Term  *Term
	Kind  string // trusted, lemma, def, theory
	Syms  map[string]bool
	Order int
	info  *axInfo
}

type Lemma struct {
	Name    string
	Params  []varSort
	Req     []*SX
	Ens     []*SX
	Measure *SX
	Hints   []*SX
	Auto    [][]*SX
	Real    bool
	Where   string
	Order   int
	Group   string
	Uses    []string
	Opaque  []string
}

type Property struct {
	ID     string
	By     map[string]string // function or lemma -> the property whose check proves it
	Roots  []string
	Lemmas []string
	SX     *SX
	Note   string
}

type Spec struct {
	P         *Prog
	Funs      map[string]*SpecFun
	FunOrder  []*SpecFun
	Contracts map[string]*Contract // by fnName
	Imeth     map[string]*Contract // "iface.Method"
	Obs       map[string]bool      // observer methods "iface.Method"
	Impl      map[string][]types.Type
	Lemmas    map[string]*Lemma
	LemOrder  []*Lemma
	Axioms    []*Axiom
	Props     map[string]*Property
	PropOrder []string
	Trusted   []string
	TrustedAx map[string]bool
	Opaque    map[string]bool
	obsAxioms map[string]bool
	order     int
	Missing   []string
	usedLemma map[string]bool
	pending   []func()
	obsReg    map[string]obsInfo
}

func loadSpec(p *Prog, dir string) *Spec {
	sp := &Spec{P: p, Funs: map[string]*SpecFun{}, Contracts: map[string]*Contract{}, Imeth: map[string]*Contract{}, Obs: map[string]bool{}, Impl: map[string][]types.Type{}, Lemmas: map[string]*Lemma{}, Props: map[string]*Property{}, obsAxioms: map[string]bool{}, Opaque: map[string]bool{}, usedLemma: map[string]bool{}}
	p.Spec = sp
	sp.obsReg = map[string]obsInfo{}
	obsReduce = func(op, srt string, args []*Term) *Term {
		if i, ok := sp.obsReg[op]; ok {
			return sp.obsApp(i.it, i.m, args[0], args[1:], i.rt)
		}
		return App(op, srt, args...)
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		xs, err := parseSXFile(f)
		if err != nil {
			die("spec: %v", err)
		}
		for _, x := range xs {
			sp.top(x)
		}
	}
	for _, f := range sp.pending {
		f()
	}
	return sp
}

func die(f string, a ...interface{}) { panic(fatal{fmt.Sprintf(f, a...)}) }

type fatal struct{ msg string }

func (sp *Spec) sortOf(a *SX) varSort {
	switch a.Atom {
	case "Int", "Bool", "F64", "F32", "If", "Time", "Real", "Fn", "Opq":
		return varSort{"", a.Atom, nil}
	case "Bytes":
		return varSort{"", Bytes, types.Typ[types.String]}
	}
	if a.Head() == "Seq" {
		e := sp.sortOf(a.List[1])
		if e.t != nil {
			t := types.NewSlice(e.t)
			return varSort{"", sortOf(t), t}
		}
		s := "Sq_" + strings.ReplaceAll(e.sort, "_", "-")
		if _, ok := seqElem[s]; !ok {
			seqElem[s] = e.sort
		}
		return varSort{"", s, nil}
	}
	t := sp.P.findType(a.Atom)
	if t == nil {
		die("%s: unknown type %s", a.Where(), a)
	}
	return varSort{"", sortOf(t), t}
}

func (sp *Spec) params(x *SX) []varSort {
	var out []varSort
	for _, p := range x.List {
		v := sp.sortOf(p.List[1])
		v.name = p.List[0].Atom
		out = append(out, v)
	}
	return out
}

func clause(x *SX) Clause {
	if len(x.List) == 3 && x.List[1].IsAtom() {
		return Clause{Name: x.List[1].Atom, E: x.List[2]}
	}
	return Clause{E: x.List[1]}
}

func (sp *Spec) top(x *SX) {
	sp.order++
	switch x.Head() {
	case "def", "rec", "macro":
		f := &SpecFun{Name: x.List[1].Atom, Kind: x.Head(), Where: x.Where()}
		if x.Head() == "macro" {
			for _, a := range x.List[2].List {
				f.Params = append(f.Params, varSort{name: a.Atom})
			}
			f.Body = x.List[3]
		} else {
			f.Params = sp.params(x.List[2])
			f.Ret = sp.sortOf(x.List[3]).sort
			f.Body = x.List[4]
			f.Fuel = 1
			for _, o := range x.List[5:] {
				if o.Head() == "fuel" {
					f.Fuel, _ = strconv.Atoi(o.List[1].Atom)
				}
				if o.Head() == "range" {
					symRange[f.Name] = parseRange(o)
				}
			}
		}
		sp.addFun(f, x)
	case "decl":
		f := &SpecFun{Name: x.List[1].Atom, Kind: "decl", Where: x.Where()}
		for i, a := range x.List[2].List {
			v := sp.sortOf(a)
			v.name = fmt.Sprintf("a%d", i)
			f.Params = append(f.Params, v)
		}
		f.Ret = sp.sortOf(x.List[3]).sort
		for _, o := range x.List[4:] {
			if o.Head() == "range" {
				symRange[f.Name] = parseRange(o)
			}
		}
		sp.addFun(f, x)
	case "axiom":
		vs := sp.params(x.List[2])
		env := &Env{sp: sp, vars: map[string]tv{}}
		var bound []*Term
		for _, v := range vs {
			b := Var("?"+v.name, v.sort)
			bound = append(bound, b)
			env.vars[v.name] = tv{b, v.t}
		}
		body := env.term(x.List[3])
		var pats [][]*Term
		for _, p := range x.List[4:] {
			var ps []*Term
			for _, e := range p.List[1:] {
				ps = append(ps, env.term(e))
			}
			pats = append(pats, ps)
		}
		t := Forall(bound, body, pats...)
		sp.Axioms = append(sp.Axioms, &Axiom{Name: x.List[1].Atom, Term: t, Kind: "trusted", Order: sp.order})
	case "lemma":
		l := &Lemma{Name: x.List[1].Atom, Params: sp.params(x.List[2]), Where: x.Where(), Order: sp.order}
		for _, c := range x.List[3:] {
			switch c.Head() {
			case "requires":
				l.Req = append(l.Req, c.List[1])
			case "ensures":
				l.Ens = append(l.Ens, c.List[1])
			case "measure":
				l.Measure = c.List[1]
			case "hint":
				l.Hints = append(l.Hints, c.List[1:]...)
			case "auto":
				l.Auto = append(l.Auto, c.List[1:])
			case "group": // proved together by induction over a shared measure
				l.Group = c.List[1].Atom
				for _, o := range sp.LemOrder {
					if o.Group == l.Group && o.Order < l.Order {
						l.Order = o.Order
					}
				}
			case "opaque":
				for _, a := range c.List[1:] {
					l.Opaque = append(l.Opaque, a.Atom)
				}
			case "real":
				l.Real = true
			case "uses":
				for _, a := range c.List[1:] {
					l.Uses = append(l.Uses, a.Atom)
				}
			default:
				die("%s: bad lemma clause", c.Where())
			}
		}
		if sp.Lemmas[l.Name] != nil {
			die("%s: lemma %s is stated twice", x.Where(), l.Name)
		}
		sp.Lemmas[l.Name] = l
		sp.LemOrder = append(sp.LemOrder, l)
		if len(l.Auto) > 0 {
			// proved separately; available to everything after it
			env := &Env{sp: sp, vars: map[string]tv{}}
			var bound []*Term
			for _, v := range l.Params {
				b := Var("?"+v.name, v.sort)
				bound = append(bound, b)
				env.vars[v.name] = tv{b, v.t}
			}
			var req, ens []*Term
			for _, r := range l.Req {
				req = append(req, env.term(r))
			}
			for _, r := range l.Ens {
				ens = append(ens, env.term(r))
			}
			var pats [][]*Term
			for _, p := range l.Auto {
				var ps []*Term
				for _, e := range p {
					ps = append(ps, env.term(e))
				}
				pats = append(pats, ps)
			}
			sp.Axioms = append(sp.Axioms, &Axiom{Name: "lemma " + l.Name, Term: Forall(bound, Implies(And(req...), And(ens...)), pats...), Kind: "lemma", Order: sp.order})
		}
	case "func", "imethod":
		sp.contract(x)
	case "iface":
		name := x.List[1].Atom
		for _, c := range x.List[2:] {
			switch c.Head() {
			case "obs":
				t := sp.ifaceType(name, x)
				for _, m := range c.List[1:] {
					sp.Obs[typeName(t)+"."+m.Atom] = true
				}
			case "impl":
				t := sp.ifaceType(name, x)
				for _, m := range c.List[1:] {
					it := sp.P.findType(m.Atom)
					if it == nil {
						die("%s: unknown type %s", c.Where(), m.Atom)
					}
					sp.Impl[typeName(t)] = append(sp.Impl[typeName(t)], it)
					boxFor(it)
				}
			}
		}
	case "property":
		pr := &Property{ID: x.List[1].Atom, SX: x, By: map[string]string{}}
		for _, c := range x.List[2:] {
			switch c.Head() {
			case "roots":
				for _, a := range c.List[1:] {
					pr.Roots = append(pr.Roots, a.Atom)
				}
			case "lemmas":
				for _, a := range c.List[1:] {
					pr.Lemmas = append(pr.Lemmas, a.Atom)
				}
			case "by": // (by PROPERTY name...): proved by the check of that property
				for _, a := range c.List[2:] {
					pr.By[a.Atom] = c.List[1].Atom
				}
			}
		}
		sp.Props[pr.ID] = pr
		sp.PropOrder = append(sp.PropOrder, pr.ID)
	case "foreach": // (foreach (A B) ((a1 b1) (a2 b2)) forms...): textual instances
		names := x.List[1].List
		for _, row := range x.List[2].List {
			m := map[string]*SX{}
			for i, n := range names {
				m["{"+n.Atom+"}"] = row.List[i]
			}
			for _, f := range x.List[3:] {
				sp.top(f.replace(m))
			}
		}
	default:
		die("%s: unknown form %s", x.Where(), x.Head())
	}
}

func parseRange(o *SX) rng {
	var r rng
	p := func(a string) *big.Int {
		if strings.HasPrefix(a, "2^") {
			k, _ := strconv.Atoi(a[2:])
			return new(big.Int).Sub(pow2(uint(k)), bigI(1))
		}
		b, ok := new(big.Int).SetString(a, 10)
		if !ok {
			return nil
		}
		return b
	}
	r.lo = p(o.List[1].Atom)
	if len(o.List) > 2 {
		r.hi = p(o.List[2].Atom)
	}
	return r
}

func (sp *Spec) ifaceType(name string, x *SX) types.Type {
	t := sp.P.findType(name)
	if t == nil {
		die("%s: unknown interface %s", x.Where(), name)
	}
	return t
}

func (sp *Spec) addFun(f *SpecFun, x *SX) {
	if _, dup := sp.Funs[f.Name]; dup {
		die("%s: %s defined twice", x.Where(), f.Name)
	}
	sp.Funs[f.Name] = f
	sp.FunOrder = append(sp.FunOrder, f)
	if f.Kind == "def" || f.Kind == "rec" {
		sp.order++
		order := sp.order
		sp.pending = append(sp.pending, func() { sp.finishFun(f, order) })
	}
}

// finishFun evaluates a definition once every symbol is known.
func (sp *Spec) finishFun(f *SpecFun, order int) {
	{
		env := &Env{sp: sp, vars: map[string]tv{}}
		for _, v := range f.Params {
			b := Var("?"+v.name, v.sort)
			f.vars = append(f.vars, b)
			env.vars[v.name] = tv{b, v.t}
		}
		f.body = env.term(f.Body)
		if f.body.Sort != f.Ret {
			die("%s: %s has sort %s, expected %s", f.Where, f.Name, f.body.Sort, f.Ret)
		}
		app := App(f.Name, f.Ret, f.vars...)
		if f.Kind == "def" {
			if len(f.vars) == 0 {
				sp.Axioms = append(sp.Axioms, &Axiom{Name: "def " + f.Name, Term: Eq(app, f.body), Kind: "def", Order: order})
			} else {
				sp.Axioms = append(sp.Axioms, &Axiom{Name: "def " + f.Name, Term: Forall(f.vars, raw("=", "Bool", app, f.body), []*Term{app}), Kind: "def", Order: order})
			}
		}
	}
}

func (sp *Spec) contract(x *SX) {
	c := &Contract{Name: x.List[1].Atom, Loops: map[int]*LoopSpec{}, SX: x, Iface: x.Head() == "imethod"}
	for _, q := range x.List[2:] {
		switch q.Head() {
		case "params":
			for _, a := range q.List[1:] {
				c.Params = append(c.Params, a.Atom)
			}
		case "results":
			for _, a := range q.List[1:] {
				c.Results = append(c.Results, a.Atom)
			}
		case "reader":
			c.Readers = append(c.Readers, q.List[1:]...)
		case "exact":
			c.Readers = append(c.Readers, q.List[1:]...)
			if c.Exact == nil {
				c.Exact = map[string]bool{}
			}
			for _, e := range q.List[1:] {
				c.Exact[e.String()] = true
			}
		case "ghost":
			for _, v := range q.List[1:] {
				s := sp.sortOf(v.List[1])
				s.name = v.List[0].Atom
				c.Ghosts = append(c.Ghosts, s)
			}
		case "writer":
			c.Writers = append(c.Writers, q.List[1:]...)
		case "buffer":
			c.Writers = append(c.Writers, q.List[1:]...)
			if c.Buffers == nil {
				c.Buffers = map[string]bool{}
			}
			for _, e := range q.List[1:] {
				c.Buffers[e.String()] = true
			}
		case "requires":
			c.Req = append(c.Req, clause(q))
		case "ensures":
			c.Ens = append(c.Ens, clause(q))
		case "defines":
			cl := clause(q)
			cl.Defines = true
			c.Ens = append(c.Ens, cl)
		case "modifies":
			c.Mod = append(c.Mod, q.List[1:]...)
		case "hint":
			c.Post = append(c.Post, q.List[1:]...)
		case "hint-entry":
			c.Pre = append(c.Pre, q.List[1:]...)
		case "via":
			// imethod: an implementation's own contract must imply this one; elsewhere: hints for that step
			c.Via = true
			c.ViaHints = append(c.ViaHints, q.List[1:]...)
		case "via-opaque":
			for _, a := range q.List[1:] {
				c.ViaOpaque = append(c.ViaOpaque, a.Atom)
			}
		case "merge":
			c.MergeAll = true
		case "opaque":
			for _, a := range q.List[1:] {
				c.Opaque = append(c.Opaque, a.Atom)
			}
		case "real":
			c.Real = true
		case "trusted":
			c.Trusted = true
		case "fresh":
			c.Fresh = true
		case "loop":
			n, _ := strconv.Atoi(q.List[1].Atom)
			ls := &LoopSpec{}
			for _, e := range q.List[2:] {
				switch e.Head() {
				case "vars":
					for _, v := range e.List[1:] {
						vb := varBind{name: v.List[0].Atom}
						if len(v.List) > 1 {
							vb.t = sp.sortOf(v.List[1]).t
						}
						ls.Vars = append(ls.Vars, vb)
					}
				case "inv":
					ls.Inv = append(ls.Inv, clause(e))
				case "hint":
					ls.Hints = append(ls.Hints, e.List[1:]...)
				case "hint-body":
					ls.Body = append(ls.Body, e.List[1:]...)
				case "hint-entry":
					ls.Entry = append(ls.Entry, e.List[1:]...)
				case "hint-exit":
					ls.Exit = append(ls.Exit, e.List[1:]...)
				default:
					die("%s: bad loop clause %s", e.Where(), e.Head())
				}
			}
			c.Loops[n] = ls
		case "uses":
			for _, a := range q.List[1:] {
				c.Uses = append(c.Uses, a.Atom)
			}
		default:
			die("%s: bad contract clause %s", q.Where(), q.Head())
		}
	}
	if c.Iface {
		i := strings.LastIndexByte(c.Name, '.')
		t := sp.ifaceType(c.Name[:i], x)
		c.Name = typeName(t) + c.Name[i:]
		if sp.Imeth[c.Name] != nil {
			die("%s: a second contract for %s", x.Where(), c.Name)
		}
		sp.Imeth[c.Name] = c
		return
	}
	fn := sp.P.findFunc(c.Name)
	if fn == nil {
		sp.Missing = append(sp.Missing, c.Name)
		if sp.Contracts[c.Name] != nil {
			die("%s: a second contract for %s", x.Where(), c.Name)
		}
		sp.Contracts[c.Name] = c
		return
	}
	c.Fn = fn
	c.Name = sp.P.fnName(fn)
	if sp.Contracts[c.Name] != nil {
		die("%s: a second contract for %s", x.Where(), c.Name)
	}
	sp.Contracts[c.Name] = c
}

// ---- evaluation ----

type Env struct {
	sp   *Spec
	vars map[string]tv
	x    *Exec
	st   *State
	old  *State
	pre  *State // loop entry
	head *State // start of the current iteration
	k    *Term
	res  []Value
	lem  *Lemma
	lemM *Term
}

func (e *Env) with(name string, v tv) *Env {
	n := *e
	n.vars = make(map[string]tv, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func (e *Env) term(s *SX) *Term {
	v := e.eval(s)
	return e.asTerm(v, s)
}

func (e *Env) asTerm(v tv, s *SX) *Term {
	if t, ok := v.v.(*Term); ok {
		return t
	}
	if e.st == nil {
		die("%s: value %s needs a state", s.Where(), s)
	}
	if v.t == nil {
		die("%s: untyped value %s", s.Where(), s)
	}
	return e.st.peek(v.v, v.t)
}

func (e *Env) terms(xs []*SX) []*Term {
	out := make([]*Term, len(xs))
	for i, x := range xs {
		out[i] = e.term(x)
	}
	return out
}

func T(t *Term) tv { return tv{v: t} }

func (e *Env) eval(s *SX) (res tv) {
	if s.IsAtom() {
		return e.atom(s)
	}
	if len(s.List) == 0 {
		die("%s: empty expression", s.Where())
	}
	h := s.Head()
	a := s.List[1:]
	switch h {
	case "+":
		return T(Add(e.terms(a)...))
	case "-":
		if len(a) == 1 {
			return T(Neg(e.term(a[0])))
		}
		r := e.term(a[0])
		for _, q := range a[1:] {
			r = Sub(r, e.term(q))
		}
		return T(r)
	case "*":
		r := e.term(a[0])
		for _, q := range a[1:] {
			r = Mul(r, e.term(q))
		}
		return T(r)
	case "/":
		return T(raw("/", "Real", e.term(a[0]), e.term(a[1])))
	case "div":
		return T(Div(e.term(a[0]), e.term(a[1])))
	case "mod":
		return T(Mod(e.term(a[0]), e.term(a[1])))
	case "<=", "<", ">", ">=":
		ts := e.terms(a)
		var cs []*Term
		for i := 0; i+1 < len(ts); i++ {
			switch h {
			case "<=":
				cs = append(cs, Le(ts[i], ts[i+1]))
			case "<":
				cs = append(cs, Lt(ts[i], ts[i+1]))
			case ">":
				cs = append(cs, Gt(ts[i], ts[i+1]))
			case ">=":
				cs = append(cs, Ge(ts[i], ts[i+1]))
			}
		}
		return T(And(cs...))
	case "=":
		ts := e.terms(a)
		for i := 1; i < len(ts); i++ {
			if ts[i].Sort != ts[0].Sort {
				die("%s: sorts differ: %s and %s in %s", s.Where(), ts[0].Sort, ts[i].Sort, s)
			}
		}
		var cs []*Term
		for i := 0; i+1 < len(ts); i++ {
			cs = append(cs, Eq(ts[i], ts[i+1]))
		}
		return T(And(cs...))
	case "!=":
		return T(Not(Eq(e.term(a[0]), e.term(a[1]))))
	case "and":
		return T(And(e.terms(a)...))
	case "or":
		return T(Or(e.terms(a)...))
	case "not":
		return T(Not(e.term(a[0])))
	case "=>":
		r := e.term(a[len(a)-1])
		for i := len(a) - 2; i >= 0; i-- {
			r = Implies(e.term(a[i]), r)
		}
		return T(r)
	case "iff":
		return T(Eq(e.term(a[0]), e.term(a[1])))
	case "ite":
		c := e.term(a[0])
		if c == True {
			return e.eval(a[1])
		}
		if c == False {
			return e.eval(a[2])
		}
		x, y := e.eval(a[1]), e.eval(a[2])
		return tv{Ite(c, e.asTerm(x, a[1]), e.asTerm(y, a[2])), x.t}
	case "cond": // (cond (c e) ... (else e))
		var rec func(cs []*SX) *Term
		rec = func(cs []*SX) *Term {
			if cs[0].List[0].Atom == "else" {
				return e.term(cs[0].List[1])
			}
			if len(cs) == 1 {
				die("%s: cond without else", s.Where())
			}
			c := e.term(cs[0].List[0])
			return Ite(c, e.term(cs[0].List[1]), rec(cs[1:]))
		}
		return T(rec(a))
	case "forall", "exists":
		n := e
		var bound []*Term
		var guards []*Term
		for _, p := range a[0].List {
			vs := e.sp.sortOf(p.List[1])
			freshN++
			b := Var(fmt.Sprintf("?%s_%d", p.List[0].Atom, freshN), vs.sort)
			bound = append(bound, b)
			n = n.with(p.List[0].Atom, tv{b, vs.t})
			_ = guards
		}
		body := a[len(a)-1]
		var pats [][]*Term
		for _, p := range a[1 : len(a)-1] {
			if p.Head() == ":pat" {
				pats = append(pats, n.terms(p.List[1:]))
			}
		}
		bt := n.term(body)
		if h == "forall" {
			return T(Forall(bound, bt, pats...))
		}
		return T(Exists(bound, bt, pats...))
	case "let":
		n := e
		for _, p := range a[0].List {
			n = n.with(p.List[0].Atom, n.eval(p.List[1]))
		}
		return n.eval(a[1])
	case "old":
		n := *e
		if e.old == nil {
			die("%s: old outside a postcondition", s.Where())
		}
		n.st = e.old
		v := n.eval(a[0])
		return tv{n.asTerm(v, s), v.t}
	case "pre":
		n := *e
		if e.pre == nil {
			die("%s: pre outside a loop", s.Where())
		}
		n.st = e.pre
		if e.x != nil {
			n.vars = e.vars
		}
		// loop variables denote their value at loop entry
		if lv := e.vars["$prevars"]; lv.v != nil {
			n.vars = lv.v.(map[string]tv)
		}
		v := n.eval(a[0])
		return tv{n.asTerm(v, s), v.t}
	case "head": // in a loop's hints: the value at the start of this iteration ($k is already the next index)
		n := *e
		if e.head == nil {
			die("%s: head outside a loop hint", s.Where())
		}
		n.st = e.head
		if hv := e.vars["$headvars"]; hv.v != nil {
			n.vars = hv.v.(map[string]tv)
		}
		v := n.eval(a[0])
		return tv{n.asTerm(v, s), v.t}
	case ".":
		v := e.eval(a[0])
		for _, f := range a[1:] {
			v = e.field(v, f)
		}
		return v
	case "len":
		t := e.term(a[0])
		if isMapSort(t.Sort) {
			return T(mpLen(t))
		}
		if !isSeqSort(t.Sort) {
			die("%s: len of %s", s.Where(), t.Sort)
		}
		return T(sqLen(t))
	case "at":
		v := e.eval(a[0])
		t := e.asTerm(v, a[0])
		if !isSeqSort(t.Sort) {
			die("%s: at on sort %s", s.Where(), t.Sort)
		}
		var et types.Type
		if v.t != nil {
			switch u := v.t.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		return tv{sqAt(t, e.term(a[1])), et}
	case "cat":
		ts := e.terms(a)
		for _, t := range ts {
			if t.Sort != ts[0].Sort {
				die("%s: cat of %s and %s", s.Where(), ts[0].Sort, t.Sort)
			}
		}
		return T(sqCat(ts...))
	case "take":
		return T(sqTake(e.term(a[0]), e.term(a[1])))
	case "drop":
		return T(sqDrop(e.term(a[0]), e.term(a[1])))
	case "unit":
		t := e.term(a[0])
		s2 := "Sq_" + strings.ReplaceAll(t.Sort, "_", "-")
		if t.Sort == "Int" {
			s2 = Bytes
		}
		if len(a) > 1 {
			s2 = e.sp.sortOf(a[1]).sort
		}
		if _, ok := seqElem[s2]; !ok {
			seqElem[s2] = t.Sort
		}
		return T(sqUnit(s2, t))
	case "empty":
		s2 := e.sp.sortOf(a[0]).sort
		if isMapSort(s2) {
			return T(mpEmpty(s2))
		}
		return T(sqEmpty(s2))
	case "rep":
		t := e.term(a[1])
		s2 := "Sq_" + strings.ReplaceAll(t.Sort, "_", "-")
		if t.Sort == "Int" {
			s2 = Bytes
		}
		if len(a) > 2 {
			s2 = e.sp.sortOf(a[2]).sort
		}
		return T(sqRep(s2, e.term(a[0]), t))
	case "seqeq": // extensional equality
		x, y := e.term(a[0]), e.term(a[1])
		return T(App("sq.eqs_"+x.Sort[3:], "Bool", x, y))
	case "mapeq":
		x, y := e.term(a[0]), e.term(a[1])
		return T(App("mp.eqm_"+x.Sort[3:], "Bool", x, y))
	case "mhas":
		return T(mpHas(e.term(a[0]), e.term(a[1])))
	case "mget":
		return T(mpGet(e.term(a[0]), e.term(a[1])))
	case "mset":
		return T(mpSet(e.term(a[0]), e.term(a[1]), e.term(a[2])))
	case "menum":
		m := e.term(a[0])
		return T(App("mp.enum_"+m.Sort[3:], "Bool", m, e.term(a[1])))
	case "midx": // (midx m keys k): where k is in the enumeration keys of m
		m := e.term(a[0])
		return T(App("mp.idx_"+m.Sort[3:], "Int", e.term(a[1]), e.term(a[2])))
	case "box":
		t := e.sp.P.findType(a[0].Atom)
		if t == nil {
			die("%s: unknown type %s", s.Where(), a[0].Atom)
		}
		v := e.term(a[1])
		if v.Sort == "If" {
			return T(v) // already an interface value
		}
		return T(Box(t, v))
	case "unbox":
		t := e.sp.P.findType(a[0].Atom)
		if t == nil {
			die("%s: unknown type %s", s.Where(), a[0].Atom)
		}
		return tv{Unbox(t, e.term(a[1])), t}
	case "is":
		t := e.sp.P.findType(a[0].Atom)
		if t == nil {
			die("%s: unknown type %s", s.Where(), a[0].Atom)
		}
		return T(IsType(t, e.term(a[1])))
	case "mk": // (mk Type f0 f1 ...)
		vs := e.sp.sortOf(a[0])
		si := structOf[vs.sort]
		if si == nil {
			die("%s: %s is not a struct", s.Where(), a[0])
		}
		ts := e.terms(a[1:])
		if len(ts) != len(si.Sorts) {
			die("%s: %d fields expected for %s", s.Where(), len(si.Sorts), a[0])
		}
		for i := range ts {
			if ts[i].Sort != si.Sorts[i] {
				die("%s: field %d of %s has sort %s, got %s", s.Where(), i, a[0], si.Sorts[i], ts[i].Sort)
			}
		}
		return tv{App(si.Ctor, si.Sort, ts...), vs.t}
	case "ref": // (ref T x): immutable pointer to a value
		vs := e.sp.sortOf(a[0])
		pt := types.NewPointer(vs.t)
		ps := sortOf(pt)
		return tv{App("ref_"+ps, ps, e.term(a[1])), pt}
	case "deref":
		v := e.eval(a[0])
		if t, ok := v.v.(*Term); ok && strings.HasPrefix(t.Sort, "Pt_") {
			return T(App("deref_"+t.Sort, ptrElem[t.Sort], t))
		}
		if p, ok := v.v.(*PtrV); ok {
			return tv{e.st.loadPath(p), e.st.ptrElemType(p)}
		}
		if i, ok := v.v.(*IfaceV); ok {
			if p, ok := i.V.(*PtrV); ok {
				return tv{e.st.loadPath(p), e.st.ptrElemType(p)}
			}
		}
		die("%s: deref", s.Where())
	case "rem":
		return tv{e.x.rd(e.st, e.eval(a[0]).v).rem(e.st), types.Typ[types.String]}
	case "ends": // what is left of the reader arrives in full
		r := e.x.rd(e.st, e.eval(a[0]).v)
		if t, ok := e.st.Heap[r.base].F["ends"].(*Term); ok {
			return T(t)
		}
		if r.isBuf(e.st) {
			return T(True)
		}
		return T(Fresh("ends", "Bool"))
	case "short":
		return T(e.x.rd(e.st, e.eval(a[0]).v).short(e.st))
	case "out":
		return tv{e.x.wr(e.st, e.eval(a[0]).v).out(e.st), types.Typ[types.String]}
	case "failed":
		return T(e.x.wr(e.st, e.eval(a[0]).v).failed(e.st))
	case "clean": // no errWriter on the way to w keeps an error
		w := e.x.wr(e.st, e.eval(a[0]).v)
		g := True
		for _, we := range w.errs(e.st) {
			g = And(g, Eq(we, nilI))
		}
		return T(g)
	case "f64":
		f, err := strconv.ParseFloat(a[0].Atom, 64)
		if err != nil {
			die("%s: bad float", s.Where())
		}
		return T(f64Const(f))
	case "real":
		return T(RealC(a[0].Atom))
	case "flt":
		x, y := e.term(a[0]), e.term(a[1])
		return T(FLt(x, y))
	case "fle":
		x, y := e.term(a[0]), e.term(a[1])
		return T(FLe(x, y))
	case "feq":
		x, y := e.term(a[0]), e.term(a[1])
		return T(FEq(x, y))
	case "fadd", "fsub", "fmul", "fdiv":
		x, y := e.term(a[0]), e.term(a[1])
		return T(App(fop(h[1:], x.Sort), x.Sort, x, y))
	case "f32of":
		return T(App("f32.of64", "F32", e.term(a[0])))
	case "f64of":
		t := e.term(a[0])
		if t.Sort == "Int" {
			return T(App("f64.ofint", "F64", t))
		}
		return T(App("f64.of32", "F64", t))
	case "rv":
		t := e.term(a[0])
		return T(App("rv."+t.Sort, "Real", t))
	case "toreal":
		return T(raw("to_real", "Real", e.term(a[0])))
	case "isnil":
		return T(Eq(e.term(a[0]), nilI))
	case "sym": // uninterpreted symbol application with explicit sort: (sym name Sort args...)
		return T(App(a[0].Atom, e.sp.sortOf(a[1]).sort, e.terms(a[2:])...))
	case "use":
		return T(e.lemmaInst(s))
	case "unfold":
		return T(e.unfold(s))
	case "law":
		return T(e.law(s))
	case "hold":
		return T(True)
	case "apply": // application of an option closure: (apply f x)
		f := e.eval(a[0])
		return T(e.x.applyPure(e.st, f, e.terms(a[1:])))
	}
	if strings.HasPrefix(h, "@") {
		return e.observe(s)
	}
	if f, ok := e.sp.Funs[h]; ok {
		if len(a) != len(f.Params) {
			die("%s: %s takes %d arguments", s.Where(), h, len(f.Params))
		}
		if f.Kind == "macro" {
			n := *e
			n.vars = make(map[string]tv, len(e.vars)+len(a))
			for k, w := range e.vars {
				n.vars[k] = w
			}
			for i, p := range f.Params {
				n.vars[p.name] = e.eval(a[i])
			}
			return n.eval(f.Body)
		}
		ts := e.terms(a)
		for i := range ts {
			if ts[i].Sort != f.Params[i].sort {
				die("%s: argument %d of %s has sort %s, expected %s", s.Where(), i, h, ts[i].Sort, f.Params[i].sort)
			}
		}
		return T(App(f.Name, f.Ret, ts...))
	}
	die("%s: unknown operator %s", s.Where(), h)
	return
}

func (e *Env) unfold(s *SX) *Term {
	a := s.List[1:]
	f := e.sp.Funs[a[0].Atom]
	if f == nil || f.body == nil {
		die("%s: unfold of unknown function %s", s.Where(), a[0])
	}
	ts := e.terms(a[1:])
	m := map[*Term]*Term{}
	for i, v := range f.vars {
		if ts[i].Sort != v.Sort {
			die("%s: unfold %s: argument %d has sort %s, expected %s", s.Where(), f.Name, i, ts[i].Sort, v.Sort)
		}
		m[v] = ts[i]
	}
	return Eq(App(f.Name, f.Ret, ts...), subst(f.body, m))
}

func (e *Env) lemmaInst(s *SX) *Term {
	l := e.sp.Lemmas[s.List[1].Atom]
	if l == nil {
		die("%s: unknown lemma %s", s.Where(), s.List[1].Atom)
	}
	if len(s.List)-2 != len(l.Params) {
		die("%s: lemma %s takes %d arguments", s.Where(), l.Name, len(l.Params))
	}
	// exact arithmetic and floating point do not mix
	if e.x != nil && e.x.mode != "real" && l.Real {
		die("%s: lemma %s holds in exact arithmetic only", s.Where(), l.Name)
	}
	if e.x != nil && e.x.mode == "real" && !l.Real {
		die("%s: lemma %s is not about exact arithmetic", s.Where(), l.Name)
	}
	n := &Env{sp: e.sp, vars: map[string]tv{}}
	for i, p := range l.Params {
		v := e.term(s.List[2+i])
		if v.Sort != p.sort {
			die("%s: lemma %s: argument %d has sort %s, expected %s", s.Where(), l.Name, i, v.Sort, p.sort)
		}
		n.vars[p.name] = tv{v, p.t}
	}
	var req, ens []*Term
	for _, r := range l.Req {
		req = append(req, n.term(r))
	}
	for _, r := range l.Ens {
		ens = append(ens, n.term(r))
	}
	together := e.lem != nil && e.lem != l && l.Group != "" && l.Group == e.lem.Group
	if e.lem != nil && e.lem != l && !together && l.Order >= e.lem.Order {
		die("%s: lemma %s comes after %s", s.Where(), l.Name, e.lem.Name)
	}
	if together && e.x != nil {
		e.x.useLemma(l.Name)
	}
	if e.lem == l || together {
		// induction hypothesis: only for a smaller measure
		if e.lemM == nil || l.Measure == nil {
			die("%s: lemma %s uses itself without a measure", s.Where(), l.Name)
		}
		m := n.term(l.Measure)
		req = append(req, Le(IntC(0), m), Lt(m, e.lemM))
	} else if e.x != nil {
		e.x.useLemma(l.Name)
	}
	return Implies(And(req...), And(ens...))
}

// law: what the contract of a method of the module and the contract of the
// interface method say about the answers to the given arguments. The method
// is a function of its arguments (checked), so the answers have names.
func (e *Env) law(s *SX) *Term {
	fn := e.sp.P.findFunc(s.List[1].Atom)
	if fn == nil {
		die("%s: no function %s", s.Where(), s.List[1].Atom)
	}
	own := e.sp.Contracts[e.sp.P.fnName(fn)]
	if own == nil || own.Trusted || len(own.Req)+len(own.Mod)+len(own.Readers)+len(own.Writers)+len(own.Ghosts) > 0 {
		die("%s: %s has no contract that holds for all arguments", s.Where(), s.List[1].Atom)
	}
	var im *Contract
	rt := fn.Signature.Recv()
	for k, c := range e.sp.Imeth {
		i := strings.LastIndexByte(k, '.')
		if rt == nil || k[i+1:] != fn.Name() || !c.onlyDefines() {
			continue
		}
		for _, t := range e.sp.Impl[k[:i]] {
			if types.Identical(types.Unalias(t), types.Unalias(rt.Type())) {
				im = c
			}
		}
	}
	if im == nil {
		die("%s: %s implements no method with named answers", s.Where(), s.List[1].Atom)
	}
	args := s.List[2:]
	if len(args) != len(own.Params) || len(im.Params) != len(own.Params) {
		die("%s: law %s takes %d arguments", s.Where(), s.List[1].Atom, len(own.Params))
	}
	n := &Env{sp: e.sp, vars: map[string]tv{}}
	m := &Env{sp: e.sp, vars: map[string]tv{}}
	var ts []*Term
	for i, p := range fn.Params {
		t := e.term(args[i])
		if t.Sort != sortOf(p.Type()) {
			die("%s: argument %d has sort %s, expected %s", s.Where(), i, t.Sort, sortOf(p.Type()))
		}
		ts = append(ts, t)
		n.vars[own.Params[i]] = tv{t, p.Type()}
		if i == 0 {
			m.vars[im.Params[i]] = tv{Box(p.Type(), t), nil}
		} else {
			m.vars[im.Params[i]] = tv{t, p.Type()}
		}
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := tv{App(fmt.Sprintf("answer%d$%s", i, own.Name), sortOf(t), ts...), t}
		if i < len(own.Results) {
			n.vars[own.Results[i]] = v
		}
		if i < len(im.Results) {
			m.vars[im.Results[i]] = v
		}
	}
	var fs []*Term
	for _, c := range own.Ens {
		fs = append(fs, n.term(c.E))
	}
	for _, c := range im.Ens {
		fs = append(fs, m.term(c.E))
	}
	if e.x == nil {
		die("%s: law is for hints only", s.Where())
	}
	e.x.usesContract(own.Name)
	e.x.usesContract(im.Name)
	return And(fs...)
}

func (e *Env) atom(s *SX) tv {
	a := s.Atom
	if v, ok := e.vars[a]; ok {
		return v
	}
	if e.st != nil {
		if v, ok := e.st.Ghost[a]; ok {
			return v
		}
	}
	switch a {
	case "true":
		return T(True)
	case "false":
		return T(False)
	case "nil":
		return T(nilI)
	case "$k":
		if e.k == nil {
			die("%s: $k outside a loop", s.Where())
		}
		return T(e.k)
	case "inf":
		return T(f64Const(mathInf(1)))
	case "-inf":
		return T(f64Const(mathInf(-1)))
	}
	if a[0] == '"' {
		return tv{strLit(a[1 : len(a)-1]), types.Typ[types.String]}
	}
	if strings.HasPrefix(a, "2^") {
		k, err := strconv.Atoi(a[2:])
		if err == nil {
			return T(BigC(pow2(uint(k))))
		}
	}
	if b, ok := new(big.Int).SetString(a, 10); ok {
		return T(BigC(b))
	}
	if f, ok := e.sp.Funs[a]; ok && len(f.Params) == 0 {
		if f.Kind == "macro" {
			return e.eval(f.Body)
		}
		return T(App(f.Name, f.Ret))
	}
	die("%s: unknown name %s", s.Where(), a)
	return tv{}
}

func (e *Env) field(v tv, f *SX) tv {
	switch p := v.v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			die("%s: field of nil", f.Where())
		}
		return e.field(tv{e.st.loadPath(p), e.st.ptrElemType(p)}, f)
	case *IfaceV:
		return e.field(tv{p.V, p.T}, f)
	case *StructV:
		st := p.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f.Atom {
				return tv{p.F[i], st.Field(i).Type()}
			}
		}
		die("%s: no field %s in %s", f.Where(), f.Atom, typeName(p.T))
	case *Term:
		srt := p.Sort
		if strings.HasPrefix(srt, "Pt_") {
			return e.field(T(App("deref_"+srt, ptrElem[srt], p)), f)
		}
		si := structOf[srt]
		if si == nil {
			die("%s: field %s of sort %s", f.Where(), f.Atom, srt)
		}
		st := si.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f.Atom {
				return tv{App(si.Fields[i], si.Sorts[i], p), st.Field(i).Type()}
			}
		}
		die("%s: no field %s in %s", f.Where(), f.Atom, srt)
	}
	die("%s: field %s of %T", f.Where(), f.Atom, v.v)
	return tv{}
}

// observe: (@Iface.Method recv args...)
func (e *Env) observe(s *SX) tv {
	h := s.Head()[1:]
	i := strings.LastIndexByte(h, '.')
	it := e.sp.P.findType(h[:i])
	if it == nil {
		die("%s: unknown interface %s", s.Where(), h[:i])
	}
	m := methodOf(it, h[i+1:])
	if m == nil {
		die("%s: no method %s", s.Where(), h)
	}
	args := e.terms(s.List[2:])
	recv := e.term(s.List[1])
	rt := m.Type().(*types.Signature).Results().At(0).Type()
	return tv{e.sp.obsApp(it, m.Name(), recv, args, rt), rt}
}

func methodOf(it types.Type, name string) *types.Func {
	u, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumMethods(); i++ {
		if u.Method(i).Name() == name {
			return u.Method(i)
		}
	}
	return nil
}

func obsName(it types.Type, m string) string { return "obs_" + mangle(it) + "." + m }

type obsInfo struct {
	it types.Type
	m  string
	rt types.Type
}

func (sp *Spec) obsApp(it types.Type, m string, recv *Term, args []*Term, rt types.Type) *Term {
	n := obsName(it, m)
	if _, ok := sp.obsReg[n]; !ok {
		sp.obsReg[n] = obsInfo{it, m, rt}
	}
	if b, ok := rt.Underlying().(*types.Basic); ok {
		if r, ok := intRange(b); ok {
			symRange[n] = r
		}
	}
	if strings.HasPrefix(recv.Op, "box_") {
		if t := sp.obsOnBox(it, m, recv, args); t != nil {
			return t
		}
	}
	if recv.Op == "ite" {
		return Ite(recv.Args[0], sp.obsApp(it, m, recv.Args[1], args, rt), sp.obsApp(it, m, recv.Args[2], args, rt))
	}
	return App(n, sortOf(rt), append([]*Term{recv}, args...)...)
}
