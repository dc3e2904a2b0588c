package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loop struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

type Prog struct {
	Fset          *token.FileSet
	SSA           *ssa.Program
	Pkgs          map[string]*ssa.Package // by short path
	Funcs         map[string]*ssa.Function
	loops         map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	ipd           map[*ssa.BasicBlock]*ssa.BasicBlock
	ipdOK         map[*ssa.Function]bool
	Spec          *Spec
	globStored    map[*ssa.Global]bool
	named         map[string]types.Type
	autoObs       map[string]*autoObsInfo
	inlined       map[string]map[string]bool
	curInl        map[string]bool
	TrustedUsed   map[string]bool
	assumeNoAlias bool
	mu            sync.Mutex
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Prog{Fset: prog.Fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		ipd: map[*ssa.BasicBlock]*ssa.BasicBlock{}, ipdOK: map[*ssa.Function]bool{}, globStored: map[*ssa.Global]bool{}, named: map[string]types.Type{}, autoObs: map[string]*autoObsInfo{},
		inlined: map[string]map[string]bool{}, TrustedUsed: map[string]bool{}}
	for _, pk := range prog.AllPackages() {
		p.Pkgs[shortPkg(pk.Pkg.Path())] = pk
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Origin() == nil {
			continue
		}
		n := p.fnName(fn)
		if fn.Synthetic != "" && p.Funcs[n] != nil {
			continue
		}
		p.Funcs[n] = fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
						p.globStored[g] = true
					}
				}
			}
		}
	}
	for _, pk := range prog.AllPackages() {
		for _, m := range pk.Members {
			if t, ok := m.(*ssa.Type); ok {
				p.named[shortPkg(pk.Pkg.Path())+"."+m.Name()] = t.Type()
			}
		}
	}
	return p, nil
}

// fnName: path.Func, path.Type.Method, path.Func$1 for literals.
func (p *Prog) fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		return p.fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeName(t) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return shortPkg(o.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	return fn.String()
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		return p.inModule(fn.Parent())
	}
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/EliCDavis/vector")
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				lp := m[h]
				if lp == nil {
					lp = &Loop{Header: h, Body: map[*ssa.BasicBlock]bool{h: true}}
					m[h] = lp
				}
				var st []*ssa.BasicBlock
				if !lp.Body[b] {
					lp.Body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					q := st[len(st)-1]
					st = st[:len(st)-1]
					for _, pr := range q.Preds {
						if !lp.Body[pr] {
							lp.Body[pr] = true
							st = append(st, pr)
						}
					}
				}
			}
		}
	}
	p.loops[fn] = m
	return m
}

func (p *Prog) loopAt(b *ssa.BasicBlock) *Loop { return p.loopsOf(b.Parent())[b] }

// ipdom: immediate post-dominator (nil when it is the exit).
func (p *Prog) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if !p.ipdOK[fn] {
		p.ipdOK[fn] = true
		n := len(fn.Blocks)
		// post-dominator sets by iteration
		full := map[int]bool{}
		for i := 0; i < n; i++ {
			full[i] = true
		}
		pd := make([]map[int]bool, n)
		for i, bb := range fn.Blocks {
			if len(bb.Succs) == 0 {
				pd[i] = map[int]bool{i: true}
			} else {
				pd[i] = full
			}
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				bb := fn.Blocks[i]
				if len(bb.Succs) == 0 {
					continue
				}
				var in map[int]bool
				for _, s := range bb.Succs {
					// paths that only panic or return early do not block merging of the others
					if in == nil {
						in = map[int]bool{}
						for k := range pd[s.Index] {
							in[k] = true
						}
					} else {
						for k := range in {
							if !pd[s.Index][k] {
								delete(in, k)
							}
						}
					}
				}
				in[i] = true
				if len(in) != len(pd[i]) {
					pd[i] = in
					changed = true
				}
			}
		}
		for i, bb := range fn.Blocks {
			// the closest strict post-dominator is the one post-dominated by all the others
			best := -1
			for k := range pd[i] {
				if k == i {
					continue
				}
				if best < 0 || len(pd[k]) > len(pd[best]) {
					best = k
				}
			}
			if best >= 0 {
				p.ipd[bb] = fn.Blocks[best]
			}
		}
	}
	return p.ipd[b]
}

// loopOrder enumerates the loops of fn (with inlined callees) in source order.
func (p *Prog) loopOrder(fn *ssa.Function, inl func(*ssa.Function) bool) map[string]int {
	out := map[string]int{}
	n := 0
	var rec func(f *ssa.Function, site string, depth int)
	rec = func(f *ssa.Function, site string, depth int) {
		type ev struct {
			pos  token.Pos
			call ssa.CallInstruction
			loop *ssa.BasicBlock
			idx  int
		}
		var evs []ev
		for h, lp := range p.loopsOf(f) {
			min := token.Pos(0)
			for b := range lp.Body {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					if q := in.Pos(); q.IsValid() && (min == 0 || q < min) {
						min = q
					}
				}
			}
			evs = append(evs, ev{min, nil, h, h.Index})
		}
		for _, b := range f.Blocks {
			for k, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && inl(cal) {
						evs = append(evs, ev{c.Pos(), c, nil, b.Index*10000 + k})
					}
				}
			}
		}
		sort.SliceStable(evs, func(i, j int) bool {
			if evs[i].pos != evs[j].pos {
				return evs[i].pos < evs[j].pos
			}
			// an enclosing loop comes first
			if evs[i].loop != nil && evs[j].loop != nil {
				return len(p.loopsOf(f)[evs[i].loop].Body) > len(p.loopsOf(f)[evs[j].loop].Body)
			}
			if (evs[i].loop != nil) != (evs[j].loop != nil) {
				return evs[i].loop != nil
			}
			return evs[i].idx < evs[j].idx
		})
		for _, e := range evs {
			if e.loop != nil {
				out[site+"|"+fmt.Sprint(e.loop.Index)] = n
				n++
			} else if depth < 6 {
				rec(e.call.Common().StaticCallee(), site+"/"+siteKey(e.call), depth+1)
			}
		}
	}
	rec(fn, "", 0)
	return out
}

func siteKey(c ssa.CallInstruction) string {
	b := c.Block()
	for i, in := range b.Instrs {
		if in == c.(ssa.Instruction) {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func (p *Prog) global(s *State, g *ssa.Global) Value {
	// address of a global: only loads are supported (handled in unop)
	return &PtrV{Obj: -1}
}

func (p *Prog) globalLoad(s *State, g *ssa.Global) Value {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	if isErrorType(t) && !p.globStored[g] {
		return Var("nzerrc!"+name, "If")
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return zeroValue(t)
	}
	if p.globStored[g] {
		unsupported("global variable %s", name)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		unsupported("global pointer %s", name)
	}
	v := Var("global!"+name, sortOf(t))
	noteRange(v, t)
	return v
}

// findType resolves a Go type written in a specification.
func (p *Prog) findType(s string) types.Type {
	if t, ok := typeMemo[s]; ok {
		return t
	}
	t := p.findType1(s)
	typeMemo[s] = t
	return t
}

var typeMemo = map[string]types.Type{}

func (p *Prog) findType1(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "[]"):
		e := p.findType(s[2:])
		if e == nil {
			return nil
		}
		return types.NewSlice(e)
	case strings.HasPrefix(s, "*"):
		e := p.findType(s[1:])
		if e == nil {
			return nil
		}
		return types.NewPointer(e)
	case strings.HasPrefix(s, "map["):
		i := strings.IndexByte(s, ']')
		k, v := p.findType(s[4:i]), p.findType(s[i+1:])
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if s == "any" || s == "interface{}" {
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.IndexByte(s, '['); i > 0 && strings.HasSuffix(s, "]") {
		// generic instance
		g, a := p.findType(s[:i]), p.findType(s[i+1:len(s)-1])
		n, ok := g.(*types.Named)
		if !ok || a == nil {
			return nil
		}
		t, err := types.Instantiate(nil, n.Origin(), []types.Type{a}, false)
		if err != nil {
			return nil
		}
		return t
	}
	if t, ok := p.named[s]; ok {
		return t
	}
	var found []string
	for n := range p.named {
		if strings.HasSuffix(n, "/"+s) {
			found = append(found, n)
		}
	}
	if len(found) == 1 {
		return p.named[found[0]]
	}
	return nil
}

// findFunc resolves a function name written in a specification.
func (p *Prog) findFunc(s string) *ssa.Function {
	if f, ok := p.Funcs[s]; ok {
		return f
	}
	var found *ssa.Function
	n := 0
	for k, f := range p.Funcs {
		if strings.HasSuffix(k, "/"+s) {
			found = f
			n++
		}
	}
	if n == 1 {
		return found
	}
	return nil
}
