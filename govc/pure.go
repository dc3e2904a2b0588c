package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function is taken as a function of its arguments when nothing it can reach
// depends on anything else: no goroutines or channels, no order of map keys, no
// variable shared between calls, no address used as a number, and of other
// packages only functions known to depend on their arguments alone.

var purePkgs = map[string]bool{"bytes": true, "errors": true, "fmt": true, "math": true, "math/bits": true, "strings": true, "sort": true,
	"encoding/binary": true, "io": true, "io/ioutil": true, "bufio": true, "compress/flate": true, "strconv": true, "unicode/utf8": true, "time": false}
var pureFns = map[string]bool{"time.UnixMicro": true, "time.Unix": true, "time.UnixMilli": true,
	"time.Time.UnixMicro": true, "time.Time.UnixNano": true, "time.Time.Unix": true, "time.Time.UnixMilli": true}
var pureGlobals = map[string]bool{"io.EOF": true, "io.ErrUnexpectedEOF": true, "encoding/binary.LittleEndian": true, "encoding/binary.BigEndian": true}

type pureWalk struct {
	p       *Prog
	seen    map[*ssa.Function]bool
	work    []*ssa.Function
	boxed   []types.Type
	boxSeen map[string]bool
	invokes []*types.Func
	bad     []string
}

// pure lists what makes fn depend on more than its arguments.
func (p *Prog) pure(fn *ssa.Function) []string {
	w := &pureWalk{p: p, seen: map[*ssa.Function]bool{}, boxSeen: map[string]bool{}}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			w.bad = append(w.bad, "the receiver of "+p.fnName(fn)+" is a pointer")
		}
	}
	w.push(fn)
	for len(w.work) > 0 {
		f := w.work[0]
		w.work = w.work[1:]
		w.walk(f)
		if len(w.work) == 0 {
			// methods of the values boxed on the way
			for _, m := range w.invokes {
				for _, t := range w.boxed {
					if sel := w.p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
						if g := w.p.SSA.MethodValue(sel); g != nil {
							w.callee(g, f)
						}
					}
				}
			}
		}
	}
	return w.bad
}

func (w *pureWalk) push(f *ssa.Function) {
	if f != nil && !w.seen[f] {
		w.seen[f] = true
		w.work = append(w.work, f)
	}
}

func (w *pureWalk) no(f *ssa.Function, in ssa.Instruction, format string, a ...interface{}) {
	if len(w.bad) > 5 {
		return
	}
	where := w.p.fnName(f)
	if in != nil {
		if q := w.p.Fset.Position(in.Pos()); q.IsValid() {
			where += fmt.Sprintf(" line %d", q.Line)
		}
	}
	w.bad = append(w.bad, fmt.Sprintf(format, a...)+" in "+where)
}

func (w *pureWalk) callee(g, from *ssa.Function) {
	if g.Synthetic != "" && len(g.Blocks) > 0 || w.p.inModule(g) {
		if len(g.Blocks) == 0 {
			w.no(from, nil, "%s has no body", w.p.fnName(g))
			return
		}
		w.push(g)
		return
	}
	n := w.p.fnName(g)
	if pureFns[n] {
		return
	}
	pk := g.Pkg
	if pk == nil && g.Origin() != nil {
		pk = g.Origin().Pkg
	}
	if pk == nil && g.Object() != nil && g.Object().Pkg() != nil {
		pk = w.p.SSA.Package(g.Object().Pkg())
	}
	if pk == nil || !purePkgs[pk.Pkg.Path()] {
		w.no(from, nil, "call of %s", n)
	}
}

func (w *pureWalk) walk(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
				w.no(f, in, "concurrency")
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					w.no(f, in, "concurrency")
				}
			case *ssa.Range:
				if _, ok := y.X.Type().Underlying().(*types.Map); ok {
					w.no(f, in, "the order of a map's keys")
				}
			case *ssa.Convert:
				for _, t := range []types.Type{y.X.Type(), y.Type()} {
					if bt, ok := t.Underlying().(*types.Basic); ok && (bt.Kind() == types.UnsafePointer || bt.Kind() == types.Uintptr) {
						w.no(f, in, "an address as a number")
					}
				}
			case *ssa.MakeInterface:
				k := y.X.Type().String()
				if !w.boxSeen[k] {
					w.boxSeen[k] = true
					w.boxed = append(w.boxed, y.X.Type())
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if cc.IsInvoke() {
					known := false
					for _, m := range w.invokes {
						known = known || m == cc.Method
					}
					if !known {
						w.invokes = append(w.invokes, cc.Method)
					}
				} else if g := cc.StaticCallee(); g != nil {
					w.callee(g, f)
				}
			}
			for _, op := range in.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Function:
					if c, ok := in.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != g {
						w.callee(g, f)
					}
				case *ssa.Global:
					if why := w.p.globChanges(g); why != "" {
						w.no(f, in, "the variable %s (%s)", g.String(), why)
					}
				}
			}
		}
	}
}

// globChanges tells why a package variable might change after initialisation.
func (p *Prog) globChanges(g *ssa.Global) string {
	n := shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	if pureGlobals[n] {
		return ""
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return "of another package"
	}
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	switch elem.Underlying().(type) {
	case *types.Basic, *types.Interface:
	default:
		return "not a plain value"
	}
	for _, fn := range p.Funcs {
		ini := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					if s, ok := in.(*ssa.Store); ok && ini && s.Addr == ssa.Value(g) {
						continue
					}
					return "set in " + p.fnName(fn)
				}
			}
		}
	}
	return ""
}

func (p *Prog) functionObl(fn *ssa.Function, name string) *Obl {
	o := &Obl{Func: name, Name: "function-of-its-arguments", Goal: True}
	if bad := p.pure(fn); len(bad) > 0 {
		o.Goal, o.Unsup = False, strings.Join(bad, "; ")
	}
	return o
}

func (c *Contract) onlyDefines() bool {
	for _, e := range c.Ens {
		if !e.Defines {
			return false
		}
	}
	return len(c.Req) == 0 && len(c.Ens) > 0
}
