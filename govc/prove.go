package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// symbol -> signature, collected from the terms of a query
type sig struct {
	args []string
	ret  string
}

type query struct {
	opaque map[string]bool
	sp     *Spec
	syms   map[string]sig
	sorts  map[string]bool
	order  []string
	real   bool
	rec    []*Term
	seen   map[*Term]bool
}

var builtinOps = map[string]bool{"int": true, "true": true, "false": true, "and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "*": true, "-": true, "div": true, "mod": true, "<=": true, "<": true, ">": true, ">=": true, "forall": true, "exists": true, "/": true, "to_real": true, "distinct": true}

func newQuery(sp *Spec, real bool) *query {
	return &query{sp: sp, syms: map[string]sig{}, sorts: map[string]bool{}, real: real, seen: map[*Term]bool{}}
}

func (q *query) addSort(s string) {
	if q.sorts[s] || s == "" {
		return
	}
	q.sorts[s] = true
	if isSeqSort(s) {
		q.addSort(seqElem[s])
	}
	if isMapSort(s) {
		q.addSort(mapSorts[s].key)
		q.addSort(mapSorts[s].val)
		ks := "Sq_" + strings.ReplaceAll(mapSorts[s].key, "_", "-")
		if _, ok := seqElem[ks]; !ok {
			seqElem[ks] = mapSorts[s].key
		}
		q.addSort(ks)
	}
	if si, ok := structOf[s]; ok {
		for _, f := range si.Sorts {
			q.addSort(f)
		}
	}
	if e, ok := ptrElem[s]; ok {
		q.addSort(e)
	}
	if s == "If" {
		q.addSort("Int")
	}
}

func (q *query) add(t *Term) {
	if q.seen[t] {
		return
	}
	q.seen[t] = true
	q.addSort(t.Sort)
	if t.Op == "forall" || t.Op == "exists" {
		for _, b := range t.Bound {
			q.addSort(b.Sort)
		}
	}
	for _, a := range t.Args {
		q.add(a)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			q.add(a)
		}
	}
	if builtinOps[t.Op] || strings.HasPrefix(t.Op, "real:") || strings.HasPrefix(t.Op, "?") {
		return
	}
	if _, ok := q.syms[t.Op]; !ok {
		s := sig{ret: t.Sort}
		for _, a := range t.Args {
			s.args = append(s.args, a.Sort)
		}
		q.syms[t.Op] = s
		q.order = append(q.order, t.Op)
	}
	if f, ok := q.sp.Funs[t.Op]; ok && f.Kind == "rec" && !hasBound(t) {
		q.rec = append(q.rec, t)
	}
}

var boundCache = map[*Term]bool{}
var boundMu sync.Mutex

func hasBound(t *Term) bool {
	if b, ok := boundCache[t]; ok {
		return b
	}
	r := false
	if strings.HasPrefix(t.Op, "?") {
		r = true
	}
	for _, a := range t.Args {
		if hasBound(a) {
			r = true
		}
	}
	boundCache[t] = r
	return r
}

func symsOf(t *Term) map[string]bool {
	m := map[string]bool{}
	walk(t, func(u *Term) {
		if !builtinOps[u.Op] && !strings.HasPrefix(u.Op, "real:") && !strings.HasPrefix(u.Op, "?") {
			m[u.Op] = true
		}
	})
	return m
}

type axInfo struct {
	syms map[string]bool
	trig []map[string]bool
}

func (q *query) axioms(maxOrder int) []*Term {
	var out []*Term
	done := map[*Axiom]bool{}
	fueled := map[*Term]int{}
	obsDone := map[string]bool{}
	nrec := 0
	for changed := true; changed; {
		changed = false
		for _, a := range q.sp.Axioms {
			if done[a] || (a.Kind == "lemma" && a.Order >= maxOrder) || (a.Kind == "def" && q.opaque[strings.TrimPrefix(a.Name, "def ")]) {
				continue
			}
			if a.info == nil {
				in := &axInfo{syms: symsOf(a.Term)}
				if a.Term.Op == "forall" {
					for _, p := range a.Term.Pats {
						m := map[string]bool{}
						for _, x := range p {
							for k := range symsOf(x) {
								m[k] = true
							}
						}
						in.trig = append(in.trig, m)
					}
				}
				if len(in.trig) == 0 {
					if a.Kind == "def" {
						in.trig = []map[string]bool{{strings.TrimPrefix(a.Name, "def "): true}}
					} else {
						in.trig = []map[string]bool{in.syms}
					}
				}
				a.info = in
			}
			use := false
			for _, tr := range a.info.trig {
				all := true
				for k := range tr {
					if _, ok := q.syms[k]; !ok {
						all = false
						break
					}
				}
				if all {
					use = true
					break
				}
			}
			if use {
				done[a] = true
				q.add(a.Term)
				out = append(out, a.Term)
				if a.Kind == "lemma" {
					q.sp.usedLemma[strings.TrimPrefix(a.Name, "lemma ")] = true
				}
				if a.Kind == "trusted" {
					q.sp.P.noteTrusted("axiom " + a.Name)
				}
				changed = true
			}
		}
		// observers of boxed values of known types
		for _, n := range append([]string{}, q.order...) {
			oi, ok := q.sp.obsReg[n]
			if !ok {
				continue
			}
			iface, ok := oi.it.Underlying().(*types.Interface)
			if !ok {
				continue
			}
			for _, b := range append([]string{}, q.order...) {
				b = strings.TrimPrefix(b, "un")
				if !strings.HasPrefix(b, "box_") || obsDone[n+" "+b] {
					continue
				}
				obsDone[n+" "+b] = true
				bi := boxes[b[4:]]
				if bi == nil || !types.Implements(bi.T, iface) {
					continue
				}
				v := Var("?bx", bi.Sort)
				vars := []*Term{v}
				var args []*Term
				for i, s := range q.syms[n].args[1:] {
					a := Var(fmt.Sprintf("?ba%d", i), s)
					vars = append(vars, a)
					args = append(args, a)
				}
				val := q.sp.obsOnType(bi.T, oi.m, v, args)
				if val == nil {
					continue
				}
				l := raw(n, q.syms[n].ret, append([]*Term{raw(b, "If", v)}, args...)...)
				e := Forall(vars, raw("=", "Bool", l, val), []*Term{l})
				q.add(e)
				out = append(out, e)
				changed = true
			}
		}
		// unfold recursive definitions at the ground applications
		lim := len(q.rec)
		for ; nrec < lim; nrec++ {
			t := q.rec[nrec]
			f := q.sp.Funs[t.Op]
			lvl := fueled[t]
			if lvl >= f.Fuel || q.opaque[t.Op] {
				continue
			}
			m := map[*Term]*Term{}
			for i, v := range f.vars {
				m[v] = t.Args[i]
			}
			body := subst(f.body, m)
			e := raw("=", t.Sort, t, body)
			e = raw("=", "Bool", t, body)
			for _, u := range recApps(q.sp, body) {
				if _, ok := fueled[u]; !ok {
					fueled[u] = lvl + 1
				}
			}
			q.add(e)
			out = append(out, e)
			changed = true
		}
	}
	return out
}

func recApps(sp *Spec, t *Term) []*Term {
	var out []*Term
	walk(t, func(u *Term) {
		if f, ok := sp.Funs[u.Op]; ok && f.Kind == "rec" && !hasBound(u) {
			out = append(out, u)
		}
	})
	return out
}

func seqTheory(s string) string {
	e := smtSort(seqElem[s])
	S := smtSort(s)
	f := func(n string) string { return smtSym("sq." + n + "_" + s[3:]) }
	in := "true"
	if rg, ok := elemRange(s); ok {
		in = fmt.Sprintf("(and (<= %s v) (<= v %s))", BigC(rg.lo).SMT(), BigC(rg.hi).SMT())
	}
	r := strings.NewReplacer("$S", S, "$E", e, "$empty", f("empty"), "$unit", f("unit"), "$len", f("len"), "$cat", f("cat"), "$take", f("take"), "$drop", f("drop"), "$at", f("at"), "$upd", f("upd"), "$rep", f("rep"), "$eqs", f("eqs"), "$diff", f("diff"), "$in", in)
	return r.Replace(`
(declare-fun $empty () $S)
(declare-fun $unit ($E) $S)
(declare-fun $len ($S) Int)
(declare-fun $cat ($S $S) $S)
(declare-fun $take ($S Int) $S)
(declare-fun $drop ($S Int) $S)
(declare-fun $at ($S Int) $E)
(declare-fun $upd ($S Int $E) $S)
(declare-fun $rep (Int $E) $S)
(declare-fun $eqs ($S $S) Bool)
(declare-fun $diff ($S $S) Int)
(assert (forall ((s $S)) (! (<= 0 ($len s)) :pattern (($len s)))))
(assert (= ($len $empty) 0))
(assert (forall ((s $S)) (! (=> (= ($len s) 0) (= s $empty)) :pattern (($len s)))))
(assert (forall ((v $E)) (! (= ($len ($unit v)) 1) :pattern (($unit v)))))
(assert (forall ((v $E)) (! (=> $in (= ($at ($unit v) 0) v)) :pattern (($unit v)))))
(assert (forall ((a $S) (b $S)) (! (= ($len ($cat a b)) (+ ($len a) ($len b))) :pattern (($cat a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (= ($at ($cat a b) i) (ite (< i ($len a)) ($at a i) ($at b (- i ($len a))))) :pattern (($at ($cat a b) i)))))
(assert (forall ((a $S)) (! (= ($cat a $empty) a) :pattern (($cat a $empty)))))
(assert (forall ((a $S)) (! (= ($cat $empty a) a) :pattern (($cat $empty a)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= ($cat ($cat a b) c) ($cat a ($cat b c))) :pattern (($cat ($cat a b) c)))))
(assert (forall ((s $S) (n Int)) (! (= ($len ($take s n)) (ite (<= n 0) 0 (ite (<= n ($len s)) n ($len s)))) :pattern (($take s n)))))
(assert (forall ((s $S) (n Int)) (! (= ($len ($drop s n)) (ite (<= n 0) ($len s) (ite (<= n ($len s)) (- ($len s) n) 0))) :pattern (($drop s n)))))
(assert (forall ((s $S) (n Int)) (! (=> (<= ($len s) n) (= ($take s n) s)) :pattern (($take s n)))))
(assert (forall ((s $S) (n Int)) (! (=> (<= n 0) (= ($drop s n) s)) :pattern (($drop s n)))))
(assert (forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= ($at ($take s n) i) ($at s i))) :pattern (($at ($take s n) i)))))
(assert (forall ((s $S) (n Int) (i Int)) (! (=> (and (<= 0 i) (<= 0 n)) (= ($at ($drop s n) i) ($at s (+ n i)))) :pattern (($at ($drop s n) i)))))
(assert (forall ((s $S) (n Int)) (! (= ($cat ($take s n) ($drop s n)) s) :pattern (($take s n) ($drop s n)))))
(assert (forall ((a $S) (b $S) (n Int)) (! (= ($take ($cat a b) n) (ite (<= n ($len a)) ($take a n) ($cat a ($take b (- n ($len a)))))) :pattern (($take ($cat a b) n)))))
(assert (forall ((a $S) (b $S) (n Int)) (! (= ($drop ($cat a b) n) (ite (<= n ($len a)) ($cat ($drop a n) b) ($drop b (- n ($len a))))) :pattern (($drop ($cat a b) n)))))
(assert (forall ((s $S) (m Int) (n Int)) (! (=> (<= n m) (= ($take ($take s m) n) ($take s n))) :pattern (($take ($take s m) n)))))
(assert (forall ((s $S) (m Int) (n Int)) (! (=> (and (<= 0 n) (<= 0 m)) (= ($drop ($drop s m) n) ($drop s (+ m n)))) :pattern (($drop ($drop s m) n)))))
(assert (forall ((s $S) (m Int) (n Int)) (! (=> (and (<= 0 n) (<= n m)) (= ($drop ($take s m) n) ($take ($drop s n) (- m n)))) :pattern (($drop ($take s m) n)))))
(assert (forall ((s $S) (i Int) (v $E)) (! (= ($len ($upd s i v)) ($len s)) :pattern (($upd s i v)))))
(assert (forall ((s $S) (i Int) (v $E) (j Int)) (! (=> (and (<= 0 i) (< i ($len s)) $in) (= ($at ($upd s i v) j) (ite (= i j) v ($at s j)))) :pattern (($at ($upd s i v) j)))))
(assert (forall ((n Int) (v $E)) (! (= ($len ($rep n v)) (ite (<= 0 n) n 0)) :pattern (($rep n v)))))
(assert (forall ((n Int) (v $E) (i Int)) (! (=> (and (<= 0 i) (< i n) $in) (= ($at ($rep n v) i) v)) :pattern (($at ($rep n v) i)))))
(assert (forall ((a $S) (b $S)) (! (=> ($eqs a b) (= a b)) :pattern (($eqs a b)))))
(assert (forall ((a $S) (b $S)) (! (or ($eqs a b) (not (= ($len a) ($len b))) (and (<= 0 ($diff a b)) (< ($diff a b) ($len a)) (not (= ($at a ($diff a b)) ($at b ($diff a b)))))) :pattern (($eqs a b)))))
`)
}

func mapTheory(s string) string {
	mi := mapSorts[s]
	ks := "Sq_" + strings.ReplaceAll(mi.key, "_", "-")
	f := func(n string) string { return smtSym("mp." + n + "_" + s[3:]) }
	g := func(n string) string { return smtSym("sq." + n + "_" + ks[3:]) }
	r := strings.NewReplacer("$M", smtSort(s), "$K", smtSort(mi.key), "$V", smtSort(mi.val), "$Q", smtSort(ks), "$empty", f("empty"), "$has", f("has"), "$get", f("get"), "$set", f("set"), "$len", f("len"), "$eqm", f("eqm"), "$enum", f("enum"), "$diff", f("diff"), "$idx", f("idx"), "$slen", g("len"), "$sat", g("at"))
	return r.Replace(`
(declare-fun $empty () $M)
(declare-fun $has ($M $K) Bool)
(declare-fun $get ($M $K) $V)
(declare-fun $set ($M $K $V) $M)
(declare-fun $len ($M) Int)
(declare-fun $eqm ($M $M) Bool)
(declare-fun $enum ($M $Q) Bool)
(declare-fun $diff ($M $M) $K)
(declare-fun $idx ($Q $K) Int)
(assert (forall ((m $M)) (! (<= 0 ($len m)) :pattern (($len m)))))
(assert (= ($len $empty) 0))
(assert (forall ((m $M)) (! (=> (= ($len m) 0) (= m $empty)) :pattern (($len m)))))
(assert (forall ((k $K)) (! (not ($has $empty k)) :pattern (($has $empty k)))))
(assert (forall ((m $M) (k $K)) (! (=> ($has m k) (< 0 ($len m))) :pattern (($has m k) ($len m)))))
(assert (forall ((m $M) (k $K) (v $V) (j $K)) (! (= ($has ($set m k v) j) (or (= k j) ($has m j))) :pattern (($has ($set m k v) j)))))
(assert (forall ((m $M) (k $K) (v $V) (j $K)) (! (= ($get ($set m k v) j) (ite (= k j) v ($get m j))) :pattern (($get ($set m k v) j)))))
(assert (forall ((m $M) (k $K) (v $V)) (! (and ($has ($set m k v) k) (= ($get ($set m k v) k) v) (= ($len ($set m k v)) (ite ($has m k) ($len m) (+ 1 ($len m))))) :pattern (($set m k v)))))
(assert (forall ((a $M) (b $M)) (! (=> ($eqm a b) (= a b)) :pattern (($eqm a b)))))
(assert (forall ((a $M) (b $M)) (! (or ($eqm a b) (not (= ($has a ($diff a b)) ($has b ($diff a b)))) (and ($has a ($diff a b)) (not (= ($get a ($diff a b)) ($get b ($diff a b)))))) :pattern (($eqm a b)))))
(assert (forall ((m $M) (q $Q)) (! (=> ($enum m q) (= ($slen q) ($len m))) :pattern (($enum m q)))))
(assert (forall ((m $M) (q $Q) (i Int)) (! (=> (and ($enum m q) (<= 0 i) (< i ($slen q))) (and ($has m ($sat q i)) (= ($idx q ($sat q i)) i))) :pattern (($enum m q) ($sat q i)))))
(assert (forall ((m $M) (q $Q) (k $K)) (! (=> (and ($enum m q) ($has m k)) (and (<= 0 ($idx q k)) (< ($idx q k) ($slen q)) (= ($sat q ($idx q k)) k))) :pattern (($enum m q) ($has m k)))))
`)
}

func isTheorySym(s string) bool {
	return strings.HasPrefix(s, "sq.") || strings.HasPrefix(s, "mp.")
}

// render produces the SMT-LIB text for a goal under facts.
func (sp *Spec) render(o *Obl, maxOrder int) string {
	q := newQuery(sp, o.Mode == "real")
	q.opaque = o.Opaque
	facts := append(append([]*Term{}, o.Facts...), o.Hints...)
	goal := extGoal(o.Goal)
	for _, f := range facts {
		q.add(f)
	}
	q.add(goal)
	ax := q.axioms(maxOrder)
	return q.text(facts, ax, goal)
}

// extGoal replaces equality of sequences and maps in positive positions by the
// extensional predicate.
func extGoal(g *Term) *Term {
	switch g.Op {
	case "=":
		s := g.Args[0].Sort
		if isSeqSort(s) {
			return raw("sq.eqs_"+s[3:], "Bool", g.Args[0], g.Args[1])
		}
		if isMapSort(s) {
			return raw("mp.eqm_"+s[3:], "Bool", g.Args[0], g.Args[1])
		}
	case "and", "or":
		n := make([]*Term, len(g.Args))
		for i, a := range g.Args {
			n[i] = extGoal(a)
		}
		return raw(g.Op, "Bool", n...)
	case "=>":
		return raw("=>", "Bool", g.Args[0], extGoal(g.Args[1]))
	case "ite":
		return raw("ite", "Bool", g.Args[0], extGoal(g.Args[1]), extGoal(g.Args[2]))
	case "forall":
		return Forall(g.Bound, extGoal(g.Args[0]), g.Pats...)
	}
	return g
}

func (q *query) text(facts, ax []*Term, goal *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	// sorts
	var dts []string
	var names []string
	for s := range q.sorts {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		switch {
		case s == "Int" || s == "Bool" || s == "Real":
		case structOf[s] != nil || strings.HasPrefix(s, "Pt_"):
			dts = append(dts, s)
		default:
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", smtSort(s))
		}
	}
	if len(dts) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, s := range dts {
			fmt.Fprintf(&sb, "(%s 0)", smtSort(s))
		}
		sb.WriteString(") (")
		for _, s := range dts {
			if si := structOf[s]; si != nil {
				sb.WriteString("((" + smtSym(si.Ctor))
				for i, f := range si.Fields {
					fmt.Fprintf(&sb, " (%s %s)", smtSym(f), smtSort(si.Sorts[i]))
				}
				sb.WriteString("))")
			} else {
				fmt.Fprintf(&sb, "((%s) (%s (%s %s)))", smtSym("nil_"+s), smtSym("ref_"+s), smtSym("deref_"+s), smtSort(ptrElem[s]))
			}
		}
		sb.WriteString("))\n")
	}
	for _, s := range names {
		if isSeqSort(s) {
			sb.WriteString(seqTheory(s))
		}
	}
	for _, s := range names {
		if isMapSort(s) {
			sb.WriteString(mapTheory(s))
		}
	}
	if q.sorts["If"] {
		sb.WriteString("(declare-fun nilI () If)\n(declare-fun tagI (If) Int)\n(assert (= (tagI nilI) 0))\n(assert (forall ((x If)) (! (=> (= (tagI x) 0) (= x nilI)) :pattern ((tagI x)))))\n")
	}
	declared := map[string]bool{"nilI": true, "tagI": true}
	decl := func(n string, s sig) {
		if declared[n] || isTheorySym(n) || ctorOf[n] {
			return
		}
		if strings.HasPrefix(n, "f_") {
			if _, ok := selectors[n]; ok {
				return
			}
		}
		if strings.HasPrefix(n, "nil_Pt_") || strings.HasPrefix(n, "ref_Pt_") || strings.HasPrefix(n, "deref_Pt_") {
			return
		}
		declared[n] = true
		fmt.Fprintf(&sb, "(declare-fun %s (", smtSym(n))
		for i, a := range s.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(smtSort(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", smtSort(s.ret))
	}
	// boxes
	usedBox := map[string]*boxInfo{}
	for n := range q.syms {
		if strings.HasPrefix(n, "box_") || strings.HasPrefix(n, "unbox_") {
			k := n[strings.IndexByte(n, '_')+1:]
			if b := boxes[k]; b != nil {
				usedBox[k] = b
			}
		}
	}
	for _, n := range q.order {
		decl(n, q.syms[n])
	}
	for _, k := range sortedKeys(usedBox) {
		b := usedBox[k]
		bx, ub, S := "box_"+k, "unbox_"+k, smtSort(b.Sort)
		decl(bx, sig{[]string{b.Sort}, "If"})
		decl(ub, sig{[]string{"If"}, b.Sort})
		fmt.Fprintf(&sb, "(assert (forall ((v %s)) (! (and (= (%s (%s v)) v) (= (tagI (%s v)) %d)) :pattern ((%s v)))))\n", S, smtSym(ub), smtSym(bx), smtSym(bx), b.Tag, smtSym(bx))
		fmt.Fprintf(&sb, "(assert (forall ((x If)) (! (=> (= (tagI x) %d) (= (%s (%s x)) x)) :pattern ((%s x)))))\n", b.Tag, smtSym(bx), smtSym(ub), smtSym(ub))
	}
	// errors
	var errcs []string
	for _, n := range q.order {
		if strings.HasPrefix(n, "nzerr!") || strings.HasPrefix(n, "nzerrc!") {
			fmt.Fprintf(&sb, "(assert (not (= %s nilI)))\n", smtSym(n))
		}
		if strings.HasPrefix(n, "nzerrc!") {
			errcs = append(errcs, smtSym(n))
		}
	}
	if len(errcs) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(errcs, " "))
	}
	// no sequence is longer than memory
	for _, n := range q.order {
		s := q.syms[n]
		if l := "sq.len_" + strings.TrimPrefix(smtSort(s.ret), "Sq_"); len(s.args) == 0 && strings.HasPrefix(smtSort(s.ret), "Sq_") && q.syms[l].ret != "" {
			fmt.Fprintf(&sb, "(assert (<= (%s %s) %s))\n", smtSym(l), smtSym(n), maxLen)
		}
	}
	for _, n := range q.order {
		s := q.syms[n]
		if l := "mp.len_" + strings.TrimPrefix(s.ret, "Mp_"); len(s.args) == 0 && isMapSort(s.ret) && q.syms[l].ret != "" {
			fmt.Fprintf(&sb, "(assert (<= (%s %s) %s))\n", smtSym(l), smtSym(n), maxLen)
		}
	}
	// integer ranges of constants and functions
	for _, n := range q.order {
		r, ok := symRange[n]
		if !ok || q.syms[n].ret != "Int" || isTheorySym(n) {
			continue
		}
		if _, sel := selectors[n]; sel {
			// struct fields: machine range, for every structure
		}
		var vars, call string
		if len(q.syms[n].args) == 0 {
			call = smtSym(n)
		} else {
			call = "(" + smtSym(n)
			for i, a := range q.syms[n].args {
				vars += fmt.Sprintf("(x%d %s)", i, smtSort(a))
				call += fmt.Sprintf(" x%d", i)
			}
			call += ")"
		}
		var c []string
		if r.lo != nil {
			c = append(c, fmt.Sprintf("(<= %s %s)", BigC(r.lo).SMT(), call))
		}
		if r.hi != nil {
			c = append(c, fmt.Sprintf("(<= %s %s)", call, BigC(r.hi).SMT()))
		}
		if len(c) == 0 {
			continue
		}
		body := "(and " + strings.Join(c, " ") + ")"
		if vars == "" {
			fmt.Fprintf(&sb, "(assert %s)\n", body)
		} else if _, sel := selectors[n]; !sel {
			fmt.Fprintf(&sb, "(assert (forall (%s) (! %s :pattern (%s))))\n", vars, body, call)
		}
	}
	sb.WriteString(q.floatTheory(decl))
	sb.WriteString(q.leTheory(decl))
	// string literals: length, and content when short
	var lits []string
	for _, n := range q.order {
		if s, ok := strLits[n]; ok {
			lits = append(lits, smtSym(n))
			fmt.Fprintf(&sb, "(assert (= (sq.len_byte %s) %d))\n", smtSym(n), len(s))
			if len(s) <= 24 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&sb, "(assert (= (sq.at_byte %s %d) %d))\n", smtSym(n), i, s[i])
				}
			}
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, s := range sortedKeys(q.sorts) {
		at := ""
		if isSeqSort(s) {
			at = sqf("at", s)
		}
		if rg, ok := elemRange(s); ok && q.syms[at].ret != "" {
			fmt.Fprintf(&sb, "(assert (forall ((s %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s s))) (and (<= %s (%s s i)) (<= (%s s i) %s))) :pattern ((%s s i)))))\n", smtSort(s), smtSym(sqf("len", s)), BigC(rg.lo).SMT(), smtSym(at), smtSym(at), BigC(rg.hi).SMT(), smtSym(at))
		}
	}
	// sharing
	count := map[*Term]int{}
	var fields []*Term // integer fields hold machine integers
	var cnt func(t *Term)
	var all []*Term
	all = append(all, facts...)
	all = append(all, ax...)
	all = append(all, goal)
	cnt = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		if _, ok := selectors[t.Op]; ok && t.Sort == "Int" && !hasBound(t) {
			fields = append(fields, t)
		}
		for _, a := range t.Args {
			cnt(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				cnt(a)
			}
		}
	}
	for _, t := range all {
		cnt(t)
	}
	nm := map[*Term]string{}
	nid := 0
	var share func(t *Term, under bool)
	shared := map[*Term]bool{}
	share = func(t *Term, under bool) {
		if shared[t] {
			return
		}
		shared[t] = true
		for _, a := range t.Args {
			share(a, under)
		}
		if t.Op == "forall" || t.Op == "exists" || len(t.Args) == 0 || count[t] < 2 || hasBound(t) || t.Op == "int" {
			return
		}
		nid++
		name := fmt.Sprintf("sh!!%d", nid)
		var ts strings.Builder
		writeSMT(&ts, t, nm)
		// named by a constant rather than a macro: keeps instantiation small
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", name, smtSort(t.Sort), ts.String())
		nm[t] = name
	}
	for _, t := range facts {
		share(t, false)
	}
	share(goal, false)
	for _, t := range ax {
		share(t, false)
	}
	for _, t := range fields {
		if r, ok := symRange[t.Op]; ok && r.lo != nil && r.hi != nil {
			var ts strings.Builder
			writeSMT(&ts, t, nm)
			fmt.Fprintf(&sb, "(assert (and (<= %s %s) (<= %s %s)))\n", BigC(r.lo).SMT(), ts.String(), ts.String(), BigC(r.hi).SMT())
		}
	}
	for _, t := range ax {
		sb.WriteString("(assert ")
		writeSMT(&sb, t, nm)
		sb.WriteString(")\n")
	}
	for _, t := range facts {
		sb.WriteString("(assert ")
		writeSMT(&sb, t, nm)
		sb.WriteString(")\n")
	}
	sb.WriteString("(assert (not ")
	writeSMT(&sb, goal, nm)
	sb.WriteString("))\n(check-sat)\n")
	return sb.String()
}

func (q *query) floatTheory(decl func(string, sig)) string {
	var sb strings.Builder
	for _, w := range []string{"64", "32"} {
		F := "F" + w
		if !q.sorts[F] {
			continue
		}
		p := "f" + w
		decl(p+".nan", sig{[]string{F}, "Bool"})
		decl("rv."+F, sig{[]string{F}, "Real"})
		for _, o := range []string{"lt", "le", "eq"} {
			decl(p+"."+o, sig{[]string{F, F}, "Bool"})
		}
		// declared by the caller's builder; text after the declarations
	}
	return sb.String() + q.floatAxioms()
}

func (q *query) floatAxioms() string {
	var sb strings.Builder
	for _, w := range []string{"64", "32"} {
		F := "F" + w
		if !q.sorts[F] {
			continue
		}
		p := "f" + w
		inf := "(assert (forall ((x $F)) (! (=> (not ($p.nan x)) (and (<= (rv.$F $p.ninf) (rv.$F x)) (<= (rv.$F x) (rv.$F $p.pinf)))) :pattern ((rv.$F x)))))\n"
		if q.real {
			inf = "" // exact arithmetic knows no infinities
		}
		r := strings.NewReplacer("$INF", strings.NewReplacer("$F", F, "$p", p).Replace(inf), "$F", F, "$p", p)
		// rv orders the numbers; infinities sit at the ends
		sb.WriteString(r.Replace(`
(declare-fun $p.pinf () $F)
(declare-fun $p.ninf () $F)
(assert (not ($p.nan $p.pinf)))
(assert (not ($p.nan $p.ninf)))
$INF(assert (forall ((x $F) (y $F)) (! (= ($p.lt x y) (and (not ($p.nan x)) (not ($p.nan y)) (< (rv.$F x) (rv.$F y)))) :pattern (($p.lt x y)))))
(assert (forall ((x $F) (y $F)) (! (= ($p.le x y) (and (not ($p.nan x)) (not ($p.nan y)) (<= (rv.$F x) (rv.$F y)))) :pattern (($p.le x y)))))
(assert (forall ((x $F) (y $F)) (! (= ($p.eq x y) (and (not ($p.nan x)) (not ($p.nan y)) (= (rv.$F x) (rv.$F y)))) :pattern (($p.eq x y)))))
`))
		for _, n := range q.order {
			v, ok := floatLits[n]
			if !ok || q.syms[n].ret != F {
				continue
			}
			if q.real && (v != v || v-v != 0) {
				sb.WriteString("(error-exact-arithmetic-has-no-infinities)\n")
			}
			switch {
			case v != v:
				fmt.Fprintf(&sb, "(assert (%s.nan %s))\n", p, smtSym(n))
			case v > 1e308*1.7976931348623157:
				fmt.Fprintf(&sb, "(assert (= %s %s.pinf))\n", smtSym(n), p)
			case v < -1e308*1.7976931348623157:
				fmt.Fprintf(&sb, "(assert (= %s %s.ninf))\n", smtSym(n), p)
			default:
				lit := realLit(v)
				if strings.HasPrefix(lit, "-") {
					lit = "(- " + lit[1:] + ")"
				}
				fmt.Fprintf(&sb, "(assert (not (%s.nan %s)))\n(assert (= (rv.%s %s) %s))\n", p, smtSym(n), F, smtSym(n), lit)
				if !q.real {
					fmt.Fprintf(&sb, "(assert (< (rv.%s %s.ninf) %s))\n(assert (< %s (rv.%s %s.pinf)))\n", F, p, lit, lit, F, p)
				}
			}
		}
		has := func(o string) bool { _, ok := q.syms[p+"."+o]; return ok }
		if q.real && (has("bits") || has("frombits") || q.syms[p+".pinf"].ret != "" || q.syms[p+".ninf"].ret != "") {
			// exact reals have no bit patterns and no infinities: refuse to mix
			sb.WriteString("(error-exact-arithmetic-mixed-with-bit-patterns)\n")
		}
		if has("bits") || has("frombits") {
			b, fb := p+".bits", p+".frombits"
			if !has("bits") {
				fmt.Fprintf(&sb, "(declare-fun %s (%s) Int)\n", b, F)
			}
			if !has("frombits") {
				fmt.Fprintf(&sb, "(declare-fun %s (Int) %s)\n", fb, F)
			}
			fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (<= 0 (%s x)) (< (%s x) %s)) :pattern ((%s x)))))\n", F, fb, b, b, b, pow2(uint(map[string]int{"64": 64, "32": 32}[w])).String(), b)
			fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s (%s i)) i)) :pattern ((%s i)))))\n", pow2(uint(map[string]int{"64": 64, "32": 32}[w])).String(), b, fb, fb)
		}
		if q.real {
			sb.WriteString(realAxioms(q, p, F))
		}
	}
	if _, ok := q.syms["f32.of64"]; ok && q.real {
		sb.WriteString(real32(q))
	}
	if _, ok := q.syms["f64.of32"]; ok {
		o32 := ""
		if _, ok := q.syms["f32.of64"]; ok {
			o32 = "(= (f32.of64 (f64.of32 x)) x) "
		}
		fmt.Fprintf(&sb, "(assert (forall ((x F32)) (! (and %s(= (f64.nan (f64.of32 x)) (f32.nan x)) (=> (not (f32.nan x)) (= (rv.F64 (f64.of32 x)) (rv.F32 x)))) :pattern ((f64.of32 x)))))\n", o32)
	}
	return sb.String()
}

// realAxioms: exact arithmetic (used only for functions checked in real mode;
// rounding is stated as an assumption there).
func realAxioms(q *query, p, F string) string {
	var sb strings.Builder
	has := func(o string) bool { _, ok := q.syms[p+"."+o]; return ok }
	fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (not (%s.nan x)) :pattern ((rv.%s x)))))\n", F, p, F)
	for _, o := range []struct{ n, s string }{{"add", "+"}, {"sub", "-"}, {"mul", "*"}, {"div", "/"}} {
		if has(o.n) {
			g := "true"
			if o.n == "div" {
				g = fmt.Sprintf("(not (= (rv.%s y) 0.0))", F)
			}
			// by a constant: linear
			if o.n == "div" || o.n == "mul" {
				for _, n := range q.order {
					v, ok := floatLits[n]
					if !ok || q.syms[n].ret != F || v == 0 || v != v || v-v != 0 {
						continue
					}
					c := realLit(v)
					if strings.HasPrefix(c, "-") {
						c = "(- " + c[1:] + ")"
					}
					if o.n == "div" {
						c = "(/ 1.0 " + c + ")"
					}
					fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (= (rv.%s (%s.%s x %s)) (* %s (rv.%s x))) :pattern ((%s.%s x %s)))))\n", F, F, p, o.n, smtSym(n), c, F, p, o.n, smtSym(n))
					g = fmt.Sprintf("(and %s (not (= y %s)))", g, smtSym(n))
				}
			}
			fmt.Fprintf(&sb, "(assert (forall ((x %s) (y %s)) (! (=> %s (= (rv.%s (%s.%s x y)) (%s (rv.%s x) (rv.%s y)))) :pattern ((%s.%s x y)))))\n", F, F, g, F, p, o.n, o.s, F, F, p, o.n)
		}
	}
	if has("neg") {
		fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (= (rv.%s (%s.neg x)) (- (rv.%s x))) :pattern ((%s.neg x)))))\n", F, F, p, F, p)
	}
	if has("ofint") {
		fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (= (rv.%s (%s.ofint i)) (to_real i)) :pattern ((%s.ofint i)))))\n", F, p, p)
	}
	if has("floor") {
		fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (= (rv.%s (%s.floor x)) (to_real (to_int (rv.%s x)))) :pattern ((%s.floor x)))))\n", F, F, p, F, p)
	}
	if has("abs") {
		fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (= (rv.%s (%s.abs x)) (ite (< (rv.%s x) 0.0) (- (rv.%s x)) (rv.%s x))) :pattern ((%s.abs x)))))\n", F, F, p, F, F, F, p)
	}
	for n := range q.syms {
		if strings.HasPrefix(n, p+".toint_") {
			r := symRange[n]
			fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (=> (and (<= 0.0 (rv.%s x)) (<= (rv.%s x) (to_real %s))) (= (%s x) (to_int (rv.%s x)))) :pattern ((%s x)))))\n", F, F, F, BigC(r.hi).SMT(), n, F, n)
			fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (=> (and (<= (to_real %s) (rv.%s x)) (< (rv.%s x) 0.0)) (= (%s x) (- (to_int (- (rv.%s x)))))) :pattern ((%s x)))))\n", F, BigC(r.lo).SMT(), F, F, n, F, n)
		}
	}
	return sb.String()
}

// real32: rounding to 32 bits, abstracted by an error function of the value.
func real32(q *query) string {
	return `
(declare-fun r32 (Real) Real)
(assert (forall ((x F64)) (! (= (rv.F32 (f32.of64 x)) (r32 (rv.F64 x))) :pattern ((f32.of64 x)))))
`
}

func (q *query) leTheory(decl func(string, sig)) string {
	var sb strings.Builder
	for _, n := range []string{"2", "4", "8"} {
		_, a := q.syms["le"+n]
		_, b := q.syms["unle"+n]
		if !a && !b {
			continue
		}
		if !a {
			fmt.Fprintf(&sb, "(declare-fun le%s (Int) Sq_byte)\n", n)
		}
		if !b {
			fmt.Fprintf(&sb, "(declare-fun unle%s (Sq_byte) Int)\n", n)
		}
		lim := pow2(uint(map[string]int{"2": 16, "4": 32, "8": 64}[n])).String()
		fmt.Fprintf(&sb, "(assert (forall ((i Int)) (! (and (= (sq.len_byte (le%s i)) %s) (=> (and (<= 0 i) (< i %s)) (= (unle%s (le%s i)) i))) :pattern ((le%s i)))))\n", n, n, lim, n, n, n)
		fmt.Fprintf(&sb, "(assert (forall ((s Sq_byte)) (! (and (<= 0 (unle%s s)) (< (unle%s s) %s) (=> (= (sq.len_byte s) %s) (= (le%s (unle%s s)) s))) :pattern ((unle%s s)))))\n", n, n, lim, n, n, n, n)
	}
	return sb.String()
}

// ---- running solvers ----

type solver struct {
	name string
	cmd  func(file string, ms int) []string
}

var solvers = []solver{
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", ms), "smt.random_seed=1", f}
	}},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", ms), "--seed=1", f}
	}},
	{"z3", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-t:%d", ms), f} }},
}

var workDir string
var cacheDir = os.Getenv("GOVC_CACHE")

func runSolver(s solver, file string, ms int) (string, string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	a := s.cmd(file, ms)
	t0 := time.Now()
	out, _ := exec.CommandContext(ctx, a[0], a[1:]...).CombinedOutput()
	d := time.Since(t0).Seconds()
	o := strings.TrimSpace(string(out))
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	return first, o, d
}

// decide runs the portfolio on a query text.
func decide(text string, budget int) (status, by, output string, tm float64) {
	key := fmt.Sprintf("%x", sha256.Sum256([]byte(text)))
	if cacheDir != "" {
		if b, err := os.ReadFile(filepath.Join(cacheDir, key)); err == nil {
			p := strings.SplitN(string(b), " ", 2)
			return p[0], p[1], "", 0
		}
	}
	file := filepath.Join(workDir, key[:24]+".smt2")
	os.WriteFile(file, []byte(text), 0o644)
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(file)
	}
	status = "unknown"
	sched := []struct {
		s  int
		ms int
	}{{0, budget / 4}, {1, budget / 2}, {2, budget / 4}, {0, budget}}
	for _, st := range sched {
		r, o, d := runSolver(solvers[st.s], file, st.ms)
		tm += d
		if r == "unsat" {
			status, by = "proved", solvers[st.s].name
			break
		}
		if r == "sat" {
			status, by, output = "failed", solvers[st.s].name, r
			break
		}
		if strings.Contains(o, "error") {
			output = o
			if len(output) > 600 {
				output = output[:600]
			}
			if strings.HasPrefix(r, "(error") {
				break
			}
		}
	}
	if cacheDir != "" && status == "proved" {
		os.WriteFile(filepath.Join(cacheDir, key), []byte(status+" "+by), 0o644)
	}
	return
}

func (p *Prog) noteTrusted(s string) {
	p.mu.Lock()
	p.TrustedUsed[s] = true
	p.mu.Unlock()
}

// proveAll decides obligations in parallel.
func (sp *Spec) proveAll(obls []*Obl, order func(*Obl) int, budget int) {
	texts := make([]string, len(obls))
	for i, o := range obls {
		texts[i] = sp.render(o, order(o))
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				o := obls[i]
				if o.Goal == True && !o.Canary {
					o.Status, o.By = "proved", "simplifier"
					continue
				}
				o.Status, o.By, o.Output, o.Time = decide(texts[i], o.budget(budget))
				if o.Status != "proved" {
					o.Query = texts[i]
					if o.Unsup != "" {
						// outside the verifier's reach: fine only on impossible paths
						o.Status, o.Output = "unknown", "not supported: "+o.Unsup
					}
				}
			}
		}()
	}
	for i := range obls {
		ch <- i
	}
	close(ch)
	wg.Wait()
	// a few obligations left open: once more, with other seeds and more time
	var left []int
	for i, o := range obls {
		if o.Status == "unknown" && !o.Canary && o.Unsup == "" && o.Goal != False && os.Getenv("GOVC_NORETRY") == "" {
			left = append(left, i)
		}
	}
	if len(left) == 0 || len(left) > 8 {
		return
	}
	var wg2 sync.WaitGroup
	for _, i := range left {
		wg2.Add(1)
		go func(i int) {
			defer wg2.Done()
			o := obls[i]
			file := filepath.Join(workDir, fmt.Sprintf("retry%d.smt2", i))
			os.WriteFile(file, []byte(texts[i]), 0o644)
			defer os.Remove(file)
			for _, st := range retries {
				r, _, d := runSolver(st.s, file, budget*st.num/10)
				o.Time += d
				if r == "unsat" {
					o.Status, o.By, o.Output, o.Query = "proved", st.s.name, "", ""
					return
				}
			}
		}(i)
	}
	wg2.Wait()
}

// what an obligation left open is tried with once more: solver, tenths of the budget
var retries = []struct {
	s   solver
	num int
}{
	{solver{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", ms), "smt.random_seed=7", f}
	}}, 12},
	{solver{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", ms), "--seed=7", f}
	}}, 20},
	{solver{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", ms), "smt.random_seed=23", "smt.arith.solver=2", f}
	}}, 20},
}

func (o *Obl) budget(b int) int {
	if o.Canary {
		return 1200
	}
	return b
}
