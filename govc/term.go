package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Sorts are SMT sort names.
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Int   *big.Int
	Bound []*Term
	Pats  [][]*Term
	ID    int
	free  bool // contains bound variables
}

var (
	termTable = map[string]*Term{}
	termCount int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.Int != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	if len(t.Bound) > 0 {
		sb.WriteByte('!')
		for _, a := range t.Bound {
			fmt.Fprintf(&sb, ",%d", a.ID)
		}
		for _, p := range t.Pats {
			sb.WriteByte('{')
			for _, a := range p {
				fmt.Fprintf(&sb, ",%d", a.ID)
			}
		}
	}
	k := sb.String()
	if o, ok := termTable[k]; ok {
		return o
	}
	termCount++
	t.ID = termCount
	termTable[k] = t
	return t
}

func bigI(v int64) *big.Int { return big.NewInt(v) }
func pow2(k uint) *big.Int  { return new(big.Int).Lsh(big.NewInt(1), k) }

func IntC(v int64) *Term    { return BigC(big.NewInt(v)) }
func BigC(v *big.Int) *Term { return intern(&Term{Op: "int", Sort: "Int", Int: v}) }
func RealC(v string) *Term  { return intern(&Term{Op: "real:" + v, Sort: "Real"}) }
func raw(op, srt string, a ...*Term) *Term {
	return intern(&Term{Op: op, Sort: srt, Args: a})
}

var True = intern(&Term{Op: "true", Sort: "Bool"})
var False = intern(&Term{Op: "false", Sort: "Bool"})

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var makes a 0-ary symbol. Bound variables use names starting with "?".
func Var(name, srt string) *Term { return intern(&Term{Op: name, Sort: srt}) }

var freshN int

func Fresh(prefix, srt string) *Term {
	freshN++
	prefix = strings.Map(func(r rune) rune {
		if r == '!' || r == '_' || r == '.' || r == '$' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') {
			return r
		}
		return '_'
	}, prefix)
	return Var(fmt.Sprintf("%s!%d", prefix, freshN), srt)
}

// ranges of integer symbols and integer-valued functions
type rng struct{ lo, hi *big.Int }

var symRange = map[string]rng{"time.micro": {new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), bigI(1))}}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isVal() bool { return t.Op == "int" || t == True || t == False }

var maxLen = new(big.Int).Sub(pow2(62), bigI(1))

func isLenOp(op string) bool {
	return strings.HasPrefix(op, "sq.len_") || strings.HasPrefix(op, "mp.len_")
}

var ivCache = map[*Term]rng{}

func interval(t *Term) rng {
	if r, ok := ivCache[t]; ok {
		return r
	}
	r := interval1(t)
	ivCache[t] = r
	return r
}

func interval1(t *Term) rng {
	none := rng{}
	switch t.Op {
	case "int":
		return rng{t.Int, t.Int}
	case "+":
		lo, hi := bigI(0), bigI(0)
		for _, a := range t.Args {
			r := interval(a)
			if lo != nil && r.lo != nil {
				lo = new(big.Int).Add(lo, r.lo)
			} else {
				lo = nil
			}
			if hi != nil && r.hi != nil {
				hi = new(big.Int).Add(hi, r.hi)
			} else {
				hi = nil
			}
		}
		return rng{lo, hi}
	case "*":
		if len(t.Args) == 2 && t.Args[0].isInt() {
			r := interval(t.Args[1])
			c := t.Args[0].Int
			if c.Sign() >= 0 {
				var a, b *big.Int
				if r.lo != nil {
					a = new(big.Int).Mul(c, r.lo)
				}
				if r.hi != nil {
					b = new(big.Int).Mul(c, r.hi)
				}
				return rng{a, b}
			}
			var a, b *big.Int
			if r.hi != nil {
				a = new(big.Int).Mul(c, r.hi)
			}
			if r.lo != nil {
				b = new(big.Int).Mul(c, r.lo)
			}
			return rng{a, b}
		}
		return none
	case "mod":
		if t.Args[1].isInt() && t.Args[1].Int.Sign() > 0 {
			hi := new(big.Int).Sub(t.Args[1].Int, bigI(1))
			r := interval(t.Args[0])
			if r.lo != nil && r.lo.Sign() >= 0 && r.hi != nil && r.hi.Cmp(hi) < 0 {
				hi = r.hi
			}
			return rng{bigI(0), hi}
		}
	case "div":
		if t.Args[1].isInt() && t.Args[1].Int.Sign() > 0 {
			r := interval(t.Args[0])
			var lo, hi *big.Int
			if r.lo != nil {
				lo = new(big.Int).Div(r.lo, t.Args[1].Int)
			}
			if r.hi != nil {
				hi = new(big.Int).Div(r.hi, t.Args[1].Int)
			}
			return rng{lo, hi}
		}
	case "ite":
		a, b := interval(t.Args[1]), interval(t.Args[2])
		var lo, hi *big.Int
		if a.lo != nil && b.lo != nil {
			lo = a.lo
			if b.lo.Cmp(lo) < 0 {
				lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			hi = a.hi
			if b.hi.Cmp(hi) > 0 {
				hi = b.hi
			}
		}
		return rng{lo, hi}
	}
	if isLenOp(t.Op) {
		if t.Args[0].Op == "encU" {
			// at most one byte for every seven bits
			if r := interval(t.Args[0].Args[0]); r.hi != nil && r.hi.Sign() >= 0 {
				k := (r.hi.BitLen() + 6) / 7
				if k < 1 {
					k = 1
				}
				return rng{bigI(1), bigI(int64(k))}
			}
		}
		return rng{bigI(0), maxLen}
	}
	if t.Op == "sq.at_byte" {
		return rng{bigI(0), bigI(255)}
	}
	if r, ok := symRange[t.Op]; ok {
		return r
	}
	return none
}

// trailing zero bits known
func tz(t *Term) uint {
	switch t.Op {
	case "int":
		if t.Int.Sign() == 0 {
			return 4096
		}
		return t.Int.TrailingZeroBits()
	case "*":
		if t.Args[0].isInt() {
			return t.Args[0].Int.TrailingZeroBits() + tz(t.Args[1])
		}
	case "+":
		m := uint(4096)
		for _, a := range t.Args {
			if z := tz(a); z < m {
				m = z
			}
		}
		return m
	case "ite":
		a, b := tz(t.Args[1]), tz(t.Args[2])
		if a < b {
			return a
		}
		return b
	case "mod":
		if t.Args[1].isInt() {
			a, b := tz(t.Args[0]), t.Args[1].Int.TrailingZeroBits()
			if a < b {
				return a
			}
			return b
		}
	}
	return 0
}

// ---- arithmetic ----

// linear form: constant + sum coef*atom
func linear(t *Term, c *big.Int, acc map[*Term]*big.Int, k *big.Int) {
	switch t.Op {
	case "int":
		k.Add(k, new(big.Int).Mul(c, t.Int))
		return
	case "+":
		for _, a := range t.Args {
			linear(a, c, acc, k)
		}
		return
	case "*":
		if t.Args[0].isInt() {
			linear(t.Args[1], new(big.Int).Mul(c, t.Args[0].Int), acc, k)
			return
		}
	}
	if o, ok := acc[t]; ok {
		acc[t] = new(big.Int).Add(o, c)
	} else {
		acc[t] = c
	}
}

func fromLinear(acc map[*Term]*big.Int, k *big.Int) *Term {
	var atoms []*Term
	for a, c := range acc {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	var parts []*Term
	for _, a := range atoms {
		c := acc[a]
		if c.Cmp(bigI(1)) == 0 {
			parts = append(parts, a)
		} else {
			parts = append(parts, raw("*", "Int", BigC(c), a))
		}
	}
	if k.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigC(new(big.Int).Set(k)))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return raw("+", "Int", parts...)
}

func Add(ts ...*Term) *Term {
	if len(ts) > 0 && ts[0].Sort == "Real" {
		return raw("+", "Real", ts...)
	}
	acc := map[*Term]*big.Int{}
	k := new(big.Int)
	for _, t := range ts {
		linear(t, bigI(1), acc, k)
	}
	return fromLinear(acc, k)
}

func Sub(a, b *Term) *Term {
	if a.Sort == "Real" {
		return raw("-", "Real", a, b)
	}
	acc := map[*Term]*big.Int{}
	k := new(big.Int)
	linear(a, bigI(1), acc, k)
	linear(b, bigI(-1), acc, k)
	return fromLinear(acc, k)
}

func Neg(a *Term) *Term {
	if a.Sort == "Real" {
		return raw("-", "Real", a)
	}
	return Sub(IntC(0), a)
}

func Mul(a, b *Term) *Term {
	if a.Sort == "Real" {
		return raw("*", "Real", a, b)
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		acc := map[*Term]*big.Int{}
		k := new(big.Int)
		linear(b, a.Int, acc, k)
		return fromLinear(acc, k)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return raw("*", "Int", a, b)
}

func Div(a, b *Term) *Term { // SMT (floor for positive divisor)
	if b.isInt() && b.Int.Sign() > 0 {
		if a.isInt() {
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(a.Int, b.Int, m)
			return BigC(q)
		}
		if b.Int.Cmp(bigI(1)) == 0 {
			return a
		}
		r := interval(a)
		if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.Int) < 0 {
			return IntC(0)
		}
		if a.Op == "div" && a.Args[1].isInt() && a.Args[1].Int.Sign() > 0 {
			return Div(a.Args[0], BigC(new(big.Int).Mul(a.Args[1].Int, b.Int)))
		}
		if a.Op == "*" && len(a.Args) == 2 && a.Args[0].isInt() {
			q, m := new(big.Int).DivMod(a.Args[0].Int, b.Int, new(big.Int))
			if m.Sign() == 0 {
				return Mul(BigC(q), a.Args[1])
			}
		}
	}
	return raw("div", "Int", a, b)
}

func Mod(a, b *Term) *Term {
	if b.isInt() && b.Int.Sign() > 0 {
		if a.isInt() {
			return BigC(new(big.Int).Mod(a.Int, b.Int))
		}
		if b.Int.Cmp(bigI(1)) == 0 {
			return IntC(0)
		}
		r := interval(a)
		if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.Int) < 0 {
			return a
		}
		if a.Op == "mod" && a.Args[1].isInt() && a.Args[1].Int.Sign() > 0 {
			if new(big.Int).Mod(a.Args[1].Int, b.Int).Sign() == 0 {
				return Mod(a.Args[0], b)
			}
		}
		if a.Op == "div" && a.Args[1].isInt() && a.Args[1].Int.Sign() > 0 && a.Args[0].Op == "mod" && a.Args[0].Args[1].isInt() {
			// floor((x mod M)/d) mod b = floor(x/d) mod b when d*b divides M
			if new(big.Int).Mod(a.Args[0].Args[1].Int, new(big.Int).Mul(a.Args[1].Int, b.Int)).Sign() == 0 {
				return Mod(Div(a.Args[0].Args[0], a.Args[1]), b)
			}
		}
		// drop summands that are multiples of b
		if a.Op == "+" {
			var keep []*Term
			bt := b.Int.TrailingZeroBits()
			if b.Int.Cmp(pow2(bt)) == 0 {
				for _, x := range a.Args {
					if tz(x) < bt {
						keep = append(keep, x)
					}
				}
				if len(keep) < len(a.Args) {
					if len(keep) == 0 {
						return IntC(0)
					}
					return Mod(Add(keep...), b)
				}
			}
		}
		if a.Op == "*" && b.Int.Cmp(pow2(b.Int.TrailingZeroBits())) == 0 && tz(a) >= b.Int.TrailingZeroBits() {
			return IntC(0)
		}
	}
	return raw("mod", "Int", a, b)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort == "Real" {
		return raw("<=", "Bool", a, b)
	}
	// normalise: lhs atoms with positive leading coef
	d := Sub(b, a) // d >= 0
	r := interval(d)
	if r.lo != nil && r.lo.Sign() >= 0 {
		return True
	}
	if r.hi != nil && r.hi.Sign() < 0 {
		return False
	}
	acc := map[*Term]*big.Int{}
	k := new(big.Int)
	linear(d, bigI(1), acc, k)
	pos := map[*Term]*big.Int{}
	neg := map[*Term]*big.Int{}
	for t, c := range acc {
		if c.Sign() > 0 {
			pos[t] = c
		} else if c.Sign() < 0 {
			neg[t] = new(big.Int).Neg(c)
		}
	}
	kp, kn := new(big.Int), new(big.Int)
	if k.Sign() > 0 {
		kp.Set(k)
	} else {
		kn.Neg(k)
	}
	return raw("<=", "Bool", fromLinear(neg, kn), fromLinear(pos, kp))
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return raw("not", "Bool", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False || seen[Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = Not(t)
	}
	// keep a readable (or ...) form
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False || seen[t] {
			continue
		}
		if t == True || seen[Not(t)] {
			return True
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("or", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return raw("=>", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	return raw("ite", a.Sort, c, a, b)
}

// constructors: function name -> true. Distinct constructors differ, and each is injective.
var ctorOf = map[string]bool{}

// boxes: box function -> true
var boxTag = map[string]int{}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq on different sorts: %s:%s vs %s:%s", short(a), a.Sort, short(b), b.Sort))
	}
	if a.Sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.Sort == "Int" {
		d := Sub(a, b)
		if d.isInt() {
			return BoolC(d.Int.Sign() == 0)
		}
		r := interval(d)
		if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
			return False
		}
	}
	_, ab := boxTag[a.Op]
	_, bb := boxTag[b.Op]
	if ab && bb {
		if a.Op != b.Op {
			return False
		}
		return Eq(a.Args[0], b.Args[0])
	}
	if (ab && b.Op == "nilI") || (bb && a.Op == "nilI") {
		return False
	}
	if (isErrCtor(a.Op) && b.Op == "nilI") || (isErrCtor(b.Op) && a.Op == "nilI") {
		return False
	}
	if ctorOf[a.Op] && ctorOf[b.Op] {
		if a.Op != b.Op {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if isSeqSort(a.Sort) {
		if strings.HasPrefix(a.Op, "strlit!") && strings.HasPrefix(b.Op, "strlit!") {
			return False
		}
		e := sqEmpty(a.Sort)
		if a == e {
			return Eq(sqLen(b), IntC(0))
		}
		if b == e {
			return Eq(sqLen(a), IntC(0))
		}
		// strip common prefix
		if a.Op == sqf("cat", a.Sort) && b.Op == a.Op && a.Args[0] == b.Args[0] {
			return Eq(a.Args[1], b.Args[1])
		}
		if a.Op == sqf("unit", a.Sort) && b.Op == a.Op && isElem(a.Sort, a.Args[0]) && isElem(a.Sort, b.Args[0]) {
			return Eq(a.Args[0], b.Args[0])
		}
		if a.Op == sqf("cat", a.Sort) && b.Op == a.Op && a.Args[0].Op == b.Args[0].Op && a.Args[0].Op == sqf("unit", a.Sort) && isElem(a.Sort, a.Args[0].Args[0]) && isElem(a.Sort, b.Args[0].Args[0]) {
			return And(Eq(a.Args[0].Args[0], b.Args[0].Args[0]), Eq(a.Args[1], b.Args[1]))
		}
	}
	if a.Op == "ite" && b.isVal() {
		if a.Args[1].isVal() && a.Args[2].isVal() {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return raw("=", "Bool", a, b)
}

func isErrCtor(op string) bool {
	return strings.HasPrefix(op, "nzerr!") || strings.HasPrefix(op, "nzerrc!")
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || len(bound) == 0 {
		return body
	}
	return intern(&Term{Op: "forall", Sort: "Bool", Args: []*Term{body}, Bound: bound, Pats: pats})
}

func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	if body == False || len(bound) == 0 {
		return body
	}
	return intern(&Term{Op: "exists", Sort: "Bool", Args: []*Term{body}, Bound: bound, Pats: pats})
}

// ---- sequences ----

// A sequence sort is named Sq_<elem>; seqElem gives the SMT sort of elements.
var seqElem = map[string]string{}

func isSeqSort(s string) bool  { return strings.HasPrefix(s, "Sq_") }
func sqf(f, srt string) string { return "sq." + f + "_" + srt[3:] }

const Bytes = "Sq_byte"

func init() { seqElem[Bytes] = "Int" }

func sqEmpty(s string) *Term { return raw(sqf("empty", s), s) }

func sqUnit(s string, v *Term) *Term { return raw(sqf("unit", s), s, v) }

func sqRep(s string, n, v *Term) *Term {
	if n.isInt() {
		k := n.Int.Int64()
		if k <= 0 {
			return sqEmpty(s)
		}
		if k <= 64 {
			parts := make([]*Term, k)
			for i := range parts {
				parts[i] = sqUnit(s, v)
			}
			return sqCat(parts...)
		}
	}
	return raw(sqf("rep", s), s, n, v)
}

func sqLen(t *Term) *Term {
	s := t.Sort
	switch t.Op {
	case sqf("empty", s):
		return IntC(0)
	case sqf("unit", s):
		return IntC(1)
	case sqf("cat", s):
		return Add(sqLen(t.Args[0]), sqLen(t.Args[1]))
	case sqf("upd", s):
		return sqLen(t.Args[0])
	case sqf("rep", s):
		if r := interval(t.Args[0]); r.lo != nil && r.lo.Sign() >= 0 {
			return t.Args[0]
		}
	case sqf("take", s):
		if n, ok := takeLen(t); ok {
			return n
		}
	case sqf("drop", s):
		n := t.Args[1]
		l := sqLen(t.Args[0])
		if provablyLe(IntC(0), n) && provablyLe(n, l) {
			return Sub(l, n)
		}
	case "ite":
		a, b := sqLen(t.Args[1]), sqLen(t.Args[2])
		if a == b {
			return a
		}
	}
	if n, ok := strLitLen[t.Op]; ok {
		return IntC(int64(n))
	}
	return raw(sqf("len", s), "Int", t)
}

var strLitLen = map[string]int{"le2": 2, "le4": 4, "le8": 8}

func takeLen(t *Term) (*Term, bool) {
	n := t.Args[1]
	if provablyLe(IntC(0), n) && provablyLe(n, sqLen(t.Args[0])) {
		return n, true
	}
	return nil, false
}

func provablyLe(a, b *Term) bool { return Le(a, b) == True }

func sqCat(ts ...*Term) *Term {
	var flat []*Term
	s := ts[0].Sort
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.Op == sqf("cat", s) {
			fl(t.Args[0])
			fl(t.Args[1])
			return
		}
		if t.Op == sqf("empty", s) {
			return
		}
		flat = append(flat, t)
	}
	for _, t := range ts {
		fl(t)
	}
	if len(flat) == 0 {
		return sqEmpty(s)
	}
	r := flat[len(flat)-1]
	for i := len(flat) - 2; i >= 0; i-- {
		r = raw(sqf("cat", s), s, flat[i], r)
	}
	return r
}

func sqTake(t, n *Term) *Term {
	s := t.Sort
	if n.isInt() && n.Int.Sign() <= 0 {
		return sqEmpty(s)
	}
	l := sqLen(t)
	if provablyLe(l, n) {
		return t
	}
	if t.Op == sqf("cat", s) {
		a, b := t.Args[0], t.Args[1]
		la := sqLen(a)
		if la == n {
			return a
		}
		if provablyLe(la, n) {
			return sqCat(a, sqTake(b, Sub(n, la)))
		}
		if provablyLe(n, la) {
			return sqTake(a, n)
		}
	}
	if t.Op == sqf("take", s) {
		m := t.Args[1]
		if provablyLe(n, m) {
			return sqTake(t.Args[0], n)
		}
		if provablyLe(m, n) {
			return t
		}
	}
	if t.Op == sqf("rep", s) && provablyLe(IntC(0), n) && provablyLe(n, t.Args[0]) {
		return sqRep(s, n, t.Args[1])
	}
	if t.Op == sqf("upd", s) { // writes are only built in range
		k := t.Args[1]
		if provablyLe(n, k) {
			return sqTake(t.Args[0], n)
		}
		if n == Add(k, IntC(1)) && isElem(s, t.Args[2]) {
			return sqCat(sqTake(t.Args[0], k), sqUnit(s, t.Args[2]))
		}
	}
	return raw(sqf("take", s), s, t, n)
}

func sqDrop(t, n *Term) *Term {
	s := t.Sort
	if n.isInt() && n.Int.Sign() <= 0 {
		return t
	}
	l := sqLen(t)
	if provablyLe(l, n) {
		return sqEmpty(s)
	}
	if t.Op == sqf("cat", s) {
		a, b := t.Args[0], t.Args[1]
		la := sqLen(a)
		if la == n {
			return b
		}
		if provablyLe(la, n) {
			return sqDrop(b, Sub(n, la))
		}
		if provablyLe(n, la) {
			return sqCat(sqDrop(a, n), b)
		}
	}
	if t.Op == sqf("drop", s) && provablyLe(IntC(0), t.Args[1]) && provablyLe(IntC(0), n) {
		return sqDrop(t.Args[0], Add(t.Args[1], n))
	}
	return raw(sqf("drop", s), s, t, n)
}

// elemRange is the range of the elements of sequences of machine integers.
func elemRange(s string) (rng, bool) {
	if s == Bytes {
		return rng{bigI(0), bigI(255)}, true
	}
	if !isSeqSort(s) {
		return rng{}, false
	}
	r, ok := symRange[sqf("at", s)]
	return r, ok
}

// isElem: v is certainly a possible element of sequences of sort s.
func isElem(s string, v *Term) bool {
	r, ok := elemRange(s)
	if !ok {
		return true
	}
	i := interval(v)
	return i.lo != nil && i.hi != nil && i.lo.Cmp(r.lo) >= 0 && i.hi.Cmp(r.hi) <= 0
}

func sqAt(t, i *Term) *Term {
	s := t.Sort
	switch t.Op {
	case sqf("unit", s):
		if i.isInt() && i.Int.Sign() == 0 && isElem(s, t.Args[0]) {
			return t.Args[0]
		}
	case sqf("cat", s):
		la := sqLen(t.Args[0])
		if provablyLe(la, i) {
			return sqAt(t.Args[1], Sub(i, la))
		}
		if Lt(i, la) == True && provablyLe(IntC(0), i) {
			return sqAt(t.Args[0], i)
		}
	case sqf("upd", s):
		e := Eq(t.Args[1], i)
		if e == True {
			// only valid in range
			if provablyLe(IntC(0), i) && Lt(i, sqLen(t)) == True && isElem(s, t.Args[2]) {
				return t.Args[2]
			}
		}
		if e == False {
			return sqAt(t.Args[0], i)
		}
	case sqf("rep", s):
		if provablyLe(IntC(0), i) && Lt(i, t.Args[0]) == True && isElem(s, t.Args[1]) {
			return t.Args[1]
		}
	case sqf("take", s):
		if provablyLe(IntC(0), i) && Lt(i, t.Args[1]) == True {
			return sqAt(t.Args[0], i)
		}
	case sqf("drop", s):
		if provablyLe(IntC(0), i) && provablyLe(IntC(0), t.Args[1]) {
			return sqAt(t.Args[0], Add(t.Args[1], i))
		}
	}
	return raw(sqf("at", s), seqElem[s], t, i)
}

// sqUpd is only built when the index is in range (an obligation of the caller).
func sqUpd(t, i, v *Term) *Term {
	s := t.Sort
	if t.Op == sqf("unit", s) && i.isInt() && i.Int.Sign() == 0 {
		return sqUnit(s, v)
	}
	if t.Op == sqf("cat", s) {
		la := sqLen(t.Args[0])
		if provablyLe(la, i) {
			return sqCat(t.Args[0], sqUpd(t.Args[1], Sub(i, la), v))
		}
		if Lt(i, la) == True {
			return sqCat(sqUpd(t.Args[0], i, v), t.Args[1])
		}
	}
	if t.Op == sqf("upd", s) && t.Args[1] == i {
		return sqUpd(t.Args[0], i, v)
	}
	if t.Op == sqf("upd", s) && i.isInt() {
		// an older write to the same element is lost
		b := t
		var over []*Term
		for b.Op == sqf("upd", s) && b.Args[1].isInt() && b.Args[1] != i {
			over = append(over, b)
			b = b.Args[0]
		}
		if b.Op == sqf("upd", s) && b.Args[1] == i {
			b = b.Args[0]
			for k := len(over) - 1; k >= 0; k-- {
				b = raw(sqf("upd", s), s, b, over[k].Args[1], over[k].Args[2])
			}
			t = b
		}
	}
	return raw(sqf("upd", s), s, t, i, v)
}

// ---- maps: sort Mp_<k>_<v> ----

type mapInfo struct{ key, val string }

var mapSorts = map[string]mapInfo{}

func isMapSort(s string) bool  { return strings.HasPrefix(s, "Mp_") }
func mpf(f, srt string) string { return "mp." + f + "_" + srt[3:] }

func mpEmpty(s string) *Term { return raw(mpf("empty", s), s) }
func mpHas(m, k *Term) *Term {
	s := m.Sort
	switch m.Op {
	case mpf("empty", s):
		return False
	case mpf("set", s):
		e := Eq(m.Args[1], k)
		if e == True {
			return True
		}
		if e == False {
			return mpHas(m.Args[0], k)
		}
	}
	return raw(mpf("has", s), "Bool", m, k)
}
func mpGet(m, k *Term) *Term {
	s := m.Sort
	if m.Op == mpf("set", s) {
		e := Eq(m.Args[1], k)
		if e == True {
			return m.Args[2]
		}
		if e == False {
			return mpGet(m.Args[0], k)
		}
	}
	return raw(mpf("get", s), mapSorts[s].val, m, k)
}
func mpSet(m, k, v *Term) *Term { return raw(mpf("set", m.Sort), m.Sort, m, k, v) }
func mpLen(m *Term) *Term {
	if m.Op == mpf("empty", m.Sort) {
		return IntC(0)
	}
	return raw(mpf("len", m.Sort), "Int", m)
}

// ---- application with simplification ----

// selector name -> (ctor name, field index)
type selInfo struct {
	ctor string
	idx  int
}

var selectors = map[string]selInfo{}

func App(f, srt string, args ...*Term) *Term {
	if si, ok := selectors[f]; ok {
		if args[0].Op == si.ctor {
			return args[0].Args[si.idx]
		}
		if args[0].Op == "ite" {
			return Ite(args[0].Args[0], App(f, srt, args[0].Args[1]), App(f, srt, args[0].Args[2]))
		}
	}
	if ctorOf[f] {
		// eta: mk(sel0 x, sel1 x, ...) = x
		var base *Term
		ok := len(args) > 0
		for i, a := range args {
			si, is := selectors[a.Op]
			if !is || si.ctor != f || si.idx != i || (base != nil && a.Args[0] != base) {
				ok = false
				break
			}
			base = a.Args[0]
		}
		if ok {
			return base
		}
	}
	if f == "time.micro" && args[0].Op == "time.ofmicro" { // exact on all of int64
		return args[0].Args[0]
	}
	if strings.HasPrefix(f, "unbox_") && len(args) == 1 && args[0].Op == "box_"+f[6:] {
		return args[0].Args[0]
	}
	if f == "tagI" {
		if n, ok := boxTag[args[0].Op]; ok {
			return IntC(int64(n))
		}
		if args[0].Op == "nilI" {
			return IntC(0)
		}
		if isErrCtor(args[0].Op) {
			return IntC(-1)
		}
	}
	return raw(f, srt, args...)
}

// rebuild re-applies simplifying constructors after substitution
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(args...)
	case "-":
		if len(args) == 1 {
			return Neg(args[0])
		}
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	}
	if strings.HasPrefix(t.Op, "obs_") && obsReduce != nil {
		return obsReduce(t.Op, t.Sort, args)
	}
	if strings.HasPrefix(t.Op, "sq.") {
		i := strings.Index(t.Op, "_")
		switch t.Op[3:i] {
		case "len":
			return sqLen(args[0])
		case "cat":
			return sqCat(args...)
		case "take":
			return sqTake(args[0], args[1])
		case "drop":
			return sqDrop(args[0], args[1])
		case "at":
			return sqAt(args[0], args[1])
		case "upd":
			return sqUpd(args[0], args[1], args[2])
		case "rep":
			return sqRep(t.Sort, args[0], args[1])
		}
	}
	if strings.HasPrefix(t.Op, "mp.") {
		i := strings.Index(t.Op, "_")
		switch t.Op[3:i] {
		case "has":
			return mpHas(args[0], args[1])
		case "get":
			return mpGet(args[0], args[1])
		case "len":
			return mpLen(args[0])
		}
	}
	return App(t.Op, t.Sort, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			pats := make([][]*Term, len(t.Pats))
			for i, p := range t.Pats {
				for _, x := range p {
					pats[i] = append(pats[i], rec(x))
				}
			}
			if t.Op == "forall" {
				r = Forall(t.Bound, args[0], pats...)
			} else {
				r = Exists(t.Bound, args[0], pats...)
			}
		} else if !changed {
			r = t
		} else {
			r = rebuild(t, args)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func short(t *Term) string {
	s := t.SMT()
	if n := 300; len(s) > n {
		if os.Getenv("GOVC_LONG") != "" {
			return s
		}
		return s[:n] + "..."
	}
	return s
}

func smtSym(s string) string {
	for _, r := range s {
		if !(r == '_' || r == '.' || r == '!' || r == '$' || r == '?' || r == '-' || r == '<' || r == '>' || r == '=' || r == '+' || r == '*' || r == '/' || r == '@' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z')) {
			return "|" + s + "|"
		}
	}
	return s
}

func (t *Term) SMT() string {
	var sb strings.Builder
	writeSMT(&sb, t, nil)
	return sb.String()
}

func writeSMT(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Int).String())
		} else {
			sb.WriteString(t.Int.String())
		}
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			fmt.Fprintf(sb, "(%s %s)", smtSym(b.Op), smtSort(b.Sort))
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeSMT(sb, t.Args[0], names)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeSMT(sb, x, names)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if strings.HasPrefix(t.Op, "real:") {
		v := t.Op[5:]
		if strings.HasPrefix(v, "-") {
			v = "(- " + v[1:] + ")"
		}
		sb.WriteString(v)
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(smtSym(t.Op))
		return
	}
	sb.WriteString("(" + smtSym(t.Op))
	for _, a := range t.Args {
		sb.WriteByte(' ')
		writeSMT(sb, a, names)
	}
	sb.WriteString(")")
}

func smtSort(s string) string { return smtSym(s) }

// obsReduce rebuilds an observer application (set once a program is loaded).
var obsReduce func(op, srt string, args []*Term) *Term
