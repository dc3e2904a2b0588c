package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isFloatSort(s string) bool { return s == "F64" || s == "F32" }

func fop(op string, srt string) string { return strings.ToLower(srt) + "." + op }

func FLt(a, b *Term) *Term { return App(fop("lt", a.Sort), "Bool", a, b) }
func FLe(a, b *Term) *Term { return App(fop("le", a.Sort), "Bool", a, b) }
func FEq(a, b *Term) *Term { return App(fop("eq", a.Sort), "Bool", a, b) }

func (x *Exec) binop(s *State, i *ssa.BinOp) Value {
	av, bv := x.val(s, i.X), x.val(s, i.Y)
	switch i.Op {
	case token.EQL:
		return x.equal(s, av, bv, i.X.Type(), i.Y.Type())
	case token.NEQ:
		return Not(x.equal(s, av, bv, i.X.Type(), i.Y.Type()))
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T", i.Op, av)
	}
	if isFloatSort(a.Sort) {
		switch i.Op {
		case token.LSS:
			return FLt(a, b)
		case token.GTR:
			return FLt(b, a)
		case token.LEQ:
			return FLe(a, b)
		case token.GEQ:
			return FLe(b, a)
		case token.ADD:
			return App(fop("add", a.Sort), a.Sort, a, b)
		case token.SUB:
			return App(fop("sub", a.Sort), a.Sort, a, b)
		case token.MUL:
			return App(fop("mul", a.Sort), a.Sort, a, b)
		case token.QUO:
			return App(fop("div", a.Sort), a.Sort, a, b)
		}
		unsupported("float operator %s", i.Op)
	}
	if a.Sort == Bytes {
		switch i.Op {
		case token.ADD:
			return sqCat(a, b)
		case token.LSS:
			return App("str.lt", "Bool", a, b)
		case token.GTR:
			return App("str.lt", "Bool", b, a)
		case token.LEQ:
			return Not(App("str.lt", "Bool", b, a))
		case token.GEQ:
			return Not(App("str.lt", "Bool", a, b))
		}
		unsupported("string operator %s", i.Op)
	}
	if a.Sort == "Bool" {
		switch i.Op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	t := i.Type()
	exact := func(v *Term) *Term {
		bt := t.Underlying().(*types.Basic)
		switch bt.Kind() {
		case types.Int, types.Int64, types.UntypedInt:
			return v // additive overflow of 64-bit signed integers is assumed absent
		}
		return wrapInt(v, t, true)
	}
	switch i.Op {
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.ADD:
		v := Add(a, b)
		if isUnsigned(t) {
			return x.wrapKnown(s, v, t)
		}
		return exact(v)
	case token.SUB:
		v := Sub(a, b)
		if isUnsigned(t) {
			return x.wrapKnown(s, v, t)
		}
		return exact(v)
	case token.MUL:
		v := Mul(a, b)
		if isUnsigned(t) {
			return x.wrapKnown(s, v, t)
		}
		return exact(v)
	case token.QUO, token.REM:
		nz := Not(Eq(b, IntC(0)))
		x.oblige(s, "division-by-zero", nz)
		s.assume(nz)
		ra, rb := interval(a), interval(b)
		if ra.lo != nil && ra.lo.Sign() >= 0 && rb.lo != nil && rb.lo.Sign() > 0 {
			if i.Op == token.QUO {
				return Div(a, b)
			}
			return Mod(a, b)
		}
		if rb.lo != nil && rb.lo.Sign() > 0 {
			// truncation towards zero
			q := Ite(Le(IntC(0), a), Div(a, b), Neg(Div(Neg(a), b)))
			if i.Op == token.QUO {
				return q
			}
			return Ite(Le(IntC(0), a), Mod(a, b), Neg(Mod(Neg(a), b)))
		}
		unsupported("division with a divisor of unknown sign")
	case token.SHL:
		if b.isInt() {
			k := b.Int.Uint64()
			if k > 200 {
				return IntC(0)
			}
			return wrapInt(Mul(BigC(pow2(uint(k))), a), t, false)
		}
		x.shiftCount(s, b, i.Y.Type())
		return wrapInt(App("shl", "Int", a, b), t, false)
	case token.SHR:
		if b.isInt() {
			k := b.Int.Uint64()
			if k > 200 {
				k = 200
			}
			return Div(a, BigC(pow2(uint(k))))
		}
		x.shiftCount(s, b, i.Y.Type())
		return wrapInt(App("shr", "Int", a, b), t, false)
	case token.AND:
		return bitAnd(a, b, t)
	case token.OR:
		return bitOr(a, b, t)
	case token.XOR:
		if a.isInt() && b.isInt() && a.Int.Sign() >= 0 && b.Int.Sign() >= 0 {
			return BigC(new(big.Int).Xor(a.Int, b.Int))
		}
		return wrapInt(App("bxor", "Int", a, b), t, false)
	case token.AND_NOT:
		if b.isInt() && b.Int.Sign() >= 0 {
			return Sub(a, bitAnd(a, b, t))
		}
		return wrapInt(App("bandnot", "Int", a, b), t, false)
	}
	unsupported("operator %s", i.Op)
	return nil
}

func (x *Exec) shiftCount(s *State, b *Term, t types.Type) {
	if !isUnsigned(t) {
		x.oblige(s, "negative-shift", Le(IntC(0), b))
	}
}

// wrapKnown avoids the modulus when the facts of the path show it is not needed.
func (x *Exec) wrapKnown(s *State, v *Term, t types.Type) *Term {
	w := wrapInt(v, t, true)
	if w == v {
		return v
	}
	r, _ := intRange(t.Underlying().(*types.Basic))
	iv := interval(v)
	lo := iv.lo != nil && iv.lo.Cmp(r.lo) >= 0
	hi := iv.hi != nil && iv.hi.Cmp(r.hi) <= 0
	if !lo {
		if b, ok := decideByFacts(s.Facts, Le(BigC(r.lo), v)); ok && b {
			lo = true
		}
	}
	if !hi {
		if b, ok := decideByFacts(s.Facts, Le(v, BigC(r.hi))); ok && b {
			hi = true
		} else {
			// v < B with B in range
			for _, f := range s.Facts {
				if f.Op == "not" && f.Args[0].Op == "<=" {
					big, small := f.Args[0].Args[0], f.Args[0].Args[1]
					if ib := interval(big); ib.hi != nil && ib.hi.Cmp(r.hi) <= 0 {
						if d := Sub(v, small); d.isInt() && d.Int.Cmp(bigI(1)) <= 0 {
							hi = true
						}
					}
				}
			}
		}
	}
	if lo && hi {
		return v
	}
	return w
}

func bitAnd(a, b *Term, t types.Type) *Term {
	if a.isInt() {
		a, b = b, a
	}
	if a.isInt() && b.isInt() && a.Int.Sign() >= 0 && b.Int.Sign() >= 0 {
		return BigC(new(big.Int).And(a.Int, b.Int))
	}
	if b.isInt() && b.Int.Sign() >= 0 {
		if b.Int.Sign() == 0 {
			return IntC(0)
		}
		// contiguous mask
		z := b.Int.TrailingZeroBits()
		m := new(big.Int).Rsh(b.Int, z)
		w := uint(m.BitLen())
		if new(big.Int).Add(m, bigI(1)).Cmp(pow2(w)) == 0 {
			ia := interval(a)
			if ia.lo != nil && ia.lo.Sign() >= 0 || true {
				return Mul(BigC(pow2(z)), Mod(Div(a, BigC(pow2(z))), BigC(pow2(w))))
			}
		}
		// sum of single bits
		var parts []*Term
		for k := 0; k < b.Int.BitLen(); k++ {
			if b.Int.Bit(k) == 1 {
				parts = append(parts, Mul(BigC(pow2(uint(k))), Mod(Div(a, BigC(pow2(uint(k)))), IntC(2))))
			}
		}
		return Add(parts...)
	}
	r := App("band", "Int", a, b)
	if isUnsigned(t) {
		return wrapInt(r, t, false)
	}
	return r
}

func bitOr(a, b *Term, t types.Type) *Term {
	if a.isInt() && b.isInt() && a.Int.Sign() >= 0 && b.Int.Sign() >= 0 {
		return BigC(new(big.Int).Or(a.Int, b.Int))
	}
	if a.isInt() && a.Int.Sign() == 0 {
		return b
	}
	if b.isInt() && b.Int.Sign() == 0 {
		return a
	}
	dis := func(lo, hi *Term) bool {
		r := interval(lo)
		return r.lo != nil && r.lo.Sign() >= 0 && r.hi != nil && uint(r.hi.BitLen()) <= tz(hi)
	}
	if dis(a, b) || dis(b, a) {
		return Add(a, b)
	}
	// a | 2^k = a + 2^k * (1 - bit k of a)
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.Int.Sign() > 0 {
		v := a
		for k := 0; k < b.Int.BitLen(); k++ {
			if b.Int.Bit(k) == 1 {
				p := BigC(pow2(uint(k)))
				v = Add(v, Mul(p, Sub(IntC(1), Mod(Div(a, p), IntC(2)))))
			}
		}
		return v
	}
	r := App("bor", "Int", a, b)
	return wrapInt(r, t, false)
}

func (x *Exec) equal(s *State, av, bv Value, ta, tb types.Type) *Term {
	nilness := func(v Value) (bool, bool) { // isnil, known
		switch y := v.(type) {
		case NilV:
			return true, true
		case *PtrV:
			return y.Obj == 0, true
		case *IfaceV, *StreamV, *ClosV, *MapV:
			return false, true
		}
		return false, false
	}
	na, ka := nilness(av)
	nb, kb := nilness(bv)
	if t, ok := bv.(*Term); ok && t == nilI {
		nb, kb = true, true
	}
	if t, ok := av.(*Term); ok && t == nilI {
		na, ka = true, true
	}
	if ka && kb && (na || nb) {
		return BoolC(na == nb)
	}
	if pa, ok := av.(*PtrV); ok {
		if pb, ok := bv.(*PtrV); ok {
			return BoolC(sameVal(pa, pb))
		}
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// comparison with nil
		if sv, ok := av.(*SliceV); ok && sv != nil {
			return Fresh("slicenil", "Bool")
		}
		a, _ := av.(*Term)
		b, _ := bv.(*Term)
		if a != nil && b != nil {
			o := a
			if a.Op == sqf("empty", a.Sort) {
				o = b
			}
			if o.Op == sqf("empty", o.Sort) {
				return True
			}
			// a nil slice is empty; an empty slice may or may not be nil
			q := App("isnilslice_"+o.Sort, "Bool", o)
			return And(q, Eq(sqLen(o), IntC(0)))
		}
	}
	a := s.peek(av, ta)
	b := s.peek(bv, tb)
	if isFloatSort(a.Sort) {
		return FEq(a, b)
	}
	return Eq(a, b)
}

func (x *Exec) convert(s *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			a, _ := v.(*Term)
			fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
			ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
			switch {
			case fi && ti:
				return wrapInt(a, to, false)
			case fi && tf:
				if a.isInt() {
					f, _ := new(big.Float).SetInt(a.Int).Float64()
					if sortOf(to) == "F64" {
						return f64Const(f)
					}
				}
				return App(fop("ofint", sortOf(to)), sortOf(to), a)
			case ff && ti:
				n := App(strings.ToLower(a.Sort)+".toint_"+tb.Name(), "Int", a)
				if r, ok := intRange(tb); ok {
					symRange[n.Op] = r
				}
				return n
			case ff && tf:
				st := sortOf(to)
				if a.Sort == st {
					return a
				}
				if st == "F32" {
					if a.Op == "f64.of32" {
						return a.Args[0]
					}
					if v, ok := floatLits[a.Op]; ok && float64(float32(v)) == v {
						return f32Const(v)
					}
					return App("f32.of64", "F32", a)
				}
				if v, ok := floatLits[a.Op]; ok {
					return f64Const(v)
				}
				return App("f64.of32", "F64", a)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			}
			unsupported("conversion %s to %s", typeName(from), typeName(to))
		}
		if _, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			c := v.(*Term)
			o := s.newObj("array", "bytes", to, c)
			return &SliceV{o.ID, IntC(0), sqLen(c)}
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return s.peek(v, from)
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsupported("conversion %s to %s", typeName(from), typeName(to))
	return nil
}
