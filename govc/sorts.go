package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

const modPath = "github.com/recolude/rap"

// sort registries
type structInfo struct {
	Sort   string
	Ctor   string
	Fields []string // selector names
	Sorts  []string
	T      types.Type
}

var structOf = map[string]*structInfo{} // by sort
var structOrder []*structInfo
var plainSorts = map[string]bool{"If": true, "F64": true, "F32": true, "Time": true, "Fn": true, "Opq": true}

func shortPkg(p string) string {
	if p == modPath {
		return "rap"
	}
	p = strings.TrimPrefix(p, modPath+"/")
	return p
}

// typeName gives a stable printable name for a Go type.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

func mangle(t types.Type) string {
	s := typeName(t)
	s = strings.NewReplacer(" ", "", "{", "<", "}", ">", "(", "<", ")", ">", ";", "+", "\"", "", "[", "<", "]", ">", ",", "+", "_", "-").Replace(s)
	return s
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name
}

// contentType: library types modelled by a byte sequence
func isBytesLike(t types.Type) bool {
	return isNamed(t, "bytes", "Buffer") || isNamed(t, "bytes", "Reader") || isNamed(t, "bufio", "Reader") || isNamed(t, "strings", "Builder") || isNamed(t, "strings", "Reader")
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var sortCache = map[string]string{}

func sortOf(t types.Type) string {
	k := typeName(t)
	if s, ok := sortCache[k]; ok {
		return s
	}
	s := sortOf1(t)
	sortCache[k] = s
	return s
}

func sortOf1(t types.Type) string {
	t = types.Unalias(t)
	if isBytesLike(t) {
		return Bytes
	}
	if isNamed(t, "time", "Time") {
		return "Time"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return Bytes
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return "F64"
		case u.Kind() == types.Float32:
			return "F32"
		case u.Kind() == types.UntypedNil:
			return "If"
		}
		return "Opq"
	case *types.Interface:
		return "If"
	case *types.Slice:
		return seqSort(u.Elem())
	case *types.Array:
		return seqSort(u.Elem())
	case *types.Map:
		return mapSort(u)
	case *types.Pointer:
		if isBytesLike(u.Elem()) {
			return Bytes
		}
		inner := sortOf(u.Elem())
		n := "Pt_" + strings.ReplaceAll(inner, "_", "-")
		if !plainSorts[n] {
			plainSorts[n] = true
			ptrElem[n] = inner
		}
		return n
	case *types.Signature:
		return "Fn"
	case *types.Struct:
		return structSort(t, u)
	}
	return "Opq"
}

var ptrElem = map[string]string{}

func seqSort(elem types.Type) string {
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return Bytes
	}
	es := sortOf(elem)
	// sequences of integers of different Go types share a sort per Go type so that ranges are known
	var name string
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		name = b.Name()
		if name == "byte" {
			name = "byte"
		}
	} else {
		name = strings.ReplaceAll(es, "_", "-")
	}
	s := "Sq_" + name
	if _, ok := seqElem[s]; !ok {
		seqElem[s] = es
		if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if r, ok := intRange(b); ok {
				symRange[sqf("at", s)] = r
			}
		}
	}
	return s
}

func mapSort(m *types.Map) string {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	s := "Mp_" + strings.ReplaceAll(k, "_", "-") + "_" + strings.ReplaceAll(v, "_", "-")
	if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		s = "Mp_" + strings.ReplaceAll(k, "_", "-") + "_" + b.Name()
		if r, ok := intRange(b); ok {
			symRange[mpf("get", s)] = r
		}
	}
	if _, ok := mapSorts[s]; !ok {
		mapSorts[s] = mapInfo{k, v}
		// key sequences are used to describe iteration
		if _, ok := seqElem["Sq_"+strings.ReplaceAll(k, "_", "-")]; !ok {
			seqElem["Sq_"+strings.ReplaceAll(k, "_", "-")] = k
		}
	}
	return s
}

func structSort(t types.Type, u *types.Struct) string {
	name := "S_" + mangle(t)
	if _, ok := structOf[name]; ok {
		return name
	}
	si := &structInfo{Sort: name, Ctor: "mk_" + mangle(t), T: t}
	structOf[name] = si
	sortCache[typeName(t)] = name
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fs := sortOf(f.Type())
		sel := "f_" + mangle(t) + "." + f.Name()
		si.Fields = append(si.Fields, sel)
		si.Sorts = append(si.Sorts, fs)
		selectors[sel] = selInfo{si.Ctor, i}
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if r, ok := intRange(b); ok {
				symRange[sel] = r
			}
		}
	}
	ctorOf[si.Ctor] = true
	structOrder = append(structOrder, si)
	return name
}

func intRange(b *types.Basic) (rng, bool) {
	switch b.Kind() {
	case types.Int8:
		return rng{bigI(-128), bigI(127)}, true
	case types.Int16:
		return rng{bigI(-32768), bigI(32767)}, true
	case types.Int32:
		return rng{bigI(-1 << 31), bigI(1<<31 - 1)}, true
	case types.Int, types.Int64:
		return rng{bigI(-1 << 63), bigI(1<<63 - 1)}, true
	case types.Uint8:
		return rng{bigI(0), bigI(255)}, true
	case types.Uint16:
		return rng{bigI(0), bigI(65535)}, true
	case types.Uint32:
		return rng{bigI(0), bigI(1<<32 - 1)}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return rng{bigI(0), new(big.Int).Sub(pow2(64), bigI(1))}, true
	}
	return rng{}, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// freshOf makes a fresh symbol of a Go type with its integer range known.
func freshOf(prefix string, t types.Type) *Term {
	v := Fresh(prefix, sortOf(t))
	noteRange(v, t)
	return v
}

func noteRange(v *Term, t types.Type) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && len(v.Args) == 0 {
		if r, ok := intRange(b); ok {
			symRange[v.Op] = r
		}
	}
}

func f64Lit(bits string) *Term { return Var("f64lit:"+bits, "F64") }

var floatLits = map[string]float64{}

func f64Const(v float64) *Term {
	n := fmt.Sprintf("f64lit:%v", v)
	floatLits[n] = v
	return Var(n, "F64")
}

func f32Const(v float64) *Term {
	n := fmt.Sprintf("f32lit:%v", v)
	floatLits[n] = v
	return Var(n, "F32")
}

func realLit(v float64) string {
	s := fmt.Sprintf("%.20f", v)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(s, "0")
		if strings.HasSuffix(s, ".") {
			s += "0"
		}
	}
	return s
}

func zeroTerm(t types.Type) *Term {
	t = types.Unalias(t)
	s := sortOf(t)
	return zeroOfSort(s, t)
}

func zeroOfSort(s string, t types.Type) *Term {
	switch s {
	case "Int":
		return IntC(0)
	case "Bool":
		return False
	case "F64":
		return f64Const(0)
	case "F32":
		return f32Const(0)
	case "Real":
		return RealC("0.0")
	case "If":
		return nilI
	case "Time", "Fn", "Opq":
		return Var("zero_"+s, s)
	}
	if isSeqSort(s) {
		if t != nil {
			if a, ok := t.Underlying().(*types.Array); ok {
				return sqRep(s, IntC(a.Len()), zeroTerm(a.Elem()))
			}
		}
		return sqEmpty(s)
	}
	if isMapSort(s) {
		return mpEmpty(s)
	}
	if strings.HasPrefix(s, "Pt_") {
		return Var("nil_"+s, s)
	}
	if si, ok := structOf[s]; ok {
		args := make([]*Term, len(si.Fields))
		st := si.T.Underlying().(*types.Struct)
		for i := range args {
			args[i] = zeroTerm(st.Field(i).Type())
		}
		return App(si.Ctor, s, args...)
	}
	panic("no zero value for sort " + s)
}

var nilI = raw("nilI", "If")

// ---- boxing into interfaces ----

type boxInfo struct {
	Name string // mangled type name
	Sort string
	Tag  int
	T    types.Type
}

var boxes = map[string]*boxInfo{}
var boxOrder []*boxInfo

func boxFor(t types.Type) *boxInfo {
	t = types.Unalias(t)
	n := mangle(t)
	if b, ok := boxes[n]; ok {
		return b
	}
	s := sortOf(t)
	b := &boxInfo{Name: n, Sort: s, Tag: len(boxOrder) + 1, T: t}
	boxes[n] = b
	boxOrder = append(boxOrder, b)
	boxTag["box_"+n] = b.Tag
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		if r, ok := intRange(bt); ok {
			symRange["unbox_"+n] = r
		}
	}
	return b
}

func Box(t types.Type, v *Term) *Term {
	b := boxFor(t)
	if v.Sort != b.Sort {
		panic(fmt.Sprintf("box %s: sort %s expected, got %s (%s)", b.Name, b.Sort, v.Sort, short(v)))
	}
	return App("box_"+b.Name, "If", v)
}

func Unbox(t types.Type, v *Term) *Term {
	b := boxFor(t)
	return App("unbox_"+b.Name, b.Sort, v)
}

func IsType(t types.Type, v *Term) *Term {
	b := boxFor(t)
	return Eq(App("tagI", "Int", v), IntC(int64(b.Tag)))
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
