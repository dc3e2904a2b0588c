package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"time"
	"unsafe"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/format/metadata"
)

func beq(a, b float64) bool { // same value bit for bit
	return math.Float64bits(a) == math.Float64bits(b)
}

func feq(a, b float64) bool { // same value, any NaN equals any NaN
	return beq(a, b) || (a != a && b != b)
}

func eq32(a, orig float64) bool { // a is the 32-bit rounding of orig
	return feq(a, float64(float32(orig)))
}

// deepEq compares two values structurally, through unexported fields; empty
// and nil slices and maps are the same; floats compare bit for bit except that
// NaNs are all alike.
func deepEq(a, b interface{}) bool {
	return dEq(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func dEq(a, b reflect.Value, d int) bool {
	if d > 60 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return feq(a.Float(), b.Float())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !dEq(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !dEq(a.MapIndex(k), v, d+1) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return dEq(a.Elem(), b.Elem(), d+1)
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(time.Time{}) {
			x, y := timeOf(a), timeOf(b)
			return x.UnixMicro() == y.UnixMicro()
		}
		for i := 0; i < a.NumField(); i++ {
			if !dEq(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return true
}

func timeOf(v reflect.Value) time.Time {
	c := reflect.New(v.Type()).Elem()
	if v.CanAddr() {
		c.Set(reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem())
	} else if v.CanInterface() {
		c.Set(v)
	}
	return c.Interface().(time.Time)
}

// cmpProp checks that got is the property the model p describes.
func cmpProp(p *PV, got metadata.Property) error {
	if got == nil {
		return fmt.Errorf("property is nil, expected %s", p)
	}
	if p.K == pBlock {
		mp, ok := got.(metadata.MetadataProperty)
		if !ok {
			return fmt.Errorf("got %T, expected %s", got, p)
		}
		return cmpMeta(p.M, mp.Block())
	}
	exp := p.Build()
	if exp.Code() != got.Code() {
		return fmt.Errorf("kind code %d, expected %d (%s)", got.Code(), exp.Code(), p)
	}
	if reflect.TypeOf(exp) != reflect.TypeOf(got) {
		return fmt.Errorf("kind %T, expected %T (%s)", got, exp, p)
	}
	if !deepEq(exp, got) {
		return fmt.Errorf("value %#v, expected %s", got, p)
	}
	// observers, so that a constructor that loses the value is seen too
	switch p.K {
	case pStr:
		if got.String() != p.S {
			return fmt.Errorf("string %q, expected %q", short(got.String()), short(p.S))
		}
	case pInt:
		if got.String() != strconv.Itoa(p.I) {
			return fmt.Errorf("int %s, expected %d", got.String(), p.I)
		}
	case pBool:
		if got.(metadata.BoolProperty).Value() != p.B {
			return fmt.Errorf("bool differs from %v", p.B)
		}
	case pByte:
		if got.(metadata.ByteProperty).Value() != p.By {
			return fmt.Errorf("byte differs from %d", p.By)
		}
	default:
		return cmpPropJSON(p, got)
	}
	return nil
}

func fin(v ...float64) bool {
	for _, x := range v {
		if x != x || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

// jsonable says whether the value can be rendered to JSON at all.
func jsonable(p *PV) bool {
	switch p.K {
	case pF32:
		return fin(float64(p.F))
	case pV2:
		return fin(p.V[0], p.V[1])
	case pV3:
		return fin(p.V[0], p.V[1], p.V[2])
	case pTime:
		return p.T > -62135596800000000+86400000000*400 && p.T < 253402300799999999-86400000000 && p.T*1000/1000 == p.T
	case pBlock:
		for _, v := range p.M {
			if !jsonable(v) {
				return false
			}
		}
	}
	for _, e := range p.L {
		if !jsonable(e) {
			return false
		}
	}
	return true
}

// cmpPropJSON reads the value back through its JSON form.
func cmpPropJSON(p *PV, got metadata.Property) error {
	if !jsonable(p) {
		return nil
	}
	m, ok := got.(json.Marshaler)
	if !ok {
		return nil
	}
	b, err := m.MarshalJSON()
	if err != nil {
		return fmt.Errorf("value %s can not be rendered: %v", p, err)
	}
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return fmt.Errorf("value %s renders to bad JSON %q: %v", p, b, err)
	}
	if !jsonIs(p, v) {
		return fmt.Errorf("value renders as %s, expected %s", short(string(b)), p)
	}
	return nil
}

func utf8ize(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

func jsonIs(p *PV, v interface{}) bool {
	switch p.K {
	case pStr:
		s, ok := v.(string)
		return ok && s == utf8ize(p.S)
	case pInt:
		f, ok := v.(float64)
		return ok && f == float64(p.I)
	case pF32:
		f, ok := v.(float64)
		return ok && float32(f) == p.F
	case pBool:
		b, ok := v.(bool)
		return ok && b == p.B
	case pV2, pV3:
		o, ok := v.(map[string]interface{})
		n := 2
		if p.K == pV3 {
			n = 3
		}
		if !ok || len(o) != n {
			return false
		}
		for i, k := range []string{"x", "y", "z"}[:n] {
			f, ok := o[k].(float64)
			if !ok || f != p.V[i] {
				return false
			}
		}
		return true
	case pBlock:
		o, ok := v.(map[string]interface{})
		if !ok && v == nil && len(p.M) == 0 {
			return true
		}
		if !ok {
			return false
		}
		for k, e := range p.M {
			x, ok := o[utf8ize(k)]
			if !ok || (utf8ize(k) == k && !jsonIs(e, x)) {
				return false
			}
		}
		return true
	case pTime:
		s, ok := v.(string)
		if !ok {
			return false
		}
		t, err := time.Parse(time.RFC3339Nano, s)
		return err == nil && t.UnixMicro() == p.T
	case pByte:
		s, ok := v.(string)
		return ok && s == fmt.Sprintf("0x%02x", p.By)
	case pABytes:
		s, ok := v.(string)
		return ok && s == fmt.Sprintf("0x%x", p.Bytes)
	}
	l, ok := v.([]interface{})
	if !ok && v == nil && len(p.L) == 0 {
		return true
	}
	if !ok || len(l) != len(p.L) {
		return false
	}
	for i := range l {
		if !jsonIs(p.L[i], l[i]) {
			return false
		}
	}
	return true
}

func cmpMeta(m map[string]*PV, got metadata.Block) error {
	gm := got.Mapping()
	if len(gm) != len(m) {
		return fmt.Errorf("metadata has %d keys, expected %d %s", len(gm), len(m), metaString(m))
	}
	for k, v := range m {
		g, ok := gm[k]
		if !ok {
			return fmt.Errorf("metadata key %q is missing", short(k))
		}
		if err := cmpProp(v, g); err != nil {
			return fmt.Errorf("metadata key %q: %w", short(k), err)
		}
	}
	return nil
}

// Tol decides whether a loaded capture agrees with the original.
type Tol struct {
	time func(c *ColM, i int, got float64) bool
	val  func(c *ColM, i, axis int, got float64) bool
	meta bool // compare event metadata
}

func exactTime(c *ColM, i int, got float64) bool        { return feq(c.T[i], got) }
func exactVal(c *ColM, i, axis int, got float64) bool   { return feq(c.V[i][axis], got) }
func anyTime(c *ColM, i int, got float64) bool          { return true }
func anyVal(c *ColM, i, axis int, got float64) bool     { return true }

func cmpCol(c *ColM, got format.CaptureCollection, t Tol) error {
	if got == nil {
		return fmt.Errorf("collection %q is nil", short(c.Name))
	}
	if got.Name() != c.Name {
		return fmt.Errorf("collection name %q, expected %q", short(got.Name()), short(c.Name))
	}
	if got.Signature() != kindSig[c.K] {
		return fmt.Errorf("collection %q has kind %s, expected %s", short(c.Name), got.Signature(), kindSig[c.K])
	}
	caps := got.Captures()
	if len(caps) != c.Len() || got.Length() != c.Len() {
		return fmt.Errorf("collection %q (%s) has %d captures (Length %d), expected %d", short(c.Name), kindSig[c.K], len(caps), got.Length(), c.Len())
	}
	if c.K == cEnum {
		e, ok := got.(enum.Collection)
		if !ok {
			return fmt.Errorf("collection %q is a %T", short(c.Name), got)
		}
		gm := e.EnumMembers()
		if len(gm) != len(c.Members) {
			return fmt.Errorf("enum collection %q has %d members, expected %d", short(c.Name), len(gm), len(c.Members))
		}
		for i := range gm {
			if gm[i] != c.Members[i] {
				return fmt.Errorf("enum collection %q member %d is %q, expected %q", short(c.Name), i, short(gm[i]), short(c.Members[i]))
			}
		}
	}
	for i, cap := range caps {
		at := fmt.Sprintf("collection %q (%s) capture %d of %d", short(c.Name), kindSig[c.K], i, c.Len())
		if !t.time(c, i, cap.Time()) {
			return fmt.Errorf("%s: time %v, original %v", at, cap.Time(), c.T[i])
		}
		if i < 50 && !deepEq(got.CaptureAt(i), cap) {
			return fmt.Errorf("%s: CaptureAt disagrees with Captures", at)
		}
		var v [3]float64
		n := 0
		switch x := cap.(type) {
		case position.Capture:
			v, n = [3]float64{x.Position().X(), x.Position().Y(), x.Position().Z()}, 3
		case euler.Capture:
			v, n = [3]float64{x.EulerZXY().X(), x.EulerZXY().Y(), x.EulerZXY().Z()}, 3
		case float.Capture:
			v, n = [3]float64{x.Value()}, 1
		case enum.Capture:
			if c.K != cEnum || x.Value() != c.Vals[i] {
				return fmt.Errorf("%s: value %d, original %d", at, x.Value(), c.Vals[i])
			}
			continue
		case event.Capture:
			if c.K != cEvent || x.Name() != c.Ev[i].Name {
				return fmt.Errorf("%s: event name %q, original %q", at, short(x.Name()), short(c.Ev[i].Name))
			}
			if t.meta {
				if err := cmpMeta(c.Ev[i].Meta, x.Metadata()); err != nil {
					return fmt.Errorf("%s: %w", at, err)
				}
			}
			continue
		default:
			return fmt.Errorf("%s: unexpected capture type %T", at, cap)
		}
		for a := 0; a < n; a++ {
			if !t.val(c, i, a, v[a]) {
				return fmt.Errorf("%s: axis %d value %v, original %v", at, a, v[a], c.V[i][a])
			}
		}
	}
	return nil
}

type RecCmp struct {
	tol  Tol
	meta bool // recording, binary and reference metadata
	bins bool // binaries and references
	cols bool
}

func cmpBinary(b *BinM, got format.Binary, meta bool) error {
	if got == nil {
		return fmt.Errorf("binary %q is nil", short(b.Name))
	}
	if got.Name() != b.Name || got.Size() != uint64(len(b.Data)) {
		return fmt.Errorf("binary %q size %d, expected %q size %d", short(got.Name()), got.Size(), short(b.Name), len(b.Data))
	}
	for k := 0; k < 2; k++ {
		data, err := io.ReadAll(got.Data())
		if err != nil || !bytes.Equal(data, b.Data) {
			return fmt.Errorf("binary %q: content of %d bytes differs from the original %d bytes (err %v)", short(b.Name), len(data), len(b.Data), err)
		}
	}
	if meta {
		if err := cmpMeta(b.Meta, got.Metadata()); err != nil {
			return fmt.Errorf("binary %q: %w", short(b.Name), err)
		}
	}
	return nil
}

func cmpRef(b *RefM, got format.BinaryReference, meta bool) error {
	if got == nil {
		return fmt.Errorf("reference %q is nil", short(b.Name))
	}
	if got.Name() != b.Name || got.URI() != b.URI || got.Size() != b.Size {
		return fmt.Errorf("reference %q %q %d, expected %q %q %d", short(got.Name()), short(got.URI()), got.Size(), short(b.Name), short(b.URI), b.Size)
	}
	if meta {
		if err := cmpMeta(b.Meta, got.Metadata()); err != nil {
			return fmt.Errorf("reference %q: %w", short(b.Name), err)
		}
	}
	return nil
}

func cmpRec(r *RecM, got format.Recording, o RecCmp) error {
	if got == nil {
		return fmt.Errorf("recording %q is nil", short(r.ID))
	}
	if got.ID() != r.ID || got.Name() != r.Name {
		return fmt.Errorf("recording id %q name %q, expected id %q name %q", short(got.ID()), short(got.Name()), short(r.ID), short(r.Name))
	}
	in := fmt.Sprintf("in recording %q", short(r.ID))
	if o.meta {
		if err := cmpMeta(r.Meta, got.Metadata()); err != nil {
			return fmt.Errorf("%s: %w", in, err)
		}
	}
	if o.cols {
		cols := got.CaptureCollections()
		if len(cols) != len(r.Cols) {
			return fmt.Errorf("%s: %d collections, expected %d", in, len(cols), len(r.Cols))
		}
		for i := range cols {
			if err := cmpCol(r.Cols[i], cols[i], o.tol); err != nil {
				return fmt.Errorf("%s, collection %d: %w", in, i, err)
			}
		}
	}
	if o.bins {
		if len(got.Binaries()) != len(r.Bins) || len(got.BinaryReferences()) != len(r.Refs) {
			return fmt.Errorf("%s: %d binaries and %d references, expected %d and %d", in, len(got.Binaries()), len(got.BinaryReferences()), len(r.Bins), len(r.Refs))
		}
		for i, b := range got.Binaries() {
			if err := cmpBinary(r.Bins[i], b, o.meta); err != nil {
				return fmt.Errorf("%s: %w", in, err)
			}
		}
		for i, b := range got.BinaryReferences() {
			if err := cmpRef(r.Refs[i], b, o.meta); err != nil {
				return fmt.Errorf("%s: %w", in, err)
			}
		}
	}
	subs := got.Recordings()
	if len(subs) != len(r.Subs) {
		return fmt.Errorf("%s: %d sub-recordings, expected %d", in, len(subs), len(r.Subs))
	}
	for i := range subs {
		if err := cmpRec(r.Subs[i], subs[i], o); err != nil {
			return fmt.Errorf("%s/%w", in, err)
		}
	}
	return nil
}

// sameRec compares two recordings through their public observers.
func sameRec(a, b format.Recording) error {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return nil
		}
		return fmt.Errorf("one recording is nil and the other is not")
	}
	if a.ID() != b.ID() || a.Name() != b.Name() {
		return fmt.Errorf("id/name %q/%q against %q/%q", short(a.ID()), short(a.Name()), short(b.ID()), short(b.Name()))
	}
	if !deepEq(a.Metadata(), b.Metadata()) {
		return fmt.Errorf("metadata of %q differs", short(a.ID()))
	}
	ca, cb := a.CaptureCollections(), b.CaptureCollections()
	if len(ca) != len(cb) {
		return fmt.Errorf("%d collections against %d", len(ca), len(cb))
	}
	for i := range ca {
		if !deepEq(ca[i], cb[i]) {
			return fmt.Errorf("collection %d %q of %q differs", i, short(ca[i].Name()), short(a.ID()))
		}
	}
	ba, bb := a.Binaries(), b.Binaries()
	if len(ba) != len(bb) {
		return fmt.Errorf("%d binaries against %d", len(ba), len(bb))
	}
	for i := range ba {
		x, ex := io.ReadAll(ba[i].Data())
		y, ey := io.ReadAll(bb[i].Data())
		if ba[i].Name() != bb[i].Name() || ba[i].Size() != bb[i].Size() || !bytes.Equal(x, y) || (ex == nil) != (ey == nil) || !deepEq(ba[i].Metadata(), bb[i].Metadata()) {
			return fmt.Errorf("binary %d of %q differs", i, short(a.ID()))
		}
	}
	ra, rb := a.BinaryReferences(), b.BinaryReferences()
	if len(ra) != len(rb) {
		return fmt.Errorf("%d references against %d", len(ra), len(rb))
	}
	for i := range ra {
		if ra[i].Name() != rb[i].Name() || ra[i].URI() != rb[i].URI() || ra[i].Size() != rb[i].Size() || !deepEq(ra[i].Metadata(), rb[i].Metadata()) {
			return fmt.Errorf("reference %d of %q differs", i, short(a.ID()))
		}
	}
	sa, sb := a.Recordings(), b.Recordings()
	if len(sa) != len(sb) {
		return fmt.Errorf("%d sub-recordings against %d", len(sa), len(sb))
	}
	for i := range sa {
		if err := sameRec(sa[i], sb[i]); err != nil {
			return err
		}
	}
	return nil
}
