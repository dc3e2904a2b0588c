package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
)

// ---------------------------------------------------------------- custom kinds

// xCol is a collection of a kind the library does not know.
type xCol struct {
	sig, name string
	times     []float64
	by        *xEnc // the encoder that decoded it
}

func (c xCol) Name() string      { return c.name }
func (c xCol) Signature() string { return c.sig }
func (c xCol) Length() int       { return len(c.times) }
func (c xCol) Start() float64    { return c.times[0] }
func (c xCol) End() float64      { return c.times[len(c.times)-1] }
func (c xCol) Captures() []format.Capture {
	var l []format.Capture
	for _, t := range c.times {
		l = append(l, position.NewCapture(t, 0, 0, 0))
	}
	return l
}
func (c xCol) CaptureAt(i int) format.Capture { return position.NewCapture(c.times[i], 0, 0, 0) }
func (c xCol) Slice(b, e float64) format.CaptureCollection {
	o := xCol{sig: c.sig, name: c.name}
	for _, t := range c.times {
		if b <= t && t < e {
			o.times = append(o.times, t)
		}
	}
	return o
}

// xEnc is an encoder with a signature, a version and a set of accepted kinds.
type xEnc struct {
	sig     string
	ver     uint
	accepts map[string]bool
	id      int
	got     []string // names of collections it was handed
}

func (e *xEnc) Accepts(c format.CaptureCollection) bool { return e.accepts[c.Signature()] }
func (e *xEnc) Signature() string                       { return e.sig }
func (e *xEnc) Version() uint                           { return e.ver }
func (e *xEnc) Encode(cs []format.CaptureCollection) ([]byte, [][]byte, error) {
	var out [][]byte
	for _, c := range cs {
		e.got = append(e.got, c.Name())
		out = append(out, []byte(fmt.Sprintf("%s|%s|%d", c.Signature(), c.Name(), e.id)))
	}
	return []byte(fmt.Sprintf("header %d", e.id)), out, nil
}
func (e *xEnc) Decode(name string, header, data []byte, times []float64) (format.CaptureCollection, error) {
	p := strings.SplitN(string(data), "|", 3)
	if len(p) != 3 || !strings.HasPrefix(string(header), "header ") {
		return nil, fmt.Errorf("stream data or header belong to another encoder: %q %q", header, data)
	}
	if p[1] != name {
		return nil, fmt.Errorf("stream data of %q handed over as %q", p[1], name)
	}
	if p[2] != strings.TrimPrefix(string(header), "header ") {
		return nil, fmt.Errorf("header of encoder %s used with the data of encoder %s", header, p[2])
	}
	return xCol{sig: p[0], name: name, times: times, by: e}, nil
}

type xNode struct {
	cols []xCol
	subs []*xNode
	nilC int // 1 nil sub, 2 nil collection, 3 nil binary, 4 nil reference
}

func (n *xNode) build(first bool) format.Recording {
	var cols []format.CaptureCollection
	for _, c := range n.cols {
		cols = append(cols, c)
	}
	var subs []format.Recording
	for _, s := range n.subs {
		subs = append(subs, s.build(first))
	}
	var bins []format.Binary
	var refs []format.BinaryReference
	if len(n.cols)%2 == 1 {
		bins = append(bins, rapio.NewBinary("b", []byte{1, 2}, metadata.EmptyBlock()))
		refs = append(refs, rapio.NewBinaryReference("b", "u", 3, metadata.EmptyBlock()))
	}
	switch n.nilC {
	case 1:
		if first {
			subs = append([]format.Recording{nil}, subs...)
		} else {
			subs = append(subs, nil)
		}
	case 2:
		if first {
			cols = append([]format.CaptureCollection{nil}, cols...)
		} else {
			cols = append(cols, nil)
		}
	case 3:
		if first {
			bins = append([]format.Binary{nil}, bins...)
		} else {
			bins = append(bins, nil)
		}
	case 4:
		if first {
			refs = append([]format.BinaryReference{nil}, refs...)
		} else {
			refs = append(refs, nil)
		}
	}
	return format.NewRecording("id", "name", cols, subs, metadata.EmptyBlock(), bins, refs)
}

func (n *xNode) all() []*xNode {
	l := []*xNode{n}
	for _, s := range n.subs {
		l = append(l, s.all()...)
	}
	return l
}

func (n *xNode) String() string {
	s := "["
	for _, c := range n.cols {
		s += c.sig + ":" + c.name + " "
	}
	if n.nilC > 0 {
		s += fmt.Sprintf("NIL%d ", n.nilC)
	}
	for _, x := range n.subs {
		s += x.String()
	}
	return s + "]"
}

func (g *G) xTree(depth int, sigs []string, cnt *int) *xNode {
	n := &xNode{}
	for i := g.Intn(4); i > 0; i-- {
		*cnt++
		n.cols = append(n.cols, xCol{sig: sigs[g.Intn(len(sigs))], name: fmt.Sprintf("c%d", *cnt), times: g.Times(g.Intn(3), true)})
	}
	if depth > 0 {
		for i := g.Intn(4); i > 0; i-- {
			n.subs = append(n.subs, g.xTree(depth-1, sigs, cnt))
		}
	}
	return n
}

func cmpX(n *xNode, got format.Recording, want func(c xCol) []*xEnc) error {
	if got == nil {
		return fmt.Errorf("recording is nil")
	}
	cs := got.CaptureCollections()
	if len(cs) != len(n.cols) || len(got.Recordings()) != len(n.subs) {
		return fmt.Errorf("%d collections and %d sub-recordings, expected %d and %d", len(cs), len(got.Recordings()), len(n.cols), len(n.subs))
	}
	for i, c := range n.cols {
		x, ok := cs[i].(xCol)
		if !ok || x.name != c.name || x.sig != c.sig || len(x.times) != len(c.times) {
			return fmt.Errorf("collection %d is %#v, expected %s (%s) with %d captures", i, cs[i], c.name, c.sig, len(c.times))
		}
		found := false
		for _, e := range want(c) {
			found = found || e == x.by
		}
		if !found {
			return fmt.Errorf("collection %s (%s) was decoded by the encoder registered as %q", c.name, c.sig, x.by.sig)
		}
	}
	for i, s := range n.subs {
		if err := cmpX(s, got.Recordings()[i], want); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- version 1

type pb struct{ bytes.Buffer }

func (b *pb) varint(v uint64) {
	t := make([]byte, 10)
	b.Write(t[:binary.PutUvarint(t, v)])
}
func (b *pb) bytesField(f int, v []byte) {
	b.varint(uint64(f<<3 | 2))
	b.varint(uint64(len(v)))
	b.Write(v)
}
func (b *pb) str(f int, s string) {
	if s != "" {
		b.bytesField(f, []byte(s))
	}
}
func (b *pb) f32(f int, v float32) {
	if v != 0 || math.Signbit(float64(v)) {
		b.varint(uint64(f<<3 | 5))
		t := make([]byte, 4)
		binary.LittleEndian.PutUint32(t, math.Float32bits(v))
		b.Write(t)
	}
}
func (b *pb) num(f int, v uint64) {
	if v != 0 {
		b.varint(uint64(f << 3))
		b.varint(v)
	}
}
func (b *pb) strMap(f int, m map[string]string) {
	for k, v := range m {
		e := &pb{}
		e.str(1, k)
		e.str(2, v)
		b.bytesField(f, e.Bytes())
	}
}

type v1Event struct {
	t              float32
	name, contents string
	data           map[string]string
}
type v1Vec struct{ t, x, y, z float32 }
type v1Life struct {
	t float32
	k int
}
type v1Subj struct {
	id       int32
	name     string
	meta     map[string]string
	ev       []v1Event
	life     []v1Life
	pos, rot []v1Vec
}
type v1Rec struct {
	name string
	meta map[string]string
	subj []v1Subj
	ev   []v1Event
}

func (b *pb) event(f int, e v1Event) {
	x := &pb{}
	x.f32(1, e.t)
	x.str(2, e.name)
	x.str(3, e.contents)
	x.strMap(4, e.data)
	b.bytesField(f, x.Bytes())
}
func (b *pb) vec(f int, v v1Vec) {
	x := &pb{}
	x.f32(1, v.t)
	x.f32(2, v.x)
	x.f32(3, v.y)
	x.f32(4, v.z)
	b.bytesField(f, x.Bytes())
}

func (r *v1Rec) proto() []byte {
	b := &pb{}
	b.str(1, r.name)
	b.strMap(2, r.meta)
	for _, s := range r.subj {
		x := &pb{}
		x.num(1, uint64(int64(s.id)))
		x.str(2, s.name)
		x.strMap(3, s.meta)
		for _, e := range s.ev {
			x.event(4, e)
		}
		for _, l := range s.life {
			y := &pb{}
			y.f32(1, l.t)
			y.num(2, uint64(l.k))
			x.bytesField(5, y.Bytes())
		}
		for _, v := range s.pos {
			x.vec(6, v)
		}
		for _, v := range s.rot {
			x.vec(7, v)
		}
		b.bytesField(3, x.Bytes())
	}
	for _, e := range r.ev {
		b.event(4, e)
	}
	return b.Bytes()
}

func v1Wrap(proto []byte) []byte {
	z := &bytes.Buffer{}
	w, _ := flate.NewWriter(z, 6)
	w.Write(proto)
	w.Close()
	out := []byte{1, 1, 0, 0, 0}
	n := make([]byte, 8)
	binary.LittleEndian.PutUint64(n, uint64(z.Len()))
	return append(append(out, n...), z.Bytes()...)
}

func (c *Case) v1File(r *v1Rec) []byte { return v1Wrap(r.proto()) }

func (g *G) v1Map() map[string]string {
	m := map[string]string{}
	for i := g.Intn(4); i > 0; i-- {
		v := g.Str()
		if g.p(3) {
			v = []string{"1", "1.5", "-3", "1e3", "0x1p-2", "inf", "NaN", "1e400", "1_000", " 1", "007", "+5", "1e-50"}[g.Intn(13)]
		}
		m[g.Str()] = v
	}
	return m
}

func (g *G) v1Events() (l []v1Event) {
	for i := g.Count(4); i > 0; i-- {
		e := v1Event{t: g.F32(), name: g.Str(), contents: g.Str()}
		if g.p(2) {
			e.data = g.v1Map()
		}
		l = append(l, e)
	}
	return
}

func (g *G) v1Rec() *v1Rec {
	g.textual = true
	g.pool = nil
	r := &v1Rec{name: g.Str(), meta: g.v1Map(), ev: g.v1Events()}
	for i := g.Count(4); i > 0; i-- {
		s := v1Subj{id: int32(g.I32()), name: g.Str(), meta: g.v1Map(), ev: g.v1Events()}
		for j := g.Count(5); j > 0; j-- {
			s.pos = append(s.pos, v1Vec{g.F32(), g.F32(), g.F32(), g.F32()})
		}
		for j := g.Count(5); j > 0; j-- {
			s.rot = append(s.rot, v1Vec{g.F32(), g.F32(), g.F32(), g.F32()})
		}
		for j := g.Count(5); j > 0; j-- {
			s.life = append(s.life, v1Life{g.F32(), g.Intn(4)})
		}
		r.subj = append(r.subj, s)
	}
	return r
}

func f32eq(a float64, b float32) bool { return feq(a, float64(b)) }

func cmpV1Meta(m map[string]string, b metadata.Block, what string) error {
	g := b.Mapping()
	if len(g) != len(m) {
		return fmt.Errorf("%s: %d keys, expected %d", what, len(g), len(m))
	}
	for k, v := range m {
		p, ok := g[k]
		if !ok {
			return fmt.Errorf("%s: key %q is missing", what, k)
		}
		if deepEq(p, metadata.NewStringProperty(v)) {
			continue
		}
		f, err := strconv.ParseFloat(v, 32)
		if err == nil && deepEq(p, metadata.NewFloat32Property(float32(f))) {
			continue
		}
		return fmt.Errorf("%s: key %q has value %#v, expected %q", what, k, p, v)
	}
	return nil
}

func cmpV1Events(l []v1Event, got format.CaptureCollection, what string) error {
	if got == nil || got.Signature() != "recolude.event" || got.Length() != len(l) {
		return fmt.Errorf("%s: not an event collection of %d captures", what, len(l))
	}
	for i, cp := range got.Captures() {
		e, ok := cp.(event.Capture)
		if !ok || e.Name() != l[i].name || !f32eq(e.Time(), l[i].t) {
			return fmt.Errorf("%s: event %d is %v, expected %+v", what, i, cp, l[i])
		}
		m := l[i].data
		if len(m) == 0 {
			m = map[string]string{"value": l[i].contents}
		}
		if err := cmpV1Meta(m, e.Metadata(), fmt.Sprintf("%s, event %d", what, i)); err != nil {
			return err
		}
	}
	return nil
}

func cmpV1(r *v1Rec, got format.Recording) error {
	if got == nil {
		return fmt.Errorf("recording is nil")
	}
	if got.Name() != r.name {
		return fmt.Errorf("recording name %q, expected %q", got.Name(), r.name)
	}
	if err := cmpV1Meta(r.meta, got.Metadata(), "recording metadata"); err != nil {
		return err
	}
	if len(got.CaptureCollections()) != 1 {
		return fmt.Errorf("%d collections at the top, expected the custom events", len(got.CaptureCollections()))
	}
	if err := cmpV1Events(r.ev, got.CaptureCollections()[0], "recording events"); err != nil {
		return err
	}
	if len(got.Recordings()) != len(r.subj) {
		return fmt.Errorf("%d sub-recordings for %d subjects", len(got.Recordings()), len(r.subj))
	}
	for i, s := range r.subj {
		g := got.Recordings()[i]
		w := fmt.Sprintf("subject %d", i)
		if g == nil || g.ID() != fmt.Sprint(s.id) || g.Name() != s.name {
			return fmt.Errorf("%s: id or name differ from %d %q", w, s.id, s.name)
		}
		if err := cmpV1Meta(s.meta, g.Metadata(), w+" metadata"); err != nil {
			return err
		}
		cs := g.CaptureCollections()
		if len(cs) != 4 {
			return fmt.Errorf("%s: %d collections", w, len(cs))
		}
		if cs[0].Signature() != "recolude.position" || cs[0].Length() != len(s.pos) || cs[1].Signature() != "recolude.euler" || cs[1].Length() != len(s.rot) {
			return fmt.Errorf("%s: positions %s(%d) rotations %s(%d), expected %d and %d captures", w, cs[0].Signature(), cs[0].Length(), cs[1].Signature(), cs[1].Length(), len(s.pos), len(s.rot))
		}
		for j, v := range s.pos {
			p, ok := cs[0].CaptureAt(j).(position.Capture)
			if !ok || !f32eq(p.Time(), v.t) || !f32eq(p.Position().X(), v.x) || !f32eq(p.Position().Y(), v.y) || !f32eq(p.Position().Z(), v.z) {
				return fmt.Errorf("%s: position %d is %v, expected %v", w, j, p, v)
			}
		}
		for j, v := range s.rot {
			p, ok := cs[1].CaptureAt(j).(euler.Capture)
			if !ok || !f32eq(p.Time(), v.t) || !f32eq(p.EulerZXY().X(), v.x) || !f32eq(p.EulerZXY().Y(), v.y) || !f32eq(p.EulerZXY().Z(), v.z) {
				return fmt.Errorf("%s: rotation %d is %v, expected %v", w, j, p, v)
			}
		}
		if err := cmpV1Events(s.ev, cs[2], w+" events"); err != nil {
			return err
		}
		lc, ok := cs[3].(enum.Collection)
		if !ok || lc.Length() != len(s.life) {
			return fmt.Errorf("%s: life cycle is %T with %d captures, expected %d", w, cs[3], cs[3].Length(), len(s.life))
		}
		names := []string{"START", "ENABLE", "DISABLE", "DESTROY"}
		for j, l := range s.life {
			p := lc.CaptureAt(j).(enum.Capture)
			if !f32eq(p.Time(), l.t) || p.Value() >= len(lc.EnumMembers()) || p.Value() < 0 || lc.EnumMembers()[p.Value()] != names[l.k] {
				return fmt.Errorf("%s: life cycle %d is %v, expected %v %s", w, j, p, l.t, names[l.k])
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- mutation

func (g *G) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + g.Intn(3); k > 0 && len(b) > 0; k-- {
		i := g.Intn(len(b))
		switch g.Intn(8) {
		case 0:
			b[i] ^= byte(1 << g.Intn(8))
		case 1:
			b[i] = byte(g.Intn(256))
		case 2:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe}[g.Intn(6)]
		case 3: // a huge varint
			v := make([]byte, 10)
			n := binary.PutUvarint(v, []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 62, 1 << 40, 1 << 32, 1<<31 - 1, 1 << 20, 1 << 60}[g.Intn(9)])
			b = append(append(append([]byte{}, b[:i]...), v[:n]...), b[min(len(b), i+1):]...)
		case 4: // delete
			b = append(append([]byte{}, b[:i]...), b[min(len(b), i+1+g.Intn(3)):]...)
		case 5: // insert
			b = append(append(append([]byte{}, b[:i]...), byte(g.Intn(256))), b[i:]...)
		case 6:
			b = b[:i]
		case 7: // small number up
			b[i]++
		}
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// payloadAt finds where the part after the compression flag starts.
func payloadAt(b []byte) int {
	i := 1
	uv := func() int {
		v, n := binary.Uvarint(b[i:])
		i += n
		return int(v)
	}
	n := uv()
	for k := 0; k < n; k++ {
		i += uv()
	}
	for k := 0; k < n; k++ {
		uv()
	}
	return i + 1
}

func deflate(b []byte) []byte {
	z := &bytes.Buffer{}
	w, _ := flate.NewWriter(z, 1)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

func mustNotPanic(c *Case, what string, f func()) (err error) {
	done := make(chan interface{}, 1)
	go func() { done <- catchStack(f) }()
	select {
	case p := <-done:
		if p != nil {
			return fmt.Errorf("%s panicked: %v", what, p)
		}
	case <-time.After(40 * time.Second):
		return fmt.Errorf("%s did not finish within 40 s", what)
	}
	return nil
}

func catchStack(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func init() {
	checks["C12"] = func(c *Case) error {
		o := defOpt(c.G)
		o.depth = c.Intn(3)
		e := c.encoders(false)
		compress, tt := c.techs()
		switch c.Index % 5 {
		case 0, 1: // a damaged file
			m := c.Rec(o, o.depth)
			data, _, err := save(m.Build(), e.encs, false, tt)
			if err != nil {
				return fmt.Errorf("writing failed: %v", err)
			}
			p := payloadAt(data)
			var bad []byte
			if c.p(4) {
				bad = c.mutate(data)
			} else {
				bad = c.mutate(data[p:])
				if compress {
					bad = deflate(bad)
					if c.p(6) {
						bad = c.mutate(bad)
					}
				}
				bad = append(append([]byte{}, data[:p-1]...), append([]byte{byte(b2i(compress))}, bad...)...)
			}
			c.descf("damaged file (encoders %s) % x", e.desc, headBytes(bad))
			var rec format.Recording
			var lerr error
			if err := mustNotPanic(c, "loading a damaged file", func() {
				rec, _, lerr = rapio.NewReader(e.encs, bytes.NewReader(bad)).Read()
			}); err != nil {
				return err
			}
			if lerr == nil && rec == nil {
				return fmt.Errorf("loading a damaged file gave neither a recording nor an error")
			}
		case 2: // version 1
			pr := c.v1Rec().proto()
			if c.p(2) {
				pr = c.mutate(pr)
			}
			bad := v1Wrap(pr)
			if c.p(2) {
				bad = c.mutate(bad)
			}
			if len(bad) > 13 && c.p(3) {
				binary.LittleEndian.PutUint64(bad[5:], c.U64())
			}
			c.descf("damaged version-1 file % x", headBytes(bad))
			return mustNotPanic(c, "loading a damaged version-1 file", func() { rapio.Load(bytes.NewReader(bad)) })
		case 3: // a decoder directly
			k := CK(c.Intn(int(cKinds)))
			var enc encoding.Encoder
			for _, x := range e.encs {
				if x.Signature() == kindSig[k] {
					enc = x
				}
			}
			cols := []format.CaptureCollection{}
			var t []float64
			for i := 1 + c.Intn(3); i > 0; i-- {
				m := c.Col(k, c.Intn(5), o)
				t = m.T
				cols = append(cols, m.Build())
			}
			h, s, err := enc.Encode(cols)
			if err != nil {
				return fmt.Errorf("encoding failed: %v", err)
			}
			hdr, st := h, s[len(s)-1]
			switch c.Intn(4) {
			case 0:
				st = c.mutate(st)
			case 1:
				hdr = c.mutate(hdr)
			case 2:
				hdr, st = c.mutate(hdr), c.mutate(st)
			case 3:
				st = nil
				if c.p(2) {
					st = []byte{byte(c.Intn(4))}
				}
			}
			if c.p(3) {
				t = c.Times(c.Intn(9), true)
			}
			c.descf("decoder %s header % x data % x times %v (%s)", enc.Signature(), headBytes(hdr), headBytes(st), t, e.desc)
			return mustNotPanic(c, "decoding damaged data", func() { enc.Decode("n", hdr, st, t) })
		case 4: // a property
			b := &bytes.Buffer{}
			metadata.WriteProprty(b, c.PV(2).Build())
			bad := c.mutate(b.Bytes())
			if c.p(4) {
				bad = make([]byte, c.Intn(30))
				c.Read(bad)
			}
			if len(bad) > 0 && c.p(2) {
				bad[0] = byte(c.Intn(40))
			}
			c.descf("property bytes % x", headBytes(bad))
			return mustNotPanic(c, "reading a damaged property", func() { metadata.ReadProperty(bytes.NewReader(bad)) })
		}
		return nil
	}

	checks["C14"] = func(c *Case) error {
		sigs := []string{"k0", "k1", "k2", "k3"}
		cnt := 0
		tree := c.xTree(c.Intn(4), sigs, &cnt)
		var encs []*xEnc
		var es []encoding.Encoder
		for i := 0; i < 1+c.Intn(5); i++ {
			x := &xEnc{sig: fmt.Sprintf("enc%d", i), id: i, ver: uint(c.Intn(3)), accepts: map[string]bool{}}
			for _, s := range sigs {
				if c.Intn(5) < 3 {
					x.accepts[s] = true
				}
			}
			encs = append(encs, x)
			es = append(es, x)
		}
		nodes := tree.all()
		bad := false
		if c.p(2) {
			for i := 1 + c.Intn(2); i > 0; i-- {
				nodes[c.Intn(len(nodes))].nilC = 1 + c.Intn(4)
			}
			bad = true
		} else if c.p(2) {
			for _, s := range sigs {
				if c.Intn(5) > 0 {
					encs[c.Intn(len(encs))].accepts[s] = true
				}
			}
		} else {
			for _, s := range sigs { // accept everything
				encs[c.Intn(len(encs))].accepts[s] = true
			}
		}
		first := func(col xCol) *xEnc {
			for _, e := range encs {
				if e.accepts[col.sig] {
					return e
				}
			}
			return nil
		}
		for _, n := range nodes {
			for _, col := range n.cols {
				if first(col) == nil {
					bad = true
				}
			}
		}
		compress, tt := c.techs()
		c.descf("tree %s compress %v", tree, compress)
		for _, e := range encs {
			ks := []string{}
			for k := range e.accepts {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			c.descf("encoder %s accepts %v", e.sig, ks)
		}
		w := &countWriter{}
		var n int
		var err error
		buf := &bytes.Buffer{}
		rec := tree.build(c.p(2))
		n, err = rapio.NewWriter(es, compress, io.MultiWriter(w, buf), tt).Write(rec)
		if bad {
			if err == nil {
				return fmt.Errorf("a recording that can not be saved was written without an error")
			}
			if w.n != 0 || n != 0 {
				return fmt.Errorf("a refused recording left %d bytes in the output (%d reported)", w.n, n)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		for _, nd := range nodes {
			for _, col := range nd.cols {
				for _, e := range encs {
					has := 0
					for _, g := range e.got {
						if g == col.name {
							has++
						}
					}
					if (has == 1) != (e == first(col)) || has > 1 {
						return fmt.Errorf("collection %s (%s) was handed %d times to encoder %s; the first that accepts it is %s", col.name, col.sig, has, e.sig, first(col).sig)
					}
				}
			}
		}
		got, _, err := rapio.NewReader(es, buf).Read()
		if err != nil {
			return fmt.Errorf("loading the written file failed: %v", err)
		}
		return cmpX(tree, got, func(col xCol) []*xEnc { return []*xEnc{first(col)} })
	}

	checks["C15"] = func(c *Case) error {
		if c.Index%10 == 0 {
			v := byte(c.Intn(256))
			if v == 1 || v == 2 {
				v = 3
			}
			d := make([]byte, c.Intn(50))
			c.Read(d)
			m := c.Rec(defOpt(c.G), 1)
			if c.p(2) {
				data, _, err := save(m.Build(), c.encoders(true).encs, c.p(2), rapio.Raw64)
				if err != nil {
					return fmt.Errorf("writing failed: %v", err)
				}
				d = data[1:]
			}
			c.descf("file with version number %d", v)
			rec, _, err := rapio.NewReader(c.encoders(true).encs, bytes.NewReader(append([]byte{v}, d...))).Read()
			if err == nil || rec != nil {
				return fmt.Errorf("a file with version number %d loads (recording nil=%v, error %v)", v, rec == nil, err)
			}
			return nil
		}
		sigs := []string{"k0", "k1", "k2", "k3", "k4"}[:1+c.Intn(5)]
		cnt := 0
		tree := c.xTree(c.Intn(3), sigs, &cnt)
		vers := []uint{0, 1, 2, 3, 127, 128, 255, 256, 300, 16384, 1 << 31, 1 << 32, 1 << 40, math.MaxUint64}
		var wr []encoding.Encoder
		fileVer := map[string]uint{}
		pre := ""
		if c.p(3) {
			pre = c.Str()
		}
		for i, s := range sigs {
			fileVer[s] = vers[c.Intn(len(vers))]
			if c.p(2) {
				fileVer[s] = uint(c.Intn(4))
			}
			wr = append(wr, &xEnc{sig: pre + s, ver: fileVer[s], id: i, accepts: map[string]bool{s: true}})
		}
		c.Shuffle(len(wr), func(i, j int) { wr[i], wr[j] = wr[j], wr[i] })
		used := map[string]bool{}
		for _, n := range tree.all() {
			for _, col := range n.cols {
				used[col.sig] = true
			}
		}
		compress, tt := c.techs()
		data, _, err := save(tree.build(true), wr, compress, tt)
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		c.descf("tree %s compress %v signature prefix %q", tree, compress, pre)
		var rd []encoding.Encoder
		reg := map[string][]*xEnc{}
		wantErr := ""
		for i, s := range sigs {
			v := fileVer[s]
			what := c.Intn(12)
			if what == 0 {
				if used[s] {
					wantErr = "encoder " + s + " is not registered"
				}
				c.descf("%s version %d: not registered", s, v)
				continue
			}
			rv := v
			if what == 1 && v > 0 {
				rv = v - 1
				if c.p(3) {
					rv = 0
				}
				if used[s] {
					wantErr = "registered version of " + s + " is older"
				}
			} else if what == 2 && v < math.MaxUint64 {
				rv = v + 1
			}
			c.descf("%s version %d: registered version %d", s, v, rv)
			for k := 0; k < 1+b2i(what == 3); k++ {
				x := &xEnc{sig: pre + s, ver: rv, id: 100 + i}
				reg[s] = append(reg[s], x)
				rd = append(rd, x)
			}
		}
		if c.p(3) { // registered and unused
			rd = append(rd, &xEnc{sig: "other", ver: 9}, &xEnc{sig: "", ver: 9})
		}
		c.Shuffle(len(rd), func(i, j int) { rd[i], rd[j] = rd[j], rd[i] })
		rec, _, err := rapio.NewReader(rd, bytes.NewReader(data)).Read()
		if wantErr != "" {
			if err == nil || rec != nil {
				return fmt.Errorf("%s, and the file loads (recording nil=%v, error %v)", wantErr, rec == nil, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("every encoder of the file is registered, and loading failed: %v", err)
		}
		return cmpX(tree, rec, func(col xCol) []*xEnc { return reg[col.sig] })
	}

	checks["C16"] = func(c *Case) error {
		o := defOpt(c.G)
		o.chrono = c.p(2)
		o.metaDep = 1
		m := c.Rec(o, o.depth)
		b, e := math.Inf(-1), math.Inf(1)
		var opts []format.SliceOption
		keep := true
		pick := func() float64 {
			var ts []float64
			m.each(func(r *RecM) {
				for _, x := range r.Cols {
					ts = append(ts, x.T...)
				}
			})
			if len(ts) > 0 && c.Intn(4) > 0 {
				return ts[c.Intn(len(ts))]
			}
			return c.F()
		}
		order := c.Perm(3)
		for _, w := range order {
			switch {
			case w == 0 && c.Intn(4) > 0:
				b = pick()
				opts = append(opts, format.BeginningOfSlice(b))
			case w == 1 && c.Intn(4) > 0:
				e = pick()
				opts = append(opts, format.EndOfSlice(e))
			case w == 2 && c.p(2):
				keep = c.p(2)
				opts = append(opts, format.KeepBinariesInSlice(keep))
			}
		}
		c.descf("slice [%v, %v) keep binaries %v\n%s", b, e, keep, m)
		rec := m.Build()
		got := format.Slice(rec, opts...)
		full := RecCmp{tol: Tol{time: exactTime, val: exactVal, meta: true}, cols: true, bins: true, meta: true}
		if err := cmpRec(m, rec, full); err != nil {
			return fmt.Errorf("slicing changed the original: %w", err)
		}
		w := sliceModel(m, b, e, keep)
		if err := cmpRec(w, got, full); err != nil {
			return fmt.Errorf("slice [%v, %v): %w", b, e, err)
		}
		return nil
	}

	checks["C17"] = func(c *Case) error {
		o := defOpt(c.G)
		o.chrono = c.Intn(4) > 0
		o.noMeta = true
		m := c.Rec(o, o.depth)
		if c.p(2) { // one late disturbance
			var all []*ColM
			m.each(func(r *RecM) {
				for _, x := range r.Cols {
					if len(x.T) > 1 {
						all = append(all, x)
					}
				}
			})
			if len(all) > 0 {
				x := all[c.Intn(len(all))]
				i := c.Intn(len(x.T) - 1)
				switch c.Intn(3) {
				case 0:
					x.T[i], x.T[i+1] = x.T[i+1], x.T[i]
				case 1:
					x.T[i+1] = math.Nextafter(x.T[i], math.Inf(-1))
				case 2:
					x.T[i] = c.F()
				}
			}
		}
		ok := true
		m.each(func(r *RecM) {
			for _, x := range r.Cols {
				for i := 1; i < len(x.T); i++ {
					if x.T[i] < x.T[i-1] {
						ok = false
					}
				}
			}
		})
		c.descf("chronological %v\n%s", ok, m)
		rec := m.Build()
		for k := 0; k < 4; k++ {
			var opts []format.ValidateOption
			want := ok
			switch k {
			case 1:
				opts = append(opts, format.RequireChronologicalCapture(true))
			case 2:
				opts = append(opts, format.RequireChronologicalCapture(false))
				want = true
			case 3:
				opts = append(opts, format.RequireChronologicalCapture(false), format.RequireChronologicalCapture(true))
			}
			if err := format.Validate(rec, opts...); (err == nil) != want {
				return fmt.Errorf("validation (options %d) gives %v, chronological is %v", k, err, ok)
			}
		}
		return nil
	}

	checks["C18"] = func(c *Case) error {
		o := defOpt(c.G)
		o.chrono = true
		o.noMeta = true
		m := c.Rec(o, o.depth)
		mn, mx, n := math.Inf(1), math.Inf(-1), 0
		m.each(func(r *RecM) {
			for _, x := range r.Cols {
				if c.p(3) { // another chronological run, spread widely
					off := c.NormFloat64() * 1000
					for i := range x.T {
						x.T[i] += off
					}
					sort.Float64s(x.T)
				}
				if n := len(x.T); n > 0 && c.p(8) { // infinite times are times too
					if c.p(2) {
						x.T[0] = math.Inf(-1)
					} else {
						x.T[n-1] = math.Inf(1)
					}
					if c.p(2) {
						for i := range x.T {
							x.T[i] = x.T[0]
						}
					}
				}
				for _, t := range x.T {
					mn, mx = math.Min(mn, t), math.Max(mx, t)
					n++
				}
			}
		})
		c.descf("%s", m)
		if n == 0 {
			c.Triv = true
			return nil
		}
		rec := m.Build()
		if s := format.RecordingStart(rec); s != mn {
			return fmt.Errorf("start is %v, the smallest capture time is %v", s, mn)
		}
		if s := format.RecordingEnd(rec); s != mx {
			return fmt.Errorf("end is %v, the largest capture time is %v", s, mx)
		}
		if s := format.RecordingDuration(rec); s != mx-mn && !(s != s && mx-mn != mx-mn) {
			return fmt.Errorf("duration is %v, expected %v", s, mx-mn)
		}
		return nil
	}

	checks["C19"] = func(c *Case) error {
		r := c.v1Rec()
		c.descf("%+v", short2(fmt.Sprintf("%+v", *r)))
		data := c.v1File(r)
		rec, n, err := rapio.Load(bytes.NewReader(data))
		if err != nil {
			return fmt.Errorf("loading a version-1 file failed: %v", err)
		}
		_ = n
		return cmpV1(r, rec)
	}

	checks["C20"] = checkJSONImport
	checks["C21"] = checkToJSON
	checks["C22"] = checkCSV
	checks["C23"] = checkSummary
	checks["C24"] = checkMetaJSON
}

func short2(s string) string {
	if len(s) > 2500 {
		return s[:2500] + "..."
	}
	return s
}

func headBytes(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func sliceModel(m *RecM, b, e float64, keep bool) *RecM {
	o := &RecM{ID: m.ID, Name: m.Name, Meta: m.Meta, Refs: m.Refs}
	if keep {
		o.Bins = m.Bins
	}
	for _, x := range m.Cols {
		y := &ColM{K: x.K, Name: x.Name, Members: x.Members}
		for i, t := range x.T {
			if b <= t && t < e {
				y.T = append(y.T, t)
				if x.V != nil {
					y.V = append(y.V, x.V[i])
				}
				if x.Vals != nil {
					y.Vals = append(y.Vals, x.Vals[i])
				}
				if x.Ev != nil {
					y.Ev = append(y.Ev, x.Ev[i])
				}
			}
		}
		o.Cols = append(o.Cols, y)
	}
	for _, s := range m.Subs {
		o.Subs = append(o.Subs, sliceModel(s, b, e, keep))
	}
	return o
}

// ---------------------------------------------------------------- JSON import

type jo = map[string]interface{}

func (g *G) jsonMeta(depth int) jo {
	m := jo{}
	for i := g.Intn(4); i > 0; i-- {
		m[g.Str()] = g.jsonVal(depth)
	}
	return m
}

func plainStr(s string) bool {
	if strings.HasPrefix(s, "0x") {
		return false
	}
	_, err := time.Parse(time.RFC3339Nano, s)
	return err != nil
}

func (g *G) jsonVal(depth int) interface{} {
	switch g.Intn(8) {
	case 0, 1:
		for {
			if s := g.Str(); plainStr(s) {
				return s
			}
		}
	case 2:
		return g.I32()
	case 3:
		return float64(float32(g.NormFloat64()))
	case 4:
		return g.p(2)
	case 5:
		if depth > 0 {
			return g.jsonMeta(depth - 1)
		}
		return "leaf"
	case 6:
		return jo{"x": g.NormFloat64(), "y": g.NormFloat64(), "z": float64(g.Intn(5))}
	}
	l := []interface{}{}
	k := g.Intn(3)
	for i := g.Intn(4); i > 0; i-- {
		l = append(l, []interface{}{"s" + g.fill(2), g.I32(), g.p(2)}[k])
	}
	return l
}

// jsonSame compares document metadata with the metadata that was imported.
func jsonSame(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok && b == nil && len(x) == 0 {
			return true
		}
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !jsonSame(x[k], v) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok && b == nil && len(x) == 0 {
			return true
		}
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || float32(x) == float32(y))
	}
	return a == b
}

func renorm(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var o interface{}
	json.Unmarshal(b, &o)
	return o
}

func cmpMetaJSON(want interface{}, b metadata.Block) error {
	d, err := metadata.NewMetadataProperty(b).MarshalJSON()
	if err != nil {
		return fmt.Errorf("imported metadata can not be rendered: %v", err)
	}
	var got interface{}
	if err := json.Unmarshal(d, &got); err != nil {
		return err
	}
	w := renorm(want)
	if w == nil {
		w = jo{}
	}
	if !jsonSame(w, got) {
		wj, _ := json.Marshal(want)
		return fmt.Errorf("metadata %s, the document has %s", short2(string(d)), short2(string(wj)))
	}
	return nil
}

func (g *G) jsonRec(depth int) jo {
	r := jo{"id": g.Str(), "name": g.Str()}
	if g.p(2) {
		r["metadata"] = g.jsonMeta(2)
	}
	if g.Intn(4) > 0 {
		var l = []interface{}{}
		for i := g.Count(4); i > 0; i-- {
			l = append(l, g.jsonCol())
		}
		r["collections"] = l
	}
	if g.p(2) {
		var l = []interface{}{}
		for i := g.Intn(3); i > 0; i-- {
			ref := jo{"name": g.Str(), "uri": g.Str(), "size": g.Intn(1 << 20)}
			if g.p(2) {
				ref["metadata"] = g.jsonMeta(1)
			}
			l = append(l, ref)
		}
		r["references"] = l
	}
	if depth > 0 && g.Intn(4) > 0 {
		var l = []interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, g.jsonRec(depth-1))
		}
		r["recordings"] = l
	}
	return r
}

func (g *G) jsonCol() jo {
	k := g.Intn(4)
	c := jo{"name": g.Str(), "type": []string{"recolude.position", "recolude.euler", "recolude.event", "recolude.enum"}[k]}
	caps := []interface{}{}
	n := g.Count(6)
	few := []string{g.Str(), g.Str(), g.Str()}
	for i := 0; i < n; i++ {
		cp := jo{"time": g.NormFloat64() * 10}
		if g.p(3) {
			cp["time"] = g.Intn(10)
		}
		switch k {
		case 0, 1:
			cp["data"] = jo{"x": g.NormFloat64() * 100, "y": g.I32(), "z": g.Float64()}
		case 2:
			d := jo{"name": g.Str()}
			if g.p(2) {
				d["metadata"] = g.jsonMeta(1)
			}
			cp["data"] = d
		case 3:
			cp["data"] = few[g.Intn(3)]
			if g.p(4) {
				cp["data"] = g.Str()
			}
		}
		caps = append(caps, cp)
	}
	c["captures"] = caps
	return c
}

func num(v interface{}) float64 { f, _ := renorm(v).(float64); return f }

func list(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }

func cmpJSONRec(d jo, got format.Recording) error {
	if got == nil {
		return fmt.Errorf("recording is nil")
	}
	if got.ID() != d["id"] || got.Name() != d["name"] {
		return fmt.Errorf("id %q name %q, the document has %q %q", got.ID(), got.Name(), d["id"], d["name"])
	}
	if err := cmpMetaJSON(d["metadata"], got.Metadata()); err != nil {
		return err
	}
	cl := list(d["collections"])
	if len(got.CaptureCollections()) != len(cl) {
		return fmt.Errorf("%d collections, the document has %d", len(got.CaptureCollections()), len(cl))
	}
	for i, x := range cl {
		c := x.(jo)
		g := got.CaptureCollections()[i]
		caps := list(c["captures"])
		if g == nil || g.Name() != c["name"] || g.Signature() != c["type"] || g.Length() != len(caps) {
			return fmt.Errorf("collection %d differs in name, kind or length from %q %q %d", i, c["name"], c["type"], len(caps))
		}
		for j, y := range caps {
			cp := y.(jo)
			gc := g.CaptureAt(j)
			at := fmt.Sprintf("collection %d (%s) capture %d", i, c["type"], j)
			if gc.Time() != num(cp["time"]) {
				return fmt.Errorf("%s: time %v, the document has %v", at, gc.Time(), cp["time"])
			}
			switch v := gc.(type) {
			case position.Capture:
				p := cp["data"].(jo)
				if v.Position().X() != num(p["x"]) || v.Position().Y() != num(p["y"]) || v.Position().Z() != num(p["z"]) {
					return fmt.Errorf("%s: %v, the document has %v", at, v.Position(), p)
				}
			case euler.Capture:
				p := cp["data"].(jo)
				if v.EulerZXY().X() != num(p["x"]) || v.EulerZXY().Y() != num(p["y"]) || v.EulerZXY().Z() != num(p["z"]) {
					return fmt.Errorf("%s: %v, the document has %v", at, v.EulerZXY(), p)
				}
			case event.Capture:
				p := cp["data"].(jo)
				if v.Name() != p["name"] {
					return fmt.Errorf("%s: event %q, the document has %q", at, v.Name(), p["name"])
				}
				if err := cmpMetaJSON(p["metadata"], v.Metadata()); err != nil {
					return fmt.Errorf("%s: %w", at, err)
				}
			case enum.Capture:
				mem := g.(enum.Collection).EnumMembers()
				seen := map[string]bool{}
				for _, s := range mem {
					if seen[s] {
						return fmt.Errorf("%s: member %q is listed twice", at, s)
					}
					seen[s] = true
				}
				if v.Value() < 0 || v.Value() >= len(mem) || mem[v.Value()] != cp["data"] {
					return fmt.Errorf("%s: value %d of members %q, the document has %q", at, v.Value(), mem, cp["data"])
				}
			default:
				return fmt.Errorf("%s: unexpected capture %T", at, gc)
			}
		}
	}
	rl := list(d["references"])
	if len(got.BinaryReferences()) != len(rl) {
		return fmt.Errorf("%d references, the document has %d", len(got.BinaryReferences()), len(rl))
	}
	for i, x := range rl {
		r, g := x.(jo), got.BinaryReferences()[i]
		if g.Name() != r["name"] || g.URI() != r["uri"] || g.Size() != uint64(num(r["size"])) {
			return fmt.Errorf("reference %d is %q %q %d, the document has %v", i, g.Name(), g.URI(), g.Size(), r)
		}
		if err := cmpMetaJSON(r["metadata"], g.Metadata()); err != nil {
			return fmt.Errorf("reference %d: %w", i, err)
		}
	}
	sl := list(d["recordings"])
	if len(got.Recordings()) != len(sl) {
		return fmt.Errorf("%d sub-recordings, the document has %d", len(got.Recordings()), len(sl))
	}
	for i, x := range sl {
		if err := cmpJSONRec(x.(jo), got.Recordings()[i]); err != nil {
			return fmt.Errorf("sub-recording %d: %w", i, err)
		}
	}
	return nil
}

type reqField struct {
	o    jo
	k    string
	what string
}

func required(d jo, out *[]reqField) {
	*out = append(*out, reqField{d, "id", "recording"}, reqField{d, "name", "recording"})
	for _, x := range list(d["collections"]) {
		c := x.(jo)
		*out = append(*out, reqField{c, "name", "collection"}, reqField{c, "type", "collection"}, reqField{c, "captures", "collection"})
		for _, y := range list(c["captures"]) {
			cp := y.(jo)
			*out = append(*out, reqField{cp, "time", "capture"}, reqField{cp, "data", "capture"})
			switch c["type"] {
			case "recolude.position", "recolude.euler":
				for _, a := range []string{"x", "y", "z"} {
					*out = append(*out, reqField{cp["data"].(jo), a, "capture data"})
				}
			case "recolude.event":
				*out = append(*out, reqField{cp["data"].(jo), "name", "event data"})
			}
		}
	}
	for _, x := range list(d["references"]) {
		for _, a := range []string{"name", "uri", "size"} {
			*out = append(*out, reqField{x.(jo), a, "reference"})
		}
	}
	for _, x := range list(d["recordings"]) {
		required(x.(jo), out)
	}
}

func checkJSONImport(c *Case) error {
	c.textual, c.finite = true, true
	d := c.jsonRec(c.Intn(3))
	drop := ""
	if c.Index%3 == 2 {
		var fs []reqField
		required(d, &fs)
		f := fs[c.Intn(len(fs))]
		delete(f.o, f.k)
		drop = f.what + " " + f.k
	}
	b, err := json.Marshal(d)
	if err != nil {
		return nil
	}
	if c.p(2) {
		b, _ = json.MarshalIndent(d, " ", "\t")
	}
	c.descf("missing field: %q\n%s", drop, short2(string(b)))
	rec, err := parsing.FromJSON(b)
	if drop != "" {
		if err == nil {
			return fmt.Errorf("a document without %s was imported", drop)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("importing failed: %v", err)
	}
	return cmpJSONRec(d, rec)
}

// ---------------------------------------------------------------- metadata as JSON

// jsonStable says whether a value keeps kind and value through JSON (C24).
func jsonStable(p *PV) bool {
	switch p.K {
	case pStr:
		return plainStr(p.S)
	case pInt, pBool, pByte:
		return true
	case pV2, pV3:
		return fin(p.V[:]...)
	case pBlock:
		num := 0
		for k, v := range p.M {
			if !jsonStable(v) {
				return false
			}
			if (k == "x" || k == "y" || k == "z") && (v.K == pInt) {
				num++
			}
		}
		return !(num == len(p.M) && (num == 2 || num == 3))
	case pAStr, pAInt, pABool, pAV2, pAV3, pABlock:
		for _, e := range p.L {
			if !jsonStable(e) {
				return false
			}
		}
		return true
	case pABytes:
		return len(p.Bytes) != 1
	}
	return false
}

func emptyLike(p *PV, got metadata.Property) bool {
	if len(p.L) > 0 {
		return false
	}
	switch p.K {
	case pAStr, pAInt, pABool, pAV2, pAV3, pABlock:
		a, ok := got.(json.Marshaler)
		if !ok {
			return false
		}
		b, err := a.MarshalJSON()
		return err == nil && string(b) == "[]"
	}
	return false
}

func cmpStable(m map[string]*PV, b metadata.Block) error {
	g := b.Mapping()
	if len(g) != len(m) {
		return fmt.Errorf("%d keys, expected %d", len(g), len(m))
	}
	for k, v := range m {
		x, ok := g[k]
		if !ok {
			return fmt.Errorf("key %q is missing", k)
		}
		if emptyLike(v, x) {
			continue
		}
		if v.K == pBlock {
			mp, ok := x.(metadata.MetadataProperty)
			if !ok {
				return fmt.Errorf("key %q is %T, expected a block", k, x)
			}
			if err := cmpStable(v.M, mp.Block()); err != nil {
				return fmt.Errorf("key %q: %w", k, err)
			}
			continue
		}
		if v.K == pABlock {
			if err := cmpPropJSON(v, x); err != nil {
				return fmt.Errorf("key %q: %w", k, err)
			}
			continue
		}
		if err := cmpProp(v, x); err != nil {
			return fmt.Errorf("key %q: %w", k, err)
		}
	}
	return nil
}

func checkMetaJSON(c *Case) error {
	c.textual, c.finite = true, true
	m := map[string]*PV{}
	for i := 1 + c.Intn(5); i > 0; i-- {
		v := c.PV(2)
		if jsonStable(v) {
			m[c.Str()] = v
		}
	}
	root := &PV{K: pBlock, M: m}
	if !jsonStable(root) {
		c.Triv = true
		return nil
	}
	c.Triv = len(m) == 0
	c.descf("%s", metaString(m))
	b, err := metadata.NewMetadataProperty(buildBlock(m)).MarshalJSON()
	if err != nil {
		return fmt.Errorf("rendering failed: %v", err)
	}
	if !json.Valid(b) {
		return fmt.Errorf("rendered to invalid JSON: %s", short2(string(b)))
	}
	p, err := metadata.UnmarshalNewMetadataProperty(b)
	if err != nil {
		return fmt.Errorf("parsing %s back failed: %v", short2(string(b)), err)
	}
	if err := cmpStable(m, p.Block()); err != nil {
		return err
	}
	for k, v := range m { // each kind by itself
		b, err := v.Build().(json.Marshaler).MarshalJSON()
		if err != nil {
			return fmt.Errorf("rendering %s failed: %v", v, err)
		}
		var got metadata.Property
		switch v.K {
		case pInt:
			got, err = metadata.UnmarshalNewInt32Property(b)
		case pBool:
			got, err = metadata.UnmarshalNewBoolProperty(b)
		case pByte:
			got, err = metadata.UnmarshalNewByteProperty(b)
		case pV2:
			got, err = metadata.UnmarshalNewVector2Property(b)
		case pV3:
			got, err = metadata.UnmarshalNewVector3Property(b)
		case pStr:
			var x metadata.StringProperty
			err = x.UnmarshalJSON(b)
			got = x
		default:
			continue
		}
		if err != nil {
			return fmt.Errorf("key %q: parsing %s back failed: %v", k, b, err)
		}
		if err := cmpProp(v, got); err != nil {
			return fmt.Errorf("key %q: %w", k, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- command line

func runCLI(args ...string) (string, string, error) {
	cmd := exec.Command(cliPath, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	return o.String(), e.String(), err
}

func (c *Case) cliRec() (*RecM, string, error) {
	c.textual, c.finite = true, true
	o := defOpt(c.G)
	o.kinds = []CK{cPos, cEul, cEnum, cEvent}
	o.chrono = true
	m := c.Rec(o, o.depth)
	var fix func(v *PV)
	fix = func(v *PV) {
		if v.K == pTime {
			v.T = v.T % 4102444800000000
		}
		for _, x := range v.M {
			fix(x)
		}
		for _, x := range v.L {
			fix(x)
		}
	}
	m.each(func(r *RecM) {
		for _, v := range r.Meta {
			fix(v)
		}
		for _, x := range r.Cols {
			for _, e := range x.Ev {
				for _, v := range e.Meta {
					fix(v)
				}
			}
		}
	})
	b := &bytes.Buffer{}
	if _, err := rapio.NewRecoludeWriter(b).Write(m.Build()); err != nil {
		return m, "", fmt.Errorf("writing failed: %v", err)
	}
	f := filepath.Join(tmpDir, fmt.Sprintf("in%d.rap", os.Getpid()))
	if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	return m, f, nil
}

func checkToJSON(c *Case) error {
	m, f, err := c.cliRec()
	c.descf("%s", m)
	if err != nil {
		return err
	}
	out, se, err := runCLI("to-json", "--file", f)
	if err != nil {
		return fmt.Errorf("to-json failed: %v %s", err, short2(se))
	}
	var d jo
	if err := json.Unmarshal([]byte(out), &d); err != nil {
		return fmt.Errorf("to-json wrote invalid JSON (%v): %s", err, short2(out))
	}
	return cmpExport(m, d)
}

func cmpExport(m *RecM, d jo) error {
	if d["id"] != m.ID || d["name"] != m.Name {
		return fmt.Errorf("id %q name %q, expected %q %q", d["id"], d["name"], m.ID, m.Name)
	}
	cl, ok := d["collections"].([]interface{})
	if !ok || len(cl) != len(m.Cols) {
		return fmt.Errorf("%d collections exported, expected %d", len(cl), len(m.Cols))
	}
	for i, x := range m.Cols {
		c, ok := cl[i].(jo)
		if !ok || c["name"] != x.Name || c["signature"] != kindSig[x.K] {
			return fmt.Errorf("collection %d exported as %v, expected %q %s", i, c["name"], x.Name, kindSig[x.K])
		}
		if n, ok := c["count"].(float64); ok && n != float64(x.Len()) {
			return fmt.Errorf("collection %d exported with count %v, expected %d", i, n, x.Len())
		}
		if x.K == cEvent {
			caps, ok := c["captures"].([]interface{})
			if !ok || len(caps) != x.Len() {
				return fmt.Errorf("event collection %d exported with %d captures, expected %d", i, len(caps), x.Len())
			}
			for j, e := range x.Ev {
				cp, ok := caps[j].(jo)
				if !ok || cp["name"] != e.Name {
					return fmt.Errorf("event %d of collection %d exported as %v, expected %q", j, i, cp["name"], e.Name)
				}
			}
		}
	}
	sl, ok := d["recordings"].([]interface{})
	if !ok || len(sl) != len(m.Subs) {
		return fmt.Errorf("%d sub-recordings exported, expected %d", len(sl), len(m.Subs))
	}
	for i, s := range m.Subs {
		x, ok := sl[i].(jo)
		if !ok {
			return fmt.Errorf("sub-recording %d exported as %v", i, sl[i])
		}
		if err := cmpExport(s, x); err != nil {
			return fmt.Errorf("sub-recording %d: %w", i, err)
		}
	}
	return nil
}

func checkSummary(c *Case) error {
	m, f, err := c.cliRec()
	c.descf("%s", m)
	if err != nil {
		return err
	}
	out, se, err := runCLI("summarize", "--file", f)
	if err != nil {
		return fmt.Errorf("summarize failed: %v %s", err, short2(se))
	}
	want := map[string]int{"Position": 0, "Euler": 0, "Event": 0, "Enum": 0, "Other": 0}
	names := []string{"Position", "Euler", "Enum", "Event", "Other"}
	m.each(func(r *RecM) {
		for _, x := range r.Cols {
			want[names[x.K]] += x.Len()
		}
	})
	for k, n := range want {
		mm := regexp.MustCompile(`(?m)^Total ` + k + ` Captures: +(-?\d+)$`).FindAllStringSubmatch(out, -1)
		if len(mm) == 0 {
			return fmt.Errorf("no %s count in the summary:\n%s", k, short2(out))
		}
		if mm[len(mm)-1][1] != strconv.Itoa(n) {
			return fmt.Errorf("the summary counts %s %s captures, the recording has %d", mm[len(mm)-1][1], k, n)
		}
	}
	return nil
}

func checkCSV(c *Case) error {
	c.textual = true
	cols := []string{"time", "id", "name", "x", "y", "z"}
	for i := c.Intn(3); i > 0; i-- {
		cols = append(cols, "extra"+strconv.Itoa(i))
	}
	c.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	bad := ""
	if c.Index%4 == 3 {
		if c.p(2) {
			k := []string{"time", "id", "name", "x", "y", "z"}[c.Intn(6)]
			for i, s := range cols {
				if s == k {
					if c.p(2) && len(cols) > 1 {
						cols = append(append([]string{}, cols[:i]...), cols[i+1:]...)
					} else {
						cols[i] = "other"
					}
					break
				}
			}
			bad = "column " + k + " is missing"
		} else {
			bad = "number"
		}
	}
	type row struct {
		id, name string
		t, x, y, z float64
	}
	clean := func(s string) string { return strings.ReplaceAll(s, "\r", "") }
	var rows []row
	ids := []string{clean(c.Str()), clean(c.Str()), "1"}
	names := []string{clean(c.Str()), clean(c.Str()), "bob"}
	n := c.Count(12)
	if bad == "number" && n == 0 {
		n = 1
	}
	buf := &bytes.Buffer{}
	w := csv.NewWriter(buf)
	var hdr []string
	for _, s := range cols {
		if c.p(3) {
			s = " " + s + " "
		}
		hdr = append(hdr, s)
	}
	w.Write(hdr)
	badRow := -1
	if bad == "number" {
		badRow = c.Intn(n)
	}
	num := func() (float64, string) {
		f := c.F()
		if f != f {
			f = math.NaN()
		}
		s := strconv.FormatFloat(f, 'g', -1, 64)
		if c.p(4) {
			s = " " + s + " "
		}
		return f, s
	}
	for i := 0; i < n; i++ {
		r := row{id: ids[c.Intn(3)], name: names[c.Intn(3)]}
		vals := map[string]string{"id": r.id, "name": r.name}
		r.t, vals["time"] = num()
		r.x, vals["x"] = num()
		r.y, vals["y"] = num()
		r.z, vals["z"] = num()
		if i == badRow {
			k := []string{"time", "x", "y", "z"}[c.Intn(4)]
			vals[k] = []string{"", "abc", "1.2.3", "1,5", "0x", "--1", "1e", "ten"}[c.Intn(8)]
			bad = fmt.Sprintf("row %d has %s %q", i, k, vals[k])
		}
		rows = append(rows, r)
		var rec []string
		for _, s := range cols {
			v, ok := vals[s]
			if !ok {
				v = clean(c.Str())
			}
			rec = append(rec, v)
		}
		w.Write(rec)
	}
	w.Flush()
	c.descf("defect: %q\n%s", bad, short2(buf.String()))
	f := filepath.Join(tmpDir, fmt.Sprintf("in%d.csv", os.Getpid()))
	if err := os.WriteFile(f, buf.Bytes(), 0o644); err != nil {
		panic(err)
	}
	out, se, err := runCLI("from-csv", "--file", f)
	if strings.Contains(se, "panic:") || strings.Contains(se, "goroutine ") {
		return fmt.Errorf("from-csv crashed: %s", short2(se))
	}
	if bad != "" {
		if err == nil {
			return fmt.Errorf("a CSV file where %s was imported", bad)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("from-csv failed: %v %s", err, short2(se))
	}
	rec, _, err := rapio.Load(strings.NewReader(out))
	if err != nil {
		return fmt.Errorf("the imported recording does not load: %v", err)
	}
	type key struct{ id, name string }
	want := map[key][]row{}
	for _, r := range rows {
		k := key{r.id, r.name}
		want[k] = append(want[k], r)
	}
	if len(rec.Recordings()) != len(want) {
		return fmt.Errorf("%d sub-recordings, the file has %d distinct (id, name) pairs", len(rec.Recordings()), len(want))
	}
	seen := map[key]bool{}
	for _, s := range rec.Recordings() {
		k := key{s.ID(), s.Name()}
		if seen[k] {
			return fmt.Errorf("two sub-recordings for %q", k)
		}
		seen[k] = true
		rs, ok := want[k]
		if !ok {
			return fmt.Errorf("a sub-recording for %q, which is not in the file", k)
		}
		if len(s.CaptureCollections()) != 1 || s.CaptureCollections()[0].Length() != len(rs) {
			return fmt.Errorf("sub-recording %q does not hold one collection of %d rows", k, len(rs))
		}
		for i, cp := range s.CaptureCollections()[0].Captures() {
			p, ok := cp.(position.Capture)
			if !ok || !feq(p.Time(), rs[i].t) || !feq(p.Position().X(), rs[i].x) || !feq(p.Position().Y(), rs[i].y) || !feq(p.Position().Z(), rs[i].z) {
				return fmt.Errorf("sub-recording %q row %d is %v %v, the file has %+v", k, i, cp.Time(), p.Position(), rs[i])
			}
		}
	}
	return nil
}
