// Replay harness: generators. Everything here goes through the public API of
// recolude/rap; the models (RecM, ColM, PV, ...) are the oracle's own view.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// ---------------------------------------------------------------- values

type PK int

const (
	pStr PK = iota
	pInt
	pF32
	pBool
	pByte
	pV2
	pV3
	pBlock
	pTime
	pAStr
	pAInt
	pAF32
	pABool
	pABytes
	pAV2
	pAV3
	pABlock
	pATime
	pEnd
)

type PV struct {
	K     PK
	S     string
	I     int
	F     float32
	B     bool
	By    byte
	V     [3]float64
	M     map[string]*PV
	T     int64 // microseconds
	Bytes []byte
	L     []*PV // elements of an array
}

func (p *PV) String() string {
	switch p.K {
	case pStr:
		return fmt.Sprintf("string %q", short(p.S))
	case pInt:
		return fmt.Sprintf("int %d", p.I)
	case pF32:
		return fmt.Sprintf("float32 %v", p.F)
	case pBool:
		return fmt.Sprintf("bool %v", p.B)
	case pByte:
		return fmt.Sprintf("byte %d", p.By)
	case pV2:
		return fmt.Sprintf("vec2 %v", p.V[:2])
	case pV3:
		return fmt.Sprintf("vec3 %v", p.V)
	case pBlock:
		return "block " + metaString(p.M)
	case pTime:
		return fmt.Sprintf("time %dus", p.T)
	case pABytes:
		return fmt.Sprintf("bytes[%d]", len(p.Bytes))
	}
	s := []string{}
	for i, e := range p.L {
		if i > 6 {
			s = append(s, "...")
			break
		}
		s = append(s, e.String())
	}
	return fmt.Sprintf("array(kind %d, len %d)[%s]", p.K, len(p.L), strings.Join(s, ", "))
}

func metaString(m map[string]*PV) string {
	s := []string{}
	for k, v := range m {
		s = append(s, fmt.Sprintf("%q: %s", short(k), v))
		if len(s) > 8 {
			break
		}
	}
	return "{" + strings.Join(s, ", ") + "}"
}

func short(s string) string {
	if len(s) > 60 {
		return s[:40] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (p *PV) Build() metadata.Property {
	switch p.K {
	case pStr:
		return metadata.NewStringProperty(p.S)
	case pInt:
		return metadata.NewIntProperty(p.I)
	case pF32:
		return metadata.NewFloat32Property(p.F)
	case pBool:
		return metadata.NewBoolProperty(p.B)
	case pByte:
		return metadata.NewByteProperty(p.By)
	case pV2:
		return metadata.NewVector2Property(p.V[0], p.V[1])
	case pV3:
		return metadata.NewVector3Property(p.V[0], p.V[1], p.V[2])
	case pBlock:
		return metadata.NewMetadataProperty(buildBlock(p.M))
	case pTime:
		return metadata.NewTimeProperty(time.UnixMicro(p.T))
	case pABytes:
		return metadata.NewBinaryArrayProperty(append([]byte{}, p.Bytes...))
	case pAStr:
		l := make([]string, len(p.L))
		for i, e := range p.L {
			l[i] = e.S
		}
		return metadata.NewStringArrayProperty(l)
	case pAInt:
		l := make([]int, len(p.L))
		for i, e := range p.L {
			l[i] = e.I
		}
		return metadata.NewIntArrayProperty(l)
	case pAF32:
		l := make([]float32, len(p.L))
		for i, e := range p.L {
			l[i] = e.F
		}
		return metadata.NewFloat32ArrayProperty(l)
	case pABool:
		l := make([]bool, len(p.L))
		for i, e := range p.L {
			l[i] = e.B
		}
		return metadata.NewBoolArrayProperty(l)
	case pAV2:
		l := make([]vector2.Float64, len(p.L))
		for i, e := range p.L {
			l[i] = vector2.New(e.V[0], e.V[1])
		}
		return metadata.NewVector2ArrayProperty(l)
	case pAV3:
		l := make([]vector3.Float64, len(p.L))
		for i, e := range p.L {
			l[i] = vector3.New(e.V[0], e.V[1], e.V[2])
		}
		return metadata.NewVector3ArrayProperty(l)
	case pABlock:
		l := make([]metadata.Block, len(p.L))
		for i, e := range p.L {
			l[i] = buildBlock(e.M)
		}
		return metadata.NewMetadataArrayProperty(l)
	case pATime:
		l := make([]time.Time, len(p.L))
		for i, e := range p.L {
			l[i] = time.UnixMicro(e.T)
		}
		return metadata.NewTimestampArrayProperty(l)
	}
	panic("bad PV")
}

func buildBlock(m map[string]*PV) metadata.Block {
	if m == nil {
		return metadata.EmptyBlock()
	}
	out := make(map[string]metadata.Property)
	for k, v := range m {
		out[k] = v.Build()
	}
	return metadata.NewBlock(out)
}

// ---------------------------------------------------------------- generator

type G struct {
	*rand.Rand
	pool    []string // strings reused within a case
	textual bool     // valid UTF-8 only
	finite  bool     // no NaN or Inf
	big     bool     // allow large sizes
	budget  int      // remaining "big" items in this case
}

func NewG(r *rand.Rand) *G { return &G{Rand: r, budget: 3} }

var specialStr = []string{"", "a", "A", "id", "name", "x", "y", "z", "0", " ", "  a ", "\"", "\\", "\n", "\r\n", "\t", "a,b", "<&>", "'", "{}", "[]", "null", "true", "\u00e9", "\u65e5\u672c\u8a9e", "\U0001f600", "\x00", "a\x00b", "\u2028", "%s %d %", "\u0001", "\x7f", "\\u0041", "value", "recolude.enum", "recolude.position", "//", "#", "$ref"}

func (g *G) p(n int) bool { return g.Intn(n) == 0 }

func (g *G) rawStr() string {
	switch g.Intn(12) {
	case 0, 1, 2:
		return specialStr[g.Intn(len(specialStr))]
	case 3:
		n := []int{126, 127, 128, 129, 200, 255, 256}[g.Intn(7)]
		return g.fill(n)
	case 4:
		if g.big && g.budget > 0 && g.p(6) {
			g.budget--
			return g.fill([]int{16383, 16384, 16385, 70000}[g.Intn(4)])
		}
		return g.fill(g.Intn(20))
	case 5:
		if !g.textual {
			b := make([]byte, g.Intn(12))
			g.Read(b)
			return string(b)
		}
		return g.fill(g.Intn(5))
	case 6:
		s := ""
		for i := g.Intn(6); i >= 0; i-- {
			s += specialStr[g.Intn(len(specialStr))]
		}
		return s
	default:
		return g.fill(1 + g.Intn(6))
	}
}

func (g *G) fill(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-."[g.Intn(66)]
	}
	return string(b)
}

// Str returns a string, often one already used in this case.
func (g *G) Str() string {
	if len(g.pool) > 0 && g.Intn(5) < 2 {
		return g.pool[g.Intn(len(g.pool))]
	}
	s := g.rawStr()
	if len(g.pool) < 30 {
		g.pool = append(g.pool, s)
	}
	return s
}

var specialF = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 2, 3.25, 1e-10, -1e-10, 1.0 / 3, 2.0 / 3, math.Pi, 359.999, 360, -360, 720.5, 180, 90, 1 << 24, 1<<24 + 1, 1<<24 - 1, 16777217.5, 1e6, -1e6, 1e15, 123456.789, 1e-30, -1e30, 1<<31 - 1, -(1 << 31), 100, 255, 256, 65535, 65536}
var wildF = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 1e300, -1e-300, math.Float64frombits(0x7ff8000000001234), math.Float64frombits(0xfff8000000000001), 3.5e38}

func (g *G) F() float64 {
	switch g.Intn(10) {
	case 0, 1:
		return specialF[g.Intn(len(specialF))]
	case 2:
		if !g.finite {
			return wildF[g.Intn(len(wildF))]
		}
		return g.NormFloat64() * 1e9
	case 3:
		if !g.finite {
			return math.Float64frombits(g.Uint64())
		}
		return g.NormFloat64() * 1e-6
	case 4:
		return float64(g.Intn(2000) - 1000)
	default:
		return g.NormFloat64() * math.Pow(10, float64(g.Intn(6)-2))
	}
}

func (g *G) F32() float32 {
	for {
		f := float32(g.F())
		if g.finite && (f != f || math.IsInf(float64(f), 0)) {
			continue
		}
		return f
	}
}

func (g *G) I32() int {
	switch g.Intn(5) {
	case 0:
		return []int{0, 1, -1, math.MaxInt32, math.MinInt32, 127, 128, -128, 255, 256, 65535, 65536, 1 << 24, -(1 << 24), 999999, 1000000, 1000001, 1 << 20, 2000000, 21000000, 123456789}[g.Intn(21)]
	case 1:
		return int(int32(g.Uint32()))
	}
	return g.Intn(2000) - 1000
}

// Count returns a small count, sometimes on a varint boundary.
func (g *G) Count(max int) int {
	if g.big && g.budget > 0 && g.p(25) {
		g.budget--
		return []int{127, 128, 129, 255, 256, 257, 300}[g.Intn(7)]
	}
	if g.p(4) {
		return g.Intn(2)
	}
	return g.Intn(max + 1)
}

func (g *G) PV(depth int) *PV {
	k := PK(g.Intn(int(pEnd)))
	if depth <= 0 && (k == pBlock || k == pABlock) {
		k = pStr
	}
	return g.PVof(k, depth)
}

func (g *G) PVof(k PK, depth int) *PV {
	p := &PV{K: k}
	switch k {
	case pStr:
		p.S = g.Str()
	case pInt:
		p.I = g.I32()
	case pF32:
		p.F = g.F32()
	case pBool:
		p.B = g.p(2)
	case pByte:
		p.By = byte(g.Intn(256))
	case pV2, pV3:
		p.V = [3]float64{g.F(), g.F(), g.F()}
	case pBlock:
		p.M = g.Meta(depth - 1)
	case pTime:
		p.T = g.Time()
	case pABytes:
		p.Bytes = make([]byte, g.Count(10))
		g.Read(p.Bytes)
	default:
		el := map[PK]PK{pAStr: pStr, pAInt: pInt, pAF32: pF32, pABool: pBool, pAV2: pV2, pAV3: pV3, pABlock: pBlock, pATime: pTime}[k]
		n := g.Count(6)
		if k == pABlock && n > 10 {
			n = 10
		}
		for i := 0; i < n; i++ {
			p.L = append(p.L, g.PVof(el, depth))
		}
	}
	return p
}

func (g *G) Time() int64 {
	switch g.Intn(6) {
	case 0:
		return []int64{0, 1, -1, 999, 1000, 1001, 1234567, -1234567, 1 << 40, 253402300799999999, 1600000000123456, -62135596800000000}[g.Intn(12)]
	case 1:
		return g.Int63n(4102444800000000)
	case 2:
		return -g.Int63n(4102444800000000)
	}
	return 1600000000000000 + g.Int63n(1000000000000)
}

func (g *G) Meta(depth int) map[string]*PV {
	m := map[string]*PV{}
	n := g.Count(4)
	if n > 20 && depth < 2 {
		n = 20
	}
	for i := 0; i < n; i++ {
		k := g.Str()
		if n > 100 {
			k = fmt.Sprintf("k%d", i)
		}
		m[k] = g.PV(depth)
	}
	return m
}

// ---------------------------------------------------------------- recordings

type CK int

const (
	cPos CK = iota
	cEul
	cEnum
	cEvent
	cFloat
	cKinds
)

var kindSig = []string{"recolude.position", "recolude.euler", "recolude.enum", "recolude.event", "recolude.float"}

type EvM struct {
	Name string
	Meta map[string]*PV
}

type ColM struct {
	K       CK
	Name    string
	T       []float64
	V       [][3]float64 // position, euler; float uses V[i][0]
	Members []string
	Vals    []int
	Ev      []EvM
}

func (c *ColM) Len() int { return len(c.T) }

func (c *ColM) Build() format.CaptureCollection {
	switch c.K {
	case cPos:
		l := make([]position.Capture, len(c.T))
		for i := range l {
			l[i] = position.NewCapture(c.T[i], c.V[i][0], c.V[i][1], c.V[i][2])
		}
		return position.NewCollection(c.Name, l)
	case cEul:
		l := make([]euler.Capture, len(c.T))
		for i := range l {
			l[i] = euler.NewEulerZXYCapture(c.T[i], c.V[i][0], c.V[i][1], c.V[i][2])
		}
		return euler.NewCollection(c.Name, l)
	case cFloat:
		l := make([]float.Capture, len(c.T))
		for i := range l {
			l[i] = float.NewCapture(c.T[i], c.V[i][0])
		}
		return float.NewCollection(c.Name, l)
	case cEnum:
		l := make([]enum.Capture, len(c.T))
		for i := range l {
			l[i] = enum.NewCapture(c.T[i], c.Vals[i])
		}
		return enum.NewCollection(c.Name, append([]string{}, c.Members...), l)
	case cEvent:
		l := make([]event.Capture, len(c.T))
		for i := range l {
			l[i] = event.NewCapture(c.T[i], c.Ev[i].Name, buildBlock(c.Ev[i].Meta))
		}
		return event.NewCollection(c.Name, l)
	}
	panic("bad ColM")
}

type BinM struct {
	Name    string
	Data    []byte
	Meta    map[string]*PV
	Chunked bool
}

type RefM struct {
	Name, URI string
	Size      uint64
	Meta      map[string]*PV
}

type RecM struct {
	ID, Name string
	Meta     map[string]*PV
	Cols     []*ColM
	Subs     []*RecM
	Bins     []*BinM
	Refs     []*RefM
}

type chunkBinary struct {
	m *BinM
}

func (b chunkBinary) Name() string             { return b.m.Name }
func (b chunkBinary) Data() io.Reader          { return &chunkReader{r: bytes.NewReader(b.m.Data), n: 7} }
func (b chunkBinary) Size() uint64             { return uint64(len(b.m.Data)) }
func (b chunkBinary) Metadata() metadata.Block { return buildBlock(b.m.Meta) }

type chunkReader struct {
	r io.Reader
	n int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func (b *BinM) Build() format.Binary {
	if b.Chunked {
		return chunkBinary{b}
	}
	return rapio.NewBinary(b.Name, append([]byte{}, b.Data...), buildBlock(b.Meta))
}

func (b *RefM) Build() format.BinaryReference {
	return rapio.NewBinaryReference(b.Name, b.URI, b.Size, buildBlock(b.Meta))
}

func (r *RecM) Build() format.Recording {
	var cols []format.CaptureCollection
	for _, c := range r.Cols {
		cols = append(cols, c.Build())
	}
	var subs []format.Recording
	for _, s := range r.Subs {
		subs = append(subs, s.Build())
	}
	var bins []format.Binary
	for _, b := range r.Bins {
		bins = append(bins, b.Build())
	}
	var refs []format.BinaryReference
	for _, b := range r.Refs {
		refs = append(refs, b.Build())
	}
	return format.NewRecording(r.ID, r.Name, cols, subs, buildBlock(r.Meta), bins, refs)
}

func (r *RecM) each(f func(*RecM)) {
	f(r)
	for _, s := range r.Subs {
		s.each(f)
	}
}

func (r *RecM) String() string {
	b := &strings.Builder{}
	r.describe(b, "")
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (r *RecM) describe(b *strings.Builder, ind string) {
	if b.Len() > 5000 {
		return
	}
	fmt.Fprintf(b, "%srecording id=%q name=%q meta=%s\n", ind, short(r.ID), short(r.Name), metaString(r.Meta))
	for _, c := range r.Cols {
		fmt.Fprintf(b, "%s  collection %s\n", ind, c)
	}
	for _, x := range r.Bins {
		fmt.Fprintf(b, "%s  binary %q %d bytes meta=%s\n", ind, short(x.Name), len(x.Data), metaString(x.Meta))
	}
	for _, x := range r.Refs {
		fmt.Fprintf(b, "%s  reference %q %q size %d meta=%s\n", ind, short(x.Name), short(x.URI), x.Size, metaString(x.Meta))
	}
	for _, s := range r.Subs {
		s.describe(b, ind+"  ")
	}
}

func (c *ColM) String() string {
	t := c.T
	if len(t) > 8 {
		t = t[:8]
	}
	s := fmt.Sprintf("%s name=%q n=%d times=%v", kindSig[c.K], short(c.Name), len(c.T), t)
	switch c.K {
	case cPos, cEul, cFloat:
		v := c.V
		if len(v) > 8 {
			v = v[:8]
		}
		s += fmt.Sprintf(" values=%v", v)
	case cEnum:
		m, v := c.Members, c.Vals
		if len(m) > 8 {
			m = m[:8]
		}
		if len(v) > 8 {
			v = v[:8]
		}
		s += fmt.Sprintf(" members(%d)=%q values=%v", len(c.Members), m, v)
	case cEvent:
		for i, e := range c.Ev {
			if i > 5 {
				s += " ..."
				break
			}
			s += fmt.Sprintf(" {%q %s}", short(e.Name), metaString(e.Meta))
		}
	}
	return s
}

type Opt struct {
	depth    int
	kinds    []CK
	chrono   bool // times finite and non-decreasing
	maxCols  int
	maxSubs  int
	maxCaps  int
	noBins   bool
	noMeta   bool
	validEnu bool // enum values index the member list
	metaDep  int
}

// Times returns n capture times.
func (g *G) Times(n int, chrono bool) []float64 {
	t := make([]float64, n)
	if !chrono {
		mode := g.Intn(3)
		for i := range t {
			if mode == 0 {
				t[i] = g.F()
			} else {
				t[i] = math.Floor(g.Float64()*20) / 2
			}
		}
		return t
	}
	cur := []float64{0, 1, -5, 0.1, 1000, 1e6, -1e6, 12.75, 1e-3}[g.Intn(9)]
	mode := g.Intn(7)
	for i := range t {
		t[i] = cur
		switch mode {
		case 0:
			cur += 1
		case 1:
			cur += g.Float64()
		case 2: // bursts and pauses
			if g.p(4) {
				cur += g.Float64() * 1000
			} else {
				cur += g.Float64() * 0.001
			}
		case 3: // many equal
			if g.p(3) {
				cur += 0.25
			}
		case 4: // all equal
		case 5: // one maximal gap repeated
			cur += 0.0625
		case 6:
			if g.p(2) {
				cur += 10
			}
		}
	}
	return t
}

func (g *G) Col(k CK, n int, o *Opt) *ColM {
	c := &ColM{K: k, Name: g.Str(), T: g.Times(n, o.chrono)}
	switch k {
	case cPos, cEul, cFloat:
		mode := g.Intn(4)
		cur := [3]float64{g.NormFloat64() * 10, g.NormFloat64() * 10, g.NormFloat64() * 10}
		for i := 0; i < n; i++ {
			switch mode {
			case 0:
				c.V = append(c.V, [3]float64{g.F(), g.F(), g.F()})
			case 1:
				for a := range cur {
					cur[a] += g.NormFloat64()
				}
				c.V = append(c.V, cur)
			case 2:
				c.V = append(c.V, [3]float64{float64(i), float64(-i), float64(i) / 2})
			case 3:
				c.V = append(c.V, [3]float64{g.Float64() * 360, g.Float64() * 360, g.Float64() * 360})
			}
		}
	case cEnum:
		m := g.Count(5)
		seen := map[string]bool{}
		for i := 0; i < m; i++ {
			s := g.Str()
			if m > 100 {
				s = fmt.Sprintf("member %d", i)
			}
			if seen[s] && !g.p(4) {
				continue
			}
			seen[s] = true
			c.Members = append(c.Members, s)
		}
		if len(c.Members) == 0 && o.validEnu {
			c.Members = []string{g.Str()}
		}
		for i := 0; i < n; i++ {
			v := 0
			if len(c.Members) > 0 {
				v = g.Intn(len(c.Members))
			}
			if !o.validEnu && g.p(10) {
				v = []int{0, 127, 128, 300, 16384, 1 << 31, 1<<62 + 3}[g.Intn(7)]
			}
			c.Vals = append(c.Vals, v)
		}
	case cEvent:
		for i := 0; i < n; i++ {
			e := EvM{Name: g.Str(), Meta: map[string]*PV{}}
			if g.Intn(3) > 0 && !(n > 100 && i > 20) {
				e.Meta = g.Meta(o.metaDep)
			}
			c.Ev = append(c.Ev, e)
		}
	}
	return c
}

func (g *G) Rec(o *Opt, depth int) *RecM {
	r := &RecM{ID: g.Str(), Name: g.Str()}
	if !o.noMeta {
		r.Meta = g.Meta(o.metaDep)
	}
	nc := g.Count(o.maxCols)
	for i := 0; i < nc; i++ {
		n := g.Intn(4)
		if nc < 20 {
			n = g.Count(o.maxCaps)
		}
		r.Cols = append(r.Cols, g.Col(o.kinds[g.Intn(len(o.kinds))], n, o))
	}
	if !o.noBins {
		for i := g.Intn(4) - 1; i > 0; i-- {
			b := &BinM{Name: g.Str(), Chunked: g.p(3)}
			n := g.Count(12)
			if g.big && g.budget > 0 && g.p(8) {
				g.budget--
				n = []int{16383, 16384, 33000, 70001}[g.Intn(4)]
			}
			b.Data = make([]byte, n)
			g.Read(b.Data)
			if !o.noMeta {
				b.Meta = g.Meta(o.metaDep)
			}
			r.Bins = append(r.Bins, b)
		}
		for i := g.Intn(4) - 1; i > 0; i-- {
			b := &RefM{Name: g.Str(), URI: g.Str(), Size: g.U64()}
			if !o.noMeta {
				b.Meta = g.Meta(o.metaDep)
			}
			r.Refs = append(r.Refs, b)
		}
	}
	if depth > 0 {
		ns := g.Intn(o.maxSubs + 1)
		if g.big && g.budget > 0 && g.p(40) {
			g.budget--
			ns = 130
			for i := 0; i < ns; i++ {
				s := &RecM{ID: fmt.Sprint(i), Name: g.Str()}
				if g.p(4) {
					s.Cols = append(s.Cols, g.Col(o.kinds[g.Intn(len(o.kinds))], g.Intn(3), o))
				}
				r.Subs = append(r.Subs, s)
			}
			return r
		}
		for i := 0; i < ns; i++ {
			r.Subs = append(r.Subs, g.Rec(o, depth-1-g.Intn(2)))
		}
	}
	return r
}

func (g *G) U64() uint64 {
	switch g.Intn(4) {
	case 0:
		return []uint64{0, 1, 127, 128, 16383, 16384, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}[g.Intn(11)]
	case 1:
		return g.Uint64() >> uint(g.Intn(64))
	}
	return uint64(g.Intn(1000))
}

func defOpt(g *G) *Opt {
	o := &Opt{depth: g.Intn(4), kinds: []CK{cPos, cEul, cEnum, cEvent, cFloat}, maxCols: 4, maxSubs: 3, maxCaps: 6, metaDep: g.Intn(3)}
	if g.p(6) {
		o.maxCols = 0
	}
	if g.p(5) {
		o.depth = 5
		o.maxSubs = 2
	}
	if g.p(4) {
		o.noMeta = true
	}
	return o
}
