package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/format/encoding/enum"
	"github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/format/encoding/float"
	"github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
)

// encSet is one choice of encoders.
type encSet struct {
	encs []encoding.Encoder
	pos  position.StorageTechnique
	eul  euler.StorageTechnique
	flo  float.StorageTechnique
	desc string
}

func (g *G) encoders(lossless bool) encSet {
	e := encSet{pos: position.Raw64, eul: euler.Raw64, flo: float.Raw64}
	if !lossless {
		e.pos = []position.StorageTechnique{position.Raw64, position.Raw32, position.Oct24, position.Oct48}[g.Intn(4)]
		e.eul = []euler.StorageTechnique{euler.Raw64, euler.Raw32, euler.Raw16}[g.Intn(3)]
		e.flo = []float.StorageTechnique{float.Raw64, float.Raw32, float.BST16}[g.Intn(3)]
	}
	e.encs = []encoding.Encoder{event.NewEncoder(), position.NewEncoder(e.pos), euler.NewEncoder(e.eul), enum.NewEncoder(), float.NewEncoder(e.flo)}
	g.Shuffle(len(e.encs), func(i, j int) { e.encs[i], e.encs[j] = e.encs[j], e.encs[i] })
	for _, x := range e.encs {
		e.desc += x.Signature() + " "
	}
	e.desc += fmt.Sprintf("(position technique %d, euler %d, float %d)", e.pos, e.eul, e.flo)
	return e
}

func timeTech(t rapio.TimeStorageTechnique) func(c *ColM, i int, got float64) bool {
	switch t {
	case rapio.Raw64:
		return exactTime
	case rapio.Raw32:
		return func(c *ColM, i int, got float64) bool { return eq32(got, c.T[i]) }
	}
	return bstTime
}

// bstTime is the documented precision of 16-bit times (C04).
func bstTime(c *ColM, i int, got float64) bool {
	gap, ok := maxGap(c.T)
	if !ok {
		return true // not chronological or beyond 32 bits: nothing promised
	}
	return math.Abs(got-c.T[i]) <= bstTol(c.T, gap, i)
}

func bstTol(t []float64, gap float64, i int) float64 {
	scale := math.Abs(t[0]) + math.Abs(t[i]) + float64(i)*gap
	return float64(i)*gap/65536*(1+1e-6) + scale*math.Pow(2, -23) + float64(i+1)*math.Pow(2, -148)
}

func maxGap(t []float64) (float64, bool) {
	m := 0.0
	for i := range t {
		if !fin(t[i]) || math.Abs(t[i]) > 1e37 {
			return 0, false
		}
		if i > 0 {
			if t[i] < t[i-1] {
				return 0, false
			}
			if t[i]-t[i-1] > m {
				m = t[i] - t[i-1]
			}
		}
	}
	return m, true
}

func save(r format.Recording, e []encoding.Encoder, compress bool, tt rapio.TimeStorageTechnique) ([]byte, int, error) {
	b := &bytes.Buffer{}
	n, err := rapio.NewWriter(e, compress, b, tt).Write(r)
	return b.Bytes(), n, err
}

func (g *G) techs() (bool, rapio.TimeStorageTechnique) {
	return g.p(2), []rapio.TimeStorageTechnique{rapio.Raw64, rapio.Raw32, rapio.BST16}[g.Intn(3)]
}

// roundTrip writes and loads m, and compares under o.
func (c *Case) roundTrip(m *RecM, e encSet, compress bool, tt rapio.TimeStorageTechnique, o RecCmp) error {
	c.descf("encoders %s, compressed %v, time technique %d\n%s", e.desc, compress, tt, m)
	data, _, err := save(m.Build(), e.encs, compress, tt)
	if err != nil {
		return fmt.Errorf("writing failed: %v", err)
	}
	rec, _, err := rapio.NewReader(e.encs, bytes.NewReader(data)).Read()
	if err != nil {
		return fmt.Errorf("loading the written file failed: %v", err)
	}
	return cmpRec(m, rec, o)
}

func init() {
	checks["C01"] = func(c *Case) error {
		o := defOpt(c.G)
		o.chrono = c.p(2)
		o.validEnu = c.p(2)
		if c.Index%4 == 1 {
			o.kinds = [][]CK{{cPos}, {cEnum, cEvent}, {cFloat, cPos}, {cEul, cEnum}, {cEvent}}[c.Intn(5)]
		}
		m := c.Rec(o, o.depth)
		if c.Index%7 == 3 { // default writer and Load
			m.each(func(r *RecM) {
				for _, x := range r.Cols {
					if x.K == cFloat {
						x.K = cPos
					}
				}
			})
			c.descf("default writer and Load\n%s", m)
			b := &bytes.Buffer{}
			if _, err := rapio.NewRecoludeWriter(b).Write(m.Build()); err != nil {
				return fmt.Errorf("writing failed: %v", err)
			}
			rec, _, err := rapio.Load(b)
			if err != nil {
				return fmt.Errorf("loading the written file failed: %v", err)
			}
			return cmpRec(m, rec, RecCmp{tol: Tol{time: anyTime, val: anyVal, meta: true}, cols: true})
		}
		lossless := c.Index%3 != 0
		e := c.encoders(lossless)
		compress, tt := c.techs()
		if lossless {
			tt = rapio.Raw64
		}
		tol := Tol{time: exactTime, val: exactVal, meta: true}
		if !lossless {
			tol = Tol{time: anyTime, val: anyVal, meta: true}
		}
		if err := c.roundTrip(m, e, compress, tt, RecCmp{tol: tol, cols: true}); err != nil {
			return err
		}
		if lossless { // saving what was loaded changes nothing
			data, _, _ := save(m.Build(), e.encs, compress, tt)
			rec, _, err := rapio.NewReader(e.encs, bytes.NewReader(data)).Read()
			if err != nil {
				return err
			}
			d2, _, err := save(rec, e.encs, !compress, tt)
			if err != nil {
				return fmt.Errorf("saving a loaded recording failed: %v", err)
			}
			rec2, _, err := rapio.NewReader(e.encs, bytes.NewReader(d2)).Read()
			if err != nil {
				return fmt.Errorf("loading a re-saved recording failed: %v", err)
			}
			return cmpRec(m, rec2, RecCmp{tol: tol, cols: true})
		}
		return nil
	}

	checks["C02"] = func(c *Case) error {
		if c.Index%2 == 0 {
			p := c.PVof(PK(c.Index/2%int(pEnd)), 2+c.Intn(2))
			c.descf("property %s", p)
			b := &bytes.Buffer{}
			n, err := metadata.WriteProprty(b, p.Build())
			if err != nil {
				return fmt.Errorf("writing a property failed: %v", err)
			}
			if n != b.Len() {
				return fmt.Errorf("writing a property reported %d bytes, wrote %d", n, b.Len())
			}
			tail := []byte{0xde, 0xad, 0xbe, 0xef, 1, 2, 3}
			all := append(append([]byte{}, b.Bytes()...), tail...)
			var src io.Reader = bytes.NewReader(all)
			rd := src.(*bytes.Reader)
			if c.p(2) {
				src = &chunkReader{r: rd, n: 1 + c.Intn(3)}
			}
			got, err := metadata.ReadProperty(src)
			if err != nil {
				return fmt.Errorf("reading a property back failed: %v", err)
			}
			if rd.Len() != len(tail) {
				return fmt.Errorf("reading a property of %d bytes consumed %d", n, len(all)-rd.Len())
			}
			return cmpProp(p, got)
		}
		o := defOpt(c.G)
		o.noMeta = false
		o.metaDep = c.Intn(4)
		o.kinds = []CK{cEvent}
		o.maxCols = 2
		o.maxCaps = 3
		m := c.Rec(o, o.depth)
		e := c.encoders(true)
		compress := c.p(3)
		return c.roundTrip(m, e, compress, rapio.Raw64, RecCmp{tol: Tol{time: anyTime, val: anyVal, meta: true}, cols: true, bins: true, meta: true})
	}

	checks["C03"] = func(c *Case) error {
		o := defOpt(c.G)
		o.maxCols = 1
		o.maxCaps = 2
		o.metaDep = 1
		m := c.Rec(o, 1+c.Intn(3))
		n := 0
		m.each(func(r *RecM) {
			if c.Index%4 == 1 {
				for i := c.Count(6); i > 0; i-- {
					r.Refs = append(r.Refs, &RefM{Name: c.Str(), URI: c.Str(), Size: c.U64(), Meta: c.Meta(1)})
				}
				for i := c.Count(6); i > 0; i-- {
					b := &BinM{Name: c.Str(), Data: make([]byte, c.Count(300)), Meta: c.Meta(1), Chunked: c.p(2)}
					c.Read(b.Data)
					r.Bins = append(r.Bins, b)
				}
			}
			n += len(r.Bins) + len(r.Refs)
		})
		c.Triv = n == 0
		compress := c.p(2)
		return c.roundTrip(m, c.encoders(true), compress, rapio.Raw64, RecCmp{bins: true, meta: true})
	}

	checks["C04"] = func(c *Case) error {
		compress, tt := c.techs()
		o := &Opt{kinds: []CK{cPos, cEul, cEnum, cEvent, cFloat}, chrono: true, metaDep: 0}
		if tt != rapio.BST16 {
			o.chrono = c.p(3)
		}
		m := &RecM{ID: "r"}
		caps := 0
		for i := 0; i <= c.Intn(3); i++ {
			n := []int{0, 1, 2, 3, 4, 10, 50, 128, 300}[c.Intn(9)]
			if c.Index%40 == 7 && i == 0 {
				n = 3000
			}
			caps += n
			m.Cols = append(m.Cols, c.Col(o.kinds[c.Intn(5)], n, o))
		}
		c.Triv = caps == 0
		tol := Tol{time: timeTech(tt), val: anyVal}
		e := c.encoders(true)
		c.descf("encoders %s compressed %v, time technique %d\n%s", e.desc, compress, tt, m)
		data, _, err := save(m.Build(), e.encs, compress, tt)
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		rec, _, err := rapio.NewReader(e.encs, bytes.NewReader(data)).Read()
		if err != nil {
			return fmt.Errorf("loading the written file failed: %v", err)
		}
		if err := cmpRec(m, rec, RecCmp{tol: tol, cols: true}); err != nil {
			return err
		}
		if tt == rapio.BST16 {
			for ci, col := range rec.CaptureCollections() {
				if _, ok := maxGap(m.Cols[ci].T); !ok {
					continue
				}
				cp := col.Captures()
				for i := 1; i < len(cp); i++ {
					if !(cp[i].Time() >= cp[i-1].Time()) {
						return fmt.Errorf("16-bit times of collection %d decrease at capture %d: %v then %v", ci, i, cp[i-1].Time(), cp[i].Time())
					}
				}
			}
		}
		return nil
	}

	checks["C05"] = func(c *Case) error {
		k := []CK{cPos, cEul, cFloat}[c.Index%3]
		raw32 := c.p(2)
		var enc encoding.Encoder
		switch k {
		case cPos:
			enc = position.NewEncoder([]position.StorageTechnique{position.Raw64, position.Raw32}[b2i(raw32)])
		case cEul:
			enc = euler.NewEncoder([]euler.StorageTechnique{euler.Raw64, euler.Raw32}[b2i(raw32)])
		case cFloat:
			enc = float.NewEncoder([]float.StorageTechnique{float.Raw64, float.Raw32}[b2i(raw32)])
		}
		tol := Tol{time: exactTime, val: exactVal}
		if raw32 {
			tol.val = func(c *ColM, i, a int, got float64) bool { return eq32(got, c.V[i][a]) }
		} else {
			tol.val = func(c *ColM, i, a int, got float64) bool { return beq(got, c.V[i][a]) }
		}
		return c.encoderBatch(enc, k, tol, &Opt{chrono: c.p(2)}, false)
	}

	checks["C06"] = func(c *Case) error {
		c.finite = true
		var enc encoding.Encoder
		tol := Tol{time: exactTime}
		k := []CK{cPos, cEul, cFloat, cPos}[c.Index%4]
		switch c.Index % 4 {
		case 0:
			enc = position.NewEncoder(position.Oct24)
			tol.val = octTol(256)
		case 3:
			enc = position.NewEncoder(position.Oct48)
			tol.val = octTol(65536)
		case 1:
			enc = euler.NewEncoder(euler.Raw16)
			tol.val = func(c *ColM, i, a int, got float64) bool {
				v := c.V[i][a]
				if math.Abs(v) > 1e12 {
					return true
				}
				d := math.Mod(math.Abs(got-v), 360)
				d = math.Min(d, 360-d)
				return d <= 360.0/65536+360*math.Pow(2, -23)+math.Abs(v)*math.Pow(2, -50)
			}
		case 2:
			enc = float.NewEncoder(float.BST16)
			tol.val = func(c *ColM, i, a int, got float64) bool {
				mn, mx := math.Inf(1), math.Inf(-1)
				for _, v := range c.V {
					mn, mx = math.Min(mn, v[0]), math.Max(mx, v[0])
				}
				if math.Abs(mn) > 1e37 || math.Abs(mx) > 1e37 {
					return true
				}
				return math.Abs(got-c.V[i][0]) <= (mx-mn)/65536+(math.Abs(mn)+math.Abs(mx))*math.Pow(2, -22)+math.Pow(2, -140)
			}
		}
		return c.encoderBatch(enc, k, tol, &Opt{chrono: true}, true)
	}

	checks["C07"] = func(c *Case) error {
		return c.encoderBatch(enum.NewEncoder(), cEnum, Tol{time: exactTime}, &Opt{chrono: c.p(2), validEnu: c.p(2)}, false)
	}

	checks["C08"] = func(c *Case) error {
		return c.encoderBatch(event.NewEncoder(), cEvent, Tol{time: exactTime, meta: true}, &Opt{chrono: c.p(2), metaDep: c.Intn(3)}, false)
	}

	checks["C09"] = func(c *Case) error {
		o := defOpt(c.G)
		m := c.Rec(o, o.depth)
		e := c.encoders(false)
		compress, tt := c.techs()
		c.descf("encoders %s, compressed %v, time technique %d\n%s", e.desc, compress, tt, m)
		data, n, err := save(m.Build(), e.encs, compress, tt)
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		if !compress && n != len(data) {
			return fmt.Errorf("write reported %d bytes, %d reached the output", n, len(data))
		}
		tail := c.Intn(3) * 5
		rd := bytes.NewReader(append(append([]byte{}, data...), make([]byte, tail)...))
		var src io.Reader = rd
		if c.p(3) {
			src = &chunkReader{r: rd, n: 1 + c.Intn(9)}
		}
		_, rn, err := rapio.NewReader(e.encs, src).Read()
		if err != nil {
			return fmt.Errorf("loading the written file failed: %v", err)
		}
		if rn != n {
			return fmt.Errorf("write reported %d bytes, loading reported %d (compressed %v, %d bytes in the file)", n, rn, compress, len(data))
		}
		if !compress && rd.Len() != tail {
			return fmt.Errorf("loading reported %d bytes and consumed %d", rn, len(data)+tail-rd.Len())
		}
		return nil
	}

	checks["C10"] = func(c *Case) error {
		o := defOpt(c.G)
		o.depth = c.Intn(3)
		o.maxSubs = 2
		c.big = c.p(8)
		m := c.Rec(o, o.depth)
		if c.p(2) {
			b := &BinM{Name: "bin", Data: make([]byte, c.Intn(400)), Chunked: c.p(2)}
			c.Read(b.Data)
			m.Bins = append(m.Bins, b)
		}
		e := c.encoders(false)
		compress, tt := c.techs()
		mode := c.Intn(4)
		c.descf("encoders %s, compressed %v, time technique %d, failure mode %d\n%s", e.desc, compress, tt, mode, m)
		rec := m.Build()
		cw := &countWriter{}
		if _, err := rapio.NewWriter(e.encs, compress, cw, tt).Write(rec); err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		fails := []int{}
		if mode == 0 { // at a call
			for i := 0; i < cw.calls; i++ {
				fails = append(fails, i)
			}
		} else {
			for i := 0; i < cw.n; i++ {
				fails = append(fails, i)
			}
		}
		if len(fails) > 60 {
			p := c.Perm(len(fails))[:60]
			p = append(p, 0, 1, len(fails)-1, len(fails)-2, len(fails)-3)
			sort.Ints(p)
			fails = p
		}
		for _, at := range fails {
			fw := &failWriter{mode: mode, at: at}
			n, err := rapio.NewWriter(e.encs, compress, fw, tt).Write(rec)
			if !fw.failed {
				continue // map order changed the calls
			}
			if err == nil {
				c.descf("output fails at %d (mode %d)", at, mode)
				return fmt.Errorf("the output failed at %d (mode %d: 0 one call fails, 1 fails from this byte on, 2 accepts up to this byte then recovers, 3 like 1 without accepting the part) and the write reported success (%d bytes)", at, mode, n)
			}
		}
		return nil
	}

	checks["C11"] = func(c *Case) error {
		o := defOpt(c.G)
		o.depth = c.Intn(3)
		o.maxSubs = 2
		c.big = c.p(10)
		m := c.Rec(o, o.depth)
		e := c.encoders(false)
		compress, tt := c.techs()
		c.descf("encoders %s, compressed %v, time technique %d\n%s", e.desc, compress, tt, m)
		data, _, err := save(m.Build(), e.encs, compress, tt)
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		cuts := []int{}
		if len(data) <= 400 {
			for i := 0; i < len(data); i++ {
				cuts = append(cuts, i)
			}
		} else {
			for i := 0; i < 40; i++ {
				cuts = append(cuts, i, len(data)-1-i)
			}
			for i := 0; i < 200; i++ {
				cuts = append(cuts, c.Intn(len(data)))
			}
		}
		for _, k := range cuts {
			rec, _, err := rapio.NewReader(e.encs, bytes.NewReader(data[:k])).Read()
			if err == nil || rec != nil {
				c.descf("file cut to %d of %d bytes: % x", k, len(data), tailBytes(data[:k]))
				return fmt.Errorf("loading the first %d of %d bytes gave error %v and recording nil=%v", k, len(data), err, rec == nil)
			}
		}
		return nil
	}

	checks["C13"] = func(c *Case) error {
		o := defOpt(c.G)
		o.depth = c.Intn(3)
		m := c.Rec(o, o.depth)
		e := c.encoders(false)
		compress, tt := c.techs()
		c.descf("encoders %s, compressed %v, time technique %d\n%s", e.desc, compress, tt, m)
		data, _, err := save(m.Build(), e.encs, compress, tt)
		if err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
		if c.Index%9 == 5 {
			data = c.v1File(c.v1Rec())
			c.descf("as a version-1 file of %d bytes", len(data))
		}
		switch c.Intn(4) {
		case 0:
			data = data[:c.Intn(len(data))]
			c.descf("cut to %d bytes", len(data))
		case 1:
			i := c.Intn(len(data))
			data[i] ^= byte(1 << c.Intn(8))
			c.descf("byte %d changed to %#x", i, data[i])
		}
		load := func(r io.Reader) (rec format.Recording, n int, err error) {
			return rapio.NewReader(e.encs, r).Read()
		}
		var r0 format.Recording
		var n0 int
		var e0 error
		if p := catch(func() { r0, n0, e0 = load(bytes.NewReader(data)) }); p != nil {
			return nil // C12's business
		}
		for k := 0; k < 6; k++ {
			r1, n1, e1 := load(&chopReader{data: data, g: c.G, mode: k})
			if n0 != n1 || errStr(e0) != errStr(e1) {
				c.descf("delivery mode %d", k)
				return fmt.Errorf("delivered in pieces (mode %d: 0 one byte at a time, 1 last bytes with EOF, 2 random pieces, 3 random pieces with EOF, 4 one byte with EOF, 5 small random) the load reports %d bytes and error %v, at once %d bytes and error %v", k, n1, e1, n0, e0)
			}
			if err := sameRec(r0, r1); err != nil {
				c.descf("delivery mode %d", k)
				return fmt.Errorf("delivered in pieces (mode %d) the recording differs: %w", k, err)
			}
		}
		return nil
	}
}

func tailBytes(b []byte) []byte {
	if len(b) > 64 {
		return b[len(b)-64:]
	}
	return b
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type countWriter struct{ n, calls int }

func (w *countWriter) Write(p []byte) (int, error) {
	w.n += len(p)
	w.calls++
	return len(p), nil
}

var errSink = errors.New("sink failure")

// failWriter fails: mode 0 the at-th call fails, then it recovers; mode 1 from
// byte at on (accepting the part before); mode 2 the call reaching byte at
// accepts a part and fails, then it recovers; mode 3 from byte at on, accepting
// nothing of the failing call.
type failWriter struct {
	mode, at int
	n, calls int
	failed   bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	switch w.mode {
	case 0:
		if w.calls-1 == w.at {
			w.failed = true
			return 0, errSink
		}
	case 1, 3:
		if w.n+len(p) > w.at {
			w.failed = true
			k := w.at - w.n
			if w.mode == 3 {
				k = 0
			}
			w.n += k
			return k, errSink
		}
	case 2:
		if !w.failed && w.n+len(p) > w.at {
			w.failed = true
			k := w.at - w.n
			w.n += k
			return k, errSink
		}
	}
	w.n += len(p)
	return len(p), nil
}

// chopReader delivers data in pieces.
type chopReader struct {
	data []byte
	g    *G
	mode int
	zero bool
}

func (r *chopReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch r.mode {
	case 0, 4:
		n = 1
	case 2, 3:
		n = 1 + r.g.Intn(n)
	case 5:
		n = 1 + r.g.Intn(3)
		if !r.zero && r.g.p(20) {
			r.zero = true
			return 0, nil
		}
		r.zero = false
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && (r.mode == 1 || r.mode == 3 || r.mode == 4) {
		return n, io.EOF
	}
	return n, nil
}

// octTol is the resolution of the octree storage with n cells per axis.
func octTol(n float64) func(c *ColM, i, a int, got float64) bool {
	return func(c *ColM, i, a int, got float64) bool {
		big := 0.0
		for _, v := range c.V {
			big = math.Max(big, math.Abs(v[a]))
		}
		if big > 1e36 {
			return true
		}
		if len(c.V) == 1 {
			return eq32(got, c.V[i][a])
		}
		mn, mx := math.Inf(1), math.Inf(-1)
		for j := 1; j < len(c.V); j++ {
			d := c.V[j][a] - c.V[j-1][a]
			mn, mx = math.Min(mn, d), math.Max(mx, d)
		}
		round := (math.Abs(c.V[0][a])+big*4)*math.Pow(2, -24) + float64(i)*(math.Abs(mn)+math.Abs(mx))*math.Pow(2, -23) + float64(i+1)*big*math.Pow(2, -50) + math.Pow(2, -140)*float64(i+1)
		return math.Abs(got-c.V[i][a]) <= float64(i)*(mx-mn)/n+round
	}
}

// encoderBatch encodes a batch of collections together and decodes each.
func (c *Case) encoderBatch(enc encoding.Encoder, k CK, tol Tol, o *Opt, wide bool) error {
	nb := c.Intn(5)
	if c.Index%11 == 3 {
		nb = 1
	}
	var ms []*ColM
	var cols []format.CaptureCollection
	caps := 0
	for i := 0; i < nb; i++ {
		n := c.Count(8)
		if wide {
			n = []int{0, 1, 2, 3, 5, 17, 60}[c.Intn(7)]
			if c.Index%50 == 9 {
				n = 500
			}
		}
		caps += n
		m := c.Col(k, n, o)
		if c.Index%5 == 2 && i > 0 { // share members and names with an earlier one
			p := ms[c.Intn(len(ms))]
			m.Members = append(append([]string{}, p.Members...), m.Members...)
			if len(p.Ev) > 0 {
				for j := range m.Ev {
					q := p.Ev[c.Intn(len(p.Ev))]
					m.Ev[j] = EvM{Name: q.Name, Meta: q.Meta}
				}
			}
		}
		if k == cEnum && c.p(8) {
			for j := range m.Vals {
				if c.p(4) {
					m.Vals[j] = -1 - c.Intn(3)
				}
			}
		}
		ms = append(ms, m)
		cols = append(cols, m.Build())
	}
	c.Triv = caps == 0
	for i, m := range ms {
		c.descf("collection %d: %s", i, m)
		if !enc.Accepts(cols[i]) {
			return fmt.Errorf("encoder %s does not accept its own kind of collection", enc.Signature())
		}
	}
	header, streams, err := enc.Encode(cols)
	if err != nil {
		return fmt.Errorf("encoding failed: %v", err)
	}
	if len(streams) != nb {
		return fmt.Errorf("%d encoded streams for %d collections", len(streams), nb)
	}
	for i, m := range ms {
		got, err := enc.Decode(m.Name, header, append([]byte{}, streams[i]...), append([]float64{}, m.T...))
		if err != nil {
			return fmt.Errorf("decoding collection %d failed: %v", i, err)
		}
		if err := cmpCol(m, got, tol); err != nil {
			return fmt.Errorf("collection %d: %w", i, err)
		}
	}
	return nil
}
