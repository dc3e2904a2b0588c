package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"

	stdbin "encoding/binary"
	"github.com/recolude/rap/internal/io/binary"
)

// blockCase exercises the length-prefixed building blocks of the file format:
// one value of each kind per case, written one after another and read back
// from a whole or a chunked source, and then from every prefix.
type blockCase struct {
	name  string
	enc   []byte
	want  interface{}
	read  func(r io.Reader) (interface{}, int, error)
	check func(a, b interface{}) bool
}

func (c *Case) blocks() []blockCase {
	eq := func(a, b interface{}) bool { return reflect.DeepEqual(a, b) }
	var out []blockCase
	for k := 0; k < 1+c.Intn(4); k++ {
		switch c.Intn(5) {
		case 0:
			v := c.u64()
			buf := make([]byte, 10)
			out = append(out, blockCase{fmt.Sprintf("varint %d", v), buf[:stdbin.PutUvarint(buf, v)], v,
				func(r io.Reader) (interface{}, int, error) { v, n, e := binary.ReadUvarint(r); return v, n, e }, eq})
		case 1:
			s := c.blob(c.blobLen())
			out = append(out, blockCase{fmt.Sprintf("string of %d bytes", len(s)), binary.StringToBytes(string(s)), string(s),
				func(r io.Reader) (interface{}, int, error) { v, n, e := binary.ReadString(r); return v, n, e }, eq})
		case 2:
			s := c.blob(c.blobLen())
			out = append(out, blockCase{fmt.Sprintf("byte array of %d bytes", len(s)), binary.BytesArrayToBytes(s), s,
				func(r io.Reader) (interface{}, int, error) { v, n, e := binary.ReadBytesArray(r); return v, n, e },
				func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) }})
		case 3:
			n := c.Intn(6)
			if c.p(20) {
				n = 120 + c.Intn(200)
			}
			ss := make([]string, n)
			for i := range ss {
				ss[i] = string(c.blob(c.Intn(5)))
			}
			out = append(out, blockCase{fmt.Sprintf("%d strings", n), binary.StringArrayToBytes(ss), ss,
				func(r io.Reader) (interface{}, int, error) { v, n, e := binary.ReadStringArray(r); return v, n, e },
				func(a, b interface{}) bool {
					x, y := a.([]string), b.([]string)
					return len(x) == len(y) && (len(x) == 0 || eq(a, b))
				}})
		case 4:
			n := c.Intn(6)
			if c.p(20) {
				n = 120 + c.Intn(200)
			}
			us := make([]uint, n)
			for i := range us {
				us[i] = uint(c.u64())
			}
			out = append(out, blockCase{fmt.Sprintf("%d integers", n), binary.UvarintArrayToBytes(us), us,
				func(r io.Reader) (interface{}, int, error) { v, n, e := binary.ReadUvarIntArray(r); return v, n, e },
				func(a, b interface{}) bool {
					x, y := a.([]uint), b.([]uint)
					return len(x) == len(y) && (len(x) == 0 || eq(a, b))
				}})
		}
	}
	return out
}

func (c *Case) u64() uint64 {
	switch c.Intn(4) {
	case 0:
		return uint64(c.Intn(300))
	case 1:
		b := uint64(1) << uint(c.Intn(64))
		return b + uint64(c.Intn(3)) - 1
	case 2:
		return math.MaxUint64 - uint64(c.Intn(3))
	}
	return c.Uint64() >> uint(c.Intn(64))
}

func (c *Case) blobLen() int {
	switch c.Intn(8) {
	case 0:
		return 126 + c.Intn(4)
	case 1:
		return 505 + c.Intn(20)
	case 2:
		return []int{16382, 16383, 16384, 16385, 1024, 4096, 32768}[c.Intn(7)]
	}
	return c.Intn(40)
}

func (c *Case) blob(n int) []byte {
	b := make([]byte, n)
	c.Read(b)
	return b
}

// checkBlocks: what is read back equals what was written, the count is the
// number of bytes consumed and of bytes written, nothing beyond is touched;
// from a truncated source the same read fails.
func checkBlocks(c *Case) error {
	bs := c.blocks()
	var all []byte
	for _, b := range bs {
		c.descf("%s: %d bytes", b.name, len(b.enc))
		all = append(all, b.enc...)
	}
	tail := c.Intn(4)
	all = append(all, make([]byte, tail)...)
	rd := bytes.NewReader(all)
	var src io.Reader = rd
	var er *binary.ErrReader
	kind := c.Intn(4)
	switch kind {
	case 1:
		src = &chunkReader{r: rd, n: 1 + c.Intn(9)}
	case 2:
		er = binary.NewErrReader(rd)
		src = er
	case 3:
		er = binary.NewErrReader(&chunkReader{r: rd, n: 1 + c.Intn(9)})
		src = er
	}
	used := 0
	for _, b := range bs {
		v, n, err := b.read(src)
		if err != nil {
			return fmt.Errorf("reading %s back failed: %v (source kind %d)", b.name, err, kind)
		}
		if !b.check(v, b.want) {
			return fmt.Errorf("%s read back differs: wrote %v, read %v", b.name, b.want, v)
		}
		used += len(b.enc)
		if n != len(b.enc) {
			return fmt.Errorf("reading %s reported %d bytes, %d were written", b.name, n, len(b.enc))
		}
		if got := len(all) - rd.Len(); got != used {
			return fmt.Errorf("after %s the source is at %d, %d bytes were written so far", b.name, got, used)
		}
		if er != nil && er.TotalRead() != used {
			return fmt.Errorf("after %s the total is %d, %d bytes were written so far", b.name, er.TotalRead(), used)
		}
	}
	b := bs[c.Intn(len(bs))]
	cut := c.Intn(len(b.enc))
	if c.p(2) {
		cut = len(b.enc) - 1
	}
	if _, _, err := b.read(bytes.NewReader(b.enc[:cut])); err == nil {
		return fmt.Errorf("%s cut to %d of %d bytes was read without an error", b.name, cut, len(b.enc))
	}
	return nil
}

func init() {
	whole := checks["C09"]
	checks["C09"] = func(c *Case) error {
		if c.Index%2 == 0 {
			return checkBlocks(c)
		}
		return whole(c)
	}
}
