package harness

// Encoders and decoders of the three formats, written from their
// specifications, so that what the code under test writes and reads is judged
// by something other than the libraries it uses. The encoders can choose among
// the legal encodings of a value.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
)

// chooser picks among n alternatives; nil picks the canonical one (0).
type chooser func(n int) int

func (c chooser) of(n int) int {
	if c == nil || n <= 1 {
		return 0
	}
	return c(n)
}

// tape is a chooser that reads its choices from a list (then picks 0).
func tape(list []byte) chooser {
	i := 0
	return func(n int) int {
		if i >= len(list) {
			return 0
		}
		v := int(list[i]) % n
		i++
		return v
	}
}

// rawNumber is a number whose encoding is given.
type rawNumber struct{ json, cbor, msgpack []byte }

func encodeWire(format string, v any, c chooser) []byte {
	var b bytes.Buffer
	switch format {
	case fmtJSON:
		encJSON(&b, v, c)
	case fmtCBOR:
		encCBOR(&b, v, c)
	case fmtMsgPack:
		encMsgPack(&b, v, c)
	default:
		panic("HARNESS-ERROR: format " + format)
	}
	return b.Bytes()
}

func sortedKeys(m map[string]any) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// integer returns the value of any Go integer: magnitude and sign.
func integer(v any) (u uint64, neg, ok bool) {
	var i int64
	switch x := v.(type) {
	case int:
		i = int64(x)
	case int8:
		i = int64(x)
	case int16:
		i = int64(x)
	case int32:
		i = int64(x)
	case int64:
		i = x
	case uint:
		return uint64(x), false, true
	case uint8:
		return uint64(x), false, true
	case uint16:
		return uint64(x), false, true
	case uint32:
		return uint64(x), false, true
	case uint64:
		return x, false, true
	default:
		return 0, false, false
	}
	if i < 0 {
		return uint64(-(i + 1)), true, true // CBOR's form: -1-n
	}
	return uint64(i), false, true
}

func encJSON(b *bytes.Buffer, v any, c chooser) {
	ws := func() {
		if c.of(8) == 1 {
			b.WriteString(" \n")
		}
	}
	ws()
	switch x := v.(type) {
	case rawNumber:
		b.Write(x.json)
	case []any:
		b.WriteByte('[')
		for i := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			encJSON(b, x[i], c)
		}
		b.WriteByte(']')
	case []string:
		encJSON(b, anys(x), c)
		return
	case map[string]any:
		b.WriteByte('{')
		for i, k := range sortedKeys(x) {
			if i > 0 {
				b.WriteByte(',')
			}
			encJSON(b, k, c)
			b.WriteByte(':')
			encJSON(b, x[k], c)
		}
		b.WriteByte('}')
	case string:
		if c.of(4) == 1 { // everything escaped
			b.WriteByte('"')
			for _, r := range x {
				if r > 0xffff {
					r -= 0x10000
					fmt.Fprintf(b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
				} else {
					fmt.Fprintf(b, `\u%04x`, r)
				}
			}
			b.WriteByte('"')
		} else {
			b.Write(must(json.Marshal(x)))
		}
	default:
		if u, neg, ok := integer(v); ok {
			if neg {
				fmt.Fprintf(b, "-%s", addOne(u))
			} else {
				fmt.Fprintf(b, "%d", u)
			}
			break
		}
		b.Write(must(json.Marshal(v)))
	}
	ws()
}

func addOne(u uint64) string {
	if u == math.MaxUint64 {
		return "18446744073709551616"
	}
	return strconv.FormatUint(u+1, 10)
}

func anys(s []string) []any {
	out := make([]any, len(s))
	for i := range s {
		out[i] = s[i]
	}
	return out
}

func cborHead(b *bytes.Buffer, major byte, n uint64, c chooser) {
	least := 0
	switch {
	case n < 24:
	case n <= math.MaxUint8:
		least = 1
	case n <= math.MaxUint16:
		least = 2
	case n <= math.MaxUint32:
		least = 3
	default:
		least = 4
	}
	switch least + c.of(5-least) {
	case 0:
		b.WriteByte(major<<5 | byte(n))
	case 1:
		b.Write([]byte{major<<5 | 24, byte(n)})
	case 2:
		b.Write(binary.BigEndian.AppendUint16([]byte{major<<5 | 25}, uint16(n)))
	case 3:
		b.Write(binary.BigEndian.AppendUint32([]byte{major<<5 | 26}, uint32(n)))
	default:
		b.Write(binary.BigEndian.AppendUint64([]byte{major<<5 | 27}, n))
	}
}

func encCBOR(b *bytes.Buffer, v any, c chooser) {
	if u, neg, ok := integer(v); ok {
		major := byte(0)
		if neg {
			major = 1
		}
		cborHead(b, major, u, c)
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xf6)
	case bool:
		if x {
			b.WriteByte(0xf5)
		} else {
			b.WriteByte(0xf4)
		}
	case rawNumber:
		b.Write(x.cbor)
	case float32:
		b.Write(binary.BigEndian.AppendUint32([]byte{0xfa}, math.Float32bits(x)))
	case float64:
		b.Write(binary.BigEndian.AppendUint64([]byte{0xfb}, math.Float64bits(x)))
	case []byte:
		cborHead(b, 2, uint64(len(x)), c)
		b.Write(x)
	case string:
		cborHead(b, 3, uint64(len(x)), c)
		b.WriteString(x)
	case []string:
		encCBOR(b, anys(x), c)
	case []any:
		indefinite := c.of(6) == 1
		if indefinite {
			b.WriteByte(0x9f)
		} else {
			cborHead(b, 4, uint64(len(x)), c)
		}
		for i := range x {
			encCBOR(b, x[i], c)
		}
		if indefinite {
			b.WriteByte(0xff)
		}
	case map[string]any:
		indefinite := c.of(6) == 1
		if indefinite {
			b.WriteByte(0xbf)
		} else {
			cborHead(b, 5, uint64(len(x)), c)
		}
		for _, k := range sortedKeys(x) {
			encCBOR(b, k, c)
			encCBOR(b, x[k], c)
		}
		if indefinite {
			b.WriteByte(0xff)
		}
	default:
		panic(fmt.Sprintf("HARNESS-ERROR: cannot encode %T", v))
	}
}

// msgpackInts lists every legal encoding of an integer, the shortest first.
func msgpackInts(u uint64, neg bool) [][]byte {
	var out [][]byte
	if neg {
		i := -int64(u) - 1
		if i >= -32 {
			out = append(out, []byte{byte(int8(i))})
		}
		if i >= math.MinInt8 {
			out = append(out, []byte{0xd0, byte(int8(i))})
		}
		if i >= math.MinInt16 {
			out = append(out, binary.BigEndian.AppendUint16([]byte{0xd1}, uint16(i)))
		}
		if i >= math.MinInt32 {
			out = append(out, binary.BigEndian.AppendUint32([]byte{0xd2}, uint32(i)))
		}
		return append(out, binary.BigEndian.AppendUint64([]byte{0xd3}, uint64(i)))
	}
	if u < 128 {
		out = append(out, []byte{byte(u)}, []byte{0xd0, byte(u)})
	}
	if u <= math.MaxUint8 {
		out = append(out, []byte{0xcc, byte(u)})
	}
	if u <= math.MaxUint16 {
		out = append(out, binary.BigEndian.AppendUint16([]byte{0xcd}, uint16(u)))
	}
	if u <= math.MaxInt16 {
		out = append(out, binary.BigEndian.AppendUint16([]byte{0xd1}, uint16(u)))
	}
	if u <= math.MaxUint32 {
		out = append(out, binary.BigEndian.AppendUint32([]byte{0xce}, uint32(u)))
	}
	if u <= math.MaxInt32 {
		out = append(out, binary.BigEndian.AppendUint32([]byte{0xd2}, uint32(u)))
	}
	out = append(out, binary.BigEndian.AppendUint64([]byte{0xcf}, u))
	if u <= math.MaxInt64 {
		out = append(out, binary.BigEndian.AppendUint64([]byte{0xd3}, u))
	}
	return out
}

// msgpackHead writes a length: fix (if any) for small ones, then 8 (if any),
// 16 and 32 bits.
func msgpackHead(b *bytes.Buffer, n int, fix byte, fixMax int, b8, b16, b32 byte, c chooser) {
	var alts [][]byte
	if fix != 0 && n <= fixMax {
		alts = append(alts, []byte{fix | byte(n)})
	}
	if b8 != 0 && n <= math.MaxUint8 {
		alts = append(alts, []byte{b8, byte(n)})
	}
	if n <= math.MaxUint16 {
		alts = append(alts, binary.BigEndian.AppendUint16([]byte{b16}, uint16(n)))
	}
	alts = append(alts, binary.BigEndian.AppendUint32([]byte{b32}, uint32(n)))
	b.Write(alts[c.of(len(alts))])
}

func encMsgPack(b *bytes.Buffer, v any, c chooser) {
	if u, neg, ok := integer(v); ok {
		alts := msgpackInts(u, neg)
		b.Write(alts[c.of(len(alts))])
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteByte(0xc0)
	case bool:
		if x {
			b.WriteByte(0xc3)
		} else {
			b.WriteByte(0xc2)
		}
	case rawNumber:
		b.Write(x.msgpack)
	case float32:
		b.Write(binary.BigEndian.AppendUint32([]byte{0xca}, math.Float32bits(x)))
	case float64:
		b.Write(binary.BigEndian.AppendUint64([]byte{0xcb}, math.Float64bits(x)))
	case []byte:
		msgpackHead(b, len(x), 0, 0, 0xc4, 0xc5, 0xc6, c)
		b.Write(x)
	case string:
		msgpackHead(b, len(x), 0xa0, 31, 0xd9, 0xda, 0xdb, c)
		b.WriteString(x)
	case []string:
		encMsgPack(b, anys(x), c)
	case []any:
		msgpackHead(b, len(x), 0x90, 15, 0, 0xdc, 0xdd, c)
		for i := range x {
			encMsgPack(b, x[i], c)
		}
	case map[string]any:
		msgpackHead(b, len(x), 0x80, 15, 0, 0xde, 0xdf, c)
		for _, k := range sortedKeys(x) {
			encMsgPack(b, k, c)
			encMsgPack(b, x[k], c)
		}
	default:
		panic(fmt.Sprintf("HARNESS-ERROR: cannot encode %T", v))
	}
}

// ---------------------------------------------------------------- decoders

func decodeWire(format string, data []byte) (v any, err error) {
	defer func() {
		if p := recover(); p != nil {
			v, err = nil, fmt.Errorf("%v", p)
		}
	}()
	switch format {
	case fmtJSON:
		d := json.NewDecoder(bytes.NewReader(data))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if d.More() {
			return nil, fmt.Errorf("trailing data")
		}
		return fixJSON(v), nil
	case fmtCBOR, fmtMsgPack:
		d := &wireReader{data: data}
		if format == fmtCBOR {
			v = d.cbor()
		} else {
			v = d.msgpack()
		}
		if len(d.data) != 0 {
			return nil, fmt.Errorf("%d trailing bytes", len(d.data))
		}
		return v, nil
	}
	panic("HARNESS-ERROR: format " + format)
}

func fixJSON(v any) any {
	switch x := v.(type) {
	case json.Number:
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil && i <= maxSafe && i >= -maxSafe {
			return i
		}
		return must(x.Float64())
	case []any:
		for i := range x {
			x[i] = fixJSON(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = fixJSON(x[k])
		}
	}
	return v
}

type wireReader struct{ data []byte }

func (r *wireReader) take(n int) []byte {
	if n < 0 || n > len(r.data) {
		panic("truncated")
	}
	out := r.data[:n]
	r.data = r.data[n:]
	return out
}

func (r *wireReader) uint(n int) uint64 {
	var u uint64
	for _, b := range r.take(n) {
		u = u<<8 | uint64(b)
	}
	return u
}

func (r *wireReader) text(n int) string { return string(r.take(n)) }

func (r *wireReader) bin(n int) []byte { return append([]byte{}, r.take(n)...) }

func (r *wireReader) list(n int, item func() any) []any {
	out := []any{}
	for i := 0; i < n; i++ {
		out = append(out, item())
	}
	return out
}

func (r *wireReader) dict(n int, item func() any) map[string]any {
	out := map[string]any{}
	for i := 0; i < n; i++ {
		k, ok := item().(string)
		if !ok {
			panic("map key is not a string")
		}
		if _, dup := out[k]; dup {
			panic("duplicate map key")
		}
		out[k] = item()
	}
	return out
}

func (r *wireReader) cbor() any {
	head := r.take(1)[0]
	major, info := head>>5, head&31
	var n uint64
	switch {
	case info < 24:
		n = uint64(info)
	case info <= 27:
		n = r.uint(1 << (info - 24))
	default:
		panic("unsupported CBOR length")
	}
	switch major {
	case 0:
		return n
	case 1:
		if n > math.MaxInt64 {
			panic("integer too small")
		}
		return -1 - int64(n)
	case 2:
		return r.bin(int(n))
	case 3:
		return r.text(int(n))
	case 4:
		return r.list(int(n), r.cbor)
	case 5:
		return r.dict(int(n), r.cbor)
	case 7:
		switch info {
		case 20, 21:
			return info == 21
		case 22:
			return nil
		case 25:
			return halfToFloat(uint16(n))
		case 26:
			return float64(math.Float32frombits(uint32(n)))
		case 27:
			return math.Float64frombits(n)
		}
	}
	panic("unsupported CBOR item")
}

func halfToFloat(h uint16) float64 {
	exp, mant := int(h>>10)&31, float64(h&1023)
	var f float64
	switch exp {
	case 0:
		f = math.Ldexp(mant, -24)
	case 31:
		f = math.Inf(1)
		if mant != 0 {
			f = math.NaN()
		}
	default:
		f = math.Ldexp(mant+1024, exp-25)
	}
	if h&0x8000 != 0 {
		f = -f
	}
	return f
}

func (r *wireReader) msgpack() any {
	c := r.take(1)[0]
	switch {
	case c < 0x80:
		return uint64(c)
	case c < 0x90:
		return r.dict(int(c&15), r.msgpack)
	case c < 0xa0:
		return r.list(int(c&15), r.msgpack)
	case c < 0xc0:
		return r.text(int(c & 31))
	case c >= 0xe0:
		return int64(int8(c))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2, 0xc3:
		return c == 0xc3
	case 0xc4, 0xc5, 0xc6:
		return r.bin(int(r.uint(1 << (c - 0xc4))))
	case 0xca:
		return float64(math.Float32frombits(uint32(r.uint(4))))
	case 0xcb:
		return math.Float64frombits(r.uint(8))
	case 0xcc, 0xcd, 0xce, 0xcf:
		return r.uint(1 << (c - 0xcc))
	case 0xd0:
		return int64(int8(r.uint(1)))
	case 0xd1:
		return int64(int16(r.uint(2)))
	case 0xd2:
		return int64(int32(r.uint(4)))
	case 0xd3:
		return int64(r.uint(8))
	case 0xd9, 0xda, 0xdb:
		return r.text(int(r.uint(1 << (c - 0xd9))))
	case 0xdc, 0xdd:
		return r.list(int(r.uint(2<<(c-0xdc))), r.msgpack)
	case 0xde, 0xdf:
		return r.dict(int(r.uint(2<<(c-0xde))), r.msgpack)
	}
	panic("unsupported MessagePack item")
}
