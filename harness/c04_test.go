package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"testing"

	"github.com/xconnio/wampproto-go/util"
	"pgregory.net/rapid"
)

type numCase struct {
	V V `json:"v"`
}

// genAnyNumber also draws infinities, NaN and numbers next to the limits.
func genAnyNumber(t *rapid.T) V {
	switch intn(t, "kind", 4) {
	case 0:
		f := pick(t, "f", math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1<<63, 1<<64, -(1 << 63),
			math.Nextafter(1<<63, 0), math.Nextafter(1<<64, 0), math.Nextafter(-(1<<63), math.Inf(-1)), 0.999999, -0.5,
			-1, 1<<53+2, 1e19, 1.8446744073709552e19, math.MaxFloat64, math.SmallestNonzeroFloat64, 127.5, -128.5)
		return vFloat(f)
	case 1:
		f := pick(t, "f", float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 1<<63, 1<<64, -(1 << 63),
			math.Nextafter32(1<<63, 0), math.Nextafter32(1<<64, 0), 0.99, -0.5, -1, 16777217, math.MaxFloat32, 255.5)
		return V{K: "float32", N: strconv.FormatFloat(float64(f), 'g', -1, 32)}
	}
	return genNumber(t, fmtCBOR)
}

// exact is the mathematical value of a Go number; nil for NaN and infinities.
func exact(v any) *big.Float {
	x := new(big.Float).SetPrec(2200)
	switch n := v.(type) {
	case float32:
		if math.IsNaN(float64(n)) || math.IsInf(float64(n), 0) {
			return nil
		}
		return x.SetFloat64(float64(n))
	case float64:
		if math.IsNaN(n) || math.IsInf(n, 0) {
			return nil
		}
		return x.SetFloat64(n)
	}
	i, ok := new(big.Int).SetString(fmt.Sprintf("%d", v), 10)
	if !ok {
		panic("HARNESS-ERROR: not a number")
	}
	return x.SetInt(i)
}

func TestC04_Convert(t *testing.T) {
	Check(t, Opt{Checks: 40000, Rule: "Go numbers of all 12 integer and float types at and around the limits of every " +
		"width, plus NaN, infinities and fractions, converted to int, uint64 and float64 and compared with exact " +
		"big-number arithmetic; non-trivial: not between 0 and 127"},
		func(t *rapid.T) numCase { return numCase{genAnyNumber(t)} },
		func(c *numCase, r *Rec) error {
			v := c.V.Go()
			x := exact(v)
			r.Label("%s", c.V.K)
			if x == nil || x.Sign() < 0 || x.Cmp(big.NewFloat(127)) > 0 {
				r.NonTrivial()
			}
			var want *big.Int // truncated towards zero
			if x != nil {
				want, _ = x.Int(nil)
			}
			is := func(i *big.Int) bool { return want != nil && want.Cmp(i) == 0 }
			negative := x != nil && x.Sign() < 0 && want.Sign() != 0

			if got, ok := util.AsInt(v); ok && !is(big.NewInt(int64(got))) {
				return errorf("AsInt alters the number: %s(%v) is %d", c.V.K, v, got)
			} else if !ok && want != nil && want.IsInt64() {
				return errorf("AsInt refuses a number in range: %s(%v)", c.V.K, v)
			}
			if got, ok := util.AsUInt64(v); ok && (negative || !is(new(big.Int).SetUint64(got))) {
				return errorf("AsUInt64 alters the number: %s(%v) is %d", c.V.K, v, got)
			} else if !ok && want != nil && x.Sign() >= 0 && want.IsUint64() {
				return errorf("AsUInt64 refuses a number in range: %s(%v)", c.V.K, v)
			}
			got, ok := util.AsFloat64(v)
			if !ok {
				return errorf("AsFloat64 refuses a number: %s(%v)", c.V.K, v)
			}
			var near float64
			if x != nil {
				near, _ = x.Float64()
			} else {
				near = float64Of(v)
			}
			if got != near && !(math.IsNaN(got) && math.IsNaN(near)) {
				return errorf("AsFloat64 alters the number: %s(%v) is %v", c.V.K, v, got)
			}
			return nil
		})
}

func float64Of(v any) float64 {
	if f, ok := v.(float32); ok {
		return float64(f)
	}
	return v.(float64)
}

type idCase struct {
	Format string `json:"format"`
	Msg    Msg    `json:"msg"`
	Index  int    `json:"index"` // of the field whose number is encoded specially
	Form   int    `json:"form"`
	Neg    bool   `json:"neg,omitempty"`
}

// idForms lists the encodings of a non-negative integer in a format; float
// forms come after the first n, which are integer (or JSON number) forms.
func idForms(format string, u uint64) (forms []rawNumber, n int) {
	switch format {
	case fmtJSON:
		d := strconv.FormatUint(u, 10)
		for _, s := range []string{d, d + ".0", d + "e0", d + "E+00", d + ".000e0"} {
			forms = append(forms, rawNumber{json: []byte(s)})
		}
		if u%10 == 0 && u > 0 {
			forms = append(forms, rawNumber{json: []byte(strconv.FormatUint(u/10, 10) + "e1")})
		}
		if u > 0 {
			forms = append(forms, rawNumber{json: []byte(d[:1] + "." + d[1:] + "0e" + strconv.Itoa(len(d)-1))})
		}
		return forms, len(forms)
	case fmtCBOR:
		add := func(limit uint64, b []byte) {
			if u <= limit {
				forms = append(forms, rawNumber{cbor: b})
			}
		}
		add(23, []byte{byte(u)})
		add(math.MaxUint8, []byte{24, byte(u)})
		add(math.MaxUint16, binary.BigEndian.AppendUint16([]byte{25}, uint16(u)))
		add(math.MaxUint32, binary.BigEndian.AppendUint32([]byte{26}, uint32(u)))
		add(math.MaxUint64, binary.BigEndian.AppendUint64([]byte{27}, u))
		n = len(forms)
		if uint64(float32(u)) == u {
			add(math.MaxUint64, binary.BigEndian.AppendUint32([]byte{0xfa}, math.Float32bits(float32(u))))
		}
		add(math.MaxUint64, binary.BigEndian.AppendUint64([]byte{0xfb}, math.Float64bits(float64(u))))
		if u <= 2048 && u > 0 { // half precision, exact up to 2^11
			e := 63 - leadingZeros(u)
			add(2048, binary.BigEndian.AppendUint16([]byte{0xf9}, uint16(e+15)<<10|uint16((u<<(52-e))>>42)&1023))
		}
		return forms, n
	}
	for _, b := range msgpackInts(u, false) {
		forms = append(forms, rawNumber{msgpack: b})
	}
	n = len(forms)
	if uint64(float32(u)) == u {
		forms = append(forms, rawNumber{msgpack: binary.BigEndian.AppendUint32([]byte{0xca}, math.Float32bits(float32(u)))})
	}
	return append(forms, rawNumber{msgpack: binary.BigEndian.AppendUint64([]byte{0xcb}, math.Float64bits(float64(u)))}), n
}

func leadingZeros(u uint64) int {
	n := 0
	for ; u>>63 == 0; u <<= 1 {
		n++
	}
	return n
}

func negForms(format string, u uint64) []rawNumber { // of -1-u
	switch format {
	case fmtJSON:
		return []rawNumber{{json: []byte("-" + addOne(u))}, {json: []byte("-" + addOne(u) + ".0")}}
	case fmtCBOR:
		var out []rawNumber
		for i, limit := range []uint64{23, math.MaxUint8, math.MaxUint16, math.MaxUint32, math.MaxUint64} {
			if u > limit {
				continue
			}
			b := binary.BigEndian.AppendUint64(nil, u)
			if i == 0 {
				out = append(out, rawNumber{cbor: []byte{0x20 | byte(u)}})
			} else {
				out = append(out, rawNumber{cbor: append([]byte{0x20 | byte(23+i)}, b[8-1<<(i-1):]...)})
			}
		}
		return append(out, rawNumber{cbor: binary.BigEndian.AppendUint64([]byte{0xfb}, math.Float64bits(-1-float64(u)))})
	}
	var out []rawNumber
	for _, b := range msgpackInts(u, true) {
		out = append(out, rawNumber{msgpack: b})
	}
	return append(out, rawNumber{msgpack: binary.BigEndian.AppendUint64([]byte{0xcb}, math.Float64bits(-1-float64(u)))})
}

func idFields(s spec) []int {
	var out []int
	for i, k := range s.fields {
		if k == fID {
			out = append(out, i)
		}
	}
	return out
}

func TestC04_WireIDs(t *testing.T) {
	var withIDs []spec
	for _, s := range specs {
		if len(idFields(s)) > 0 {
			withIDs = append(withIDs, s)
		}
	}
	Check(t, Opt{Checks: 15000, Rule: "messages of the 20 types with ids, one id written in each legal integer width of " +
		"CBOR and MessagePack (signed forms included), as a float of each precision, or as a JSON number in several " +
		"notations, also negative; read with exactly that id or (floats, negatives) refused; non-trivial: not the " +
		"canonical form"},
		func(t *rapid.T) idCase {
			c := idCase{Format: pick(t, "format", formats...)}
			s := withIDs[intn(t, "type", len(withIDs))]
			c.Msg = Msg{T: s.name}
			for _, k := range s.fields {
				switch k {
				case fID:
					c.Msg.F = append(c.Msg.F, vUint(genID(t)))
				case fStr:
					c.Msg.F = append(c.Msg.F, vStr("x"))
				default:
					c.Msg.F = append(c.Msg.F, vNil())
				}
			}
			ids := idFields(s)
			c.Index = ids[intn(t, "index", len(ids))]
			c.Form = intn(t, "form", 12)
			c.Neg = chance(t, "neg", 20)
			return c
		}, func(c *idCase, r *Rec) error {
			s := specOf(c.Msg.T)
			arr, need := c.Msg.wire()
			arr = arr[:need]
			id := c.Msg.F[c.Index].Uint()
			ser := serializer(c.Format)
			if c.Neg {
				forms := negForms(c.Format, id)
				arr[c.Index+1] = forms[c.Form%len(forms)]
				data := encodeWire(c.Format, arr, nil)
				r.NonTrivial()
				r.Label("%s negative form %d", c.Format, c.Form%len(forms))
				if got, err := ser.Deserialize(data); err == nil {
					f, _ := s.get(got)
					return errorf("negative id accepted (%s): %s field %d is %v: %x", c.Format, c.Msg.T, c.Index, f[c.Index], data)
				}
				return nil
			}
			forms, ints := idForms(c.Format, id)
			k := c.Form % len(forms)
			if k > 0 {
				r.NonTrivial()
			}
			r.Label("%s form %d", c.Format, k)
			arr[c.Index+1] = forms[k]
			data := encodeWire(c.Format, arr, nil)
			got, err := ser.Deserialize(data)
			if err != nil {
				if k >= ints {
					return nil
				}
				return errorf("id refused (%s form %d): %v: %x", c.Format, k, err, data)
			}
			if err := c.Msg.sameFields(got); err != nil {
				return errorf("id read wrongly (%s form %d): %v: %x", c.Format, k, err, data)
			}
			return nil
		})
}
