package harness

import (
	"encoding/hex"
	"math"
	"testing"

	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

const (
	idNone = iota
	idJSON
	idMsgPack
	idCBOR
)

// formatOfID is what an argument must be expressible in.
var formatOfID = map[uint64]string{idJSON: fmtJSON, idMsgPack: fmtMsgPack, idCBOR: fmtCBOR}

type payloadCase struct {
	ID     uint64 `json:"id"`
	Args   V      `json:"args"`
	Kwargs V      `json:"kwargs"`
	Direct bool   `json:"direct,omitempty"` // EncodeCBOR and DecodeCBOR
	Tape   []byte `json:"tape,omitempty"`
}

func genPayloadCase(t *rapid.T) payloadCase {
	c := payloadCase{ID: uint64(between(t, "id", 0, 3)), Args: vNil(), Kwargs: vNil(),
		Tape: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tape")}
	if c.ID == idNone {
		switch between(t, "none", 0, 5) {
		case 0:
			return c
		case 1:
			c.Args = V{K: "list"}
		default:
			c.Args = vList(vBytes(genBytes(t)))
		}
		return c
	}
	c.Direct = c.ID == idCBOR && chance(t, "direct", 50)
	c.Args, c.Kwargs = genArgs(t, formatOfID[c.ID]), genKwargs(t, formatOfID[c.ID])
	return c
}

// C05: payloads survive encoding and decoding.
func TestC05_RoundTrip(t *testing.T) {
	Check(t, Opt{Checks: 8000, Rule: "(args, kwargs) pairs, each absent, empty or nested, for the 4 payload " +
		"serializer ids and for EncodeCBOR/DecodeCBOR, encoded and decoded, and decoded from an independent encoding; " +
		"non-trivial: carries at least one value"},
		genPayloadCase, runC05)
}

func TestC05_Large(t *testing.T) {
	Check(t, Opt{Checks: 9, Rule: "payloads with lists and maps of 15 to 200000 entries, and values nested 20 to 9900 levels deep, encoded and decoded, and " +
		"decoded from an independent encoding; non-trivial: always"},
		func(t *rapid.T) payloadCase {
			c := payloadCase{ID: uint64(between(t, "id", 1, 3)), Tape: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tape")}
			c.Direct = c.ID == idCBOR && chance(t, "direct", 50)
			c.Args, c.Kwargs = genLarge(t, formatOfID[c.ID])
			return c
		}, runC05)
}

func runC05(c *payloadCase, r *Rec) error {
	args, kwargs := c.Args.List(), c.Kwargs.Map()
	r.Label("id %d args %d kwargs %d", c.ID, min(len(args), 1), min(len(kwargs), 1))
	if len(args)+len(kwargs) > 0 {
		r.NonTrivial()
	}
	same := func(what string, a []any, k map[string]any) error {
		if c.ID == idNone && len(args) == 0 {
			// this encoding does not tell no argument from an empty one
			if len(a) > 1 || len(a) == 1 && canon(a[0]) != "h''" || len(k) != 0 {
				return errorf("%s: serializer 0: no arguments become %s %s", what, canonList(a), canonMap(k))
			}
			return nil
		}
		if canonList(a) != canonList(args) || canonMap(k) != canonMap(kwargs) {
			return errorf("%s: serializer %d: %s %s become %s %s", what, c.ID, canonList(args), canonMap(kwargs),
				canonList(a), canonMap(k))
		}
		return nil
	}
	enc := func(a []any, k map[string]any) ([]byte, error) {
		if c.Direct {
			return serializers.EncodeCBOR(a, k)
		}
		return serializers.SerializePayload(c.ID, a, k)
	}
	dec := func(b []byte) ([]any, map[string]any, error) {
		if c.Direct {
			return serializers.DecodeCBOR(b)
		}
		return serializers.DeserializePayload(c.ID, b)
	}
	data, err := enc(args, kwargs)
	if err != nil {
		return errorf("encode: serializer %d fails: %v", c.ID, err)
	}
	if canonList(args) != canonList(c.Args.List()) || canonMap(kwargs) != canonMap(c.Kwargs.Map()) {
		return errorf("encode alters its arguments: serializer %d", c.ID)
	}
	a, k, err := dec(append([]byte(nil), data...))
	if err != nil {
		return errorf("decode: serializer %d fails: %v: %x", c.ID, err, clip(data))
	}
	if err := same("round trip", a, k); err != nil {
		return err
	}
	data, err = enc(a, k)
	if err != nil {
		return errorf("encode again: serializer %d fails: %v", c.ID, err)
	}
	if a, k, err = dec(data); err != nil {
		return errorf("decode again: serializer %d fails: %v: %x", c.ID, err, clip(data))
	}
	if err := same("second round trip", a, k); err != nil {
		return err
	}
	if c.ID == idNone {
		return nil
	}
	if args == nil {
		args = []any{}
	}
	if kwargs == nil {
		kwargs = map[string]any{}
	}
	f := formatOfID[c.ID]
	data = encodeWire(f, []any{args, kwargs}, tape(c.Tape))
	if a, k, err = dec(data); err != nil {
		return errorf("decode of [args, kwargs]: serializer %d fails: %v: %x", c.ID, err, clip(data))
	}
	if err := same("[args, kwargs]", a, k); err != nil {
		return err
	}
	if len(kwargs) == 0 && !c.Direct {
		data = encodeWire(f, []any{args}, tape(c.Tape))
		if a, k, err = dec(data); err != nil {
			return errorf("decode of [args]: serializer %d fails: %v: %x", c.ID, err, clip(data))
		}
		return same("[args]", a, k)
	}
	return nil
}

type shapeCase struct {
	ID     uint64 `json:"id"`
	Value  V      `json:"value"`
	Behind string `json:"behind,omitempty"` // hex of what follows the value
	Tape   []byte `json:"tape,omitempty"`
}

// genWrongShape draws a payload that is no pair of args and kwargs.
func genWrongShape(t *rapid.T) shapeCase {
	c := shapeCase{ID: uint64(between(t, "id", 1, 3)), Tape: rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "tape")}
	f := formatOfID[c.ID]
	no := func(not string) V {
		for i := 0; ; i++ {
			v := genV(t, f, 1)
			if v.K != not && v.K != "nil" {
				return v
			}
			if i > 8 {
				return vBool(true)
			}
		}
	}
	switch between(t, "shape", 0, 5) {
	case 0:
		c.Value = no("list")
	case 1:
		c.Value = vList(no("list"))
	case 2:
		c.Value = vList(no("list"), genMap(t, f, 1))
	case 3:
		c.Value = vList(genList(t, f, 1), no("map"))
	case 4:
		c.Value = vList(genList(t, f, 1), genMap(t, f, 1))
		c.Behind = genBehind(t, f, c.Value)
	default:
		c.Value = vList(genList(t, f, 1), genMap(t, f, 1))
		for i := between(t, "more", 1, 3); i > 0; i-- {
			c.Value.L = append(c.Value.L, genV(t, f, 1))
		}
	}
	return c
}

// C05: payloads of another shape are refused.
func TestC05_WrongShape(t *testing.T) {
	Check(t, Opt{Checks: 5000, Rule: "well-formed JSON, MessagePack and CBOR values that are not [args] or [args, " +
		"kwargs]: other types, other element types, more elements, further bytes behind them; all must give an error; every case is non-trivial"},
		genWrongShape, func(c *shapeCase, r *Rec) error {
			data := append(encodeWire(formatOfID[c.ID], c.Value.Go(), tape(c.Tape)), must(hex.DecodeString(c.Behind))...)
			r.NonTrivial()
			r.Label("id %d", c.ID)
			a, k, err := serializers.DeserializePayload(c.ID, data)
			if err == nil {
				return errorf("wrong shape accepted: serializer %d: %x gives %s %s", c.ID, clip(data), canonList(a), canonMap(k))
			}
			if c.ID == idCBOR && !(len(c.Value.L) > 2) {
				if a, k, err := serializers.DecodeCBOR(data); err == nil {
					return errorf("wrong shape accepted: DecodeCBOR: %x gives %s %s", clip(data), canonList(a), canonMap(k))
				}
			}
			return nil
		})
}

type refuseCase struct {
	ID     uint64 `json:"id"`
	Kind   string `json:"kind"`
	Args   V      `json:"args"`
	Kwargs V      `json:"kwargs"`
	Where  int    `json:"where"`
	Raw    string `json:"raw"`
}

var unencodable = map[string]func() any{
	"chan":    func() any { return make(chan int) },
	"func":    func() any { return func() {} },
	"nan":     func() any { return math.NaN() },
	"inf":     func() any { return math.Inf(1) },
	"complex": func() any { return complex(1, 2) },
}

// C05: unknown serializers and arguments that cannot be carried are refused.
func TestC05_Refused(t *testing.T) {
	Check(t, Opt{Checks: 5000, Rule: "unknown serializer ids in both directions, serializer 0 with anything but one " +
		"byte string, arguments (nested ones too) that the format has no encoding for, and arbitrary bytes; " +
		"non-trivial: one that has to be refused"},
		func(t *rapid.T) refuseCase {
			c := refuseCase{Kind: pick(t, "kind", "id", "none", "value", "bytes"), Args: vNil(), Kwargs: vNil()}
			switch c.Kind {
			case "id":
				c.ID = pick[uint64](t, "id", 4, 5, 6, 15, 255, 256, 257, 259, 1<<32, 1<<32+1, 1<<53, math.MaxUint64)
				if chance(t, "any", 50) {
					c.ID = uint64(between(t, "id", 4, 1<<20))
				}
				c.Args, c.Kwargs = genArgs(t, fmtJSON), genKwargs(t, fmtJSON)
				c.Raw = hex.EncodeToString(genBytes(t))
			case "none":
				c.Args, c.Kwargs = genArgs(t, fmtCBOR), genKwargs(t, fmtCBOR)
			case "value":
				c.ID = uint64(between(t, "id", 1, 3))
				c.Kind = pick(t, "bad", "chan", "func", "complex")
				if c.ID == idJSON {
					c.Kind = pick(t, "bad", "chan", "func", "nan", "inf", "complex")
				}
				c.Args, c.Kwargs = genArgs(t, fmtJSON), genKwargs(t, fmtJSON)
				c.Where = between(t, "where", 0, 3)
			default:
				c.ID = uint64(between(t, "id", 0, 5))
				c.Raw = hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "raw"))
			}
			return c
		},
		func(c *refuseCase, r *Rec) error {
			r.Label("%s", c.Kind)
			args, kwargs := c.Args.List(), c.Kwargs.Map()
			switch c.Kind {
			case "id":
				r.NonTrivial()
				if b, err := serializers.SerializePayload(c.ID, args, kwargs); err == nil {
					return errorf("unknown serializer accepted: %d encodes to %x", c.ID, clip(b))
				}
				if _, _, err := serializers.DeserializePayload(c.ID, must(hex.DecodeString(c.Raw))); err == nil {
					return errorf("unknown serializer accepted: %d decodes", c.ID)
				}
				return nil
			case "none":
				if len(args)+len(kwargs) == 0 {
					return nil
				}
				if len(args) == 1 && len(kwargs) == 0 && c.Args.L[0].K == "bytes" {
					return nil
				}
				r.NonTrivial()
				if b, err := serializers.SerializePayload(idNone, args, kwargs); err == nil {
					return errorf("serializer 0 accepts what it cannot carry: %s %s encode to %x", canonList(args),
						canonMap(kwargs), clip(b))
				}
				return nil
			case "bytes":
				raw := must(hex.DecodeString(c.Raw))
				_, _, _ = serializers.DeserializePayload(c.ID, append([]byte{}, raw...))
				if c.ID == idCBOR {
					_, _, _ = serializers.DecodeCBOR(raw)
				}
				return nil
			}
			r.NonTrivial()
			bad := unencodable[c.Kind]()
			if kwargs == nil {
				kwargs = map[string]any{}
			}
			switch c.Where {
			case 0:
				args = append(args, bad)
			case 1:
				args = append(args, []any{bad})
			case 2:
				kwargs["bad"] = bad
			default:
				kwargs["bad"] = map[string]any{"x": []any{bad}}
			}
			if b, err := serializers.SerializePayload(c.ID, args, kwargs); err == nil {
				return errorf("serializer %d encodes a %s: to %x", c.ID, c.Kind, clip(b))
			}
			return nil
		})
}
