package harness

import (
	"encoding/hex"
	"math"
	"testing"

	"github.com/xconnio/wampproto-go/transports"
	"pgregory.net/rapid"
)

type span struct {
	From int64 `json:"from"`
	To   int64 `json:"to"`
}

func spans(from, to, step int64) []span {
	var out []span
	for ; from < to; from += step {
		out = append(out, span{from, min(from+step, to)})
	}
	return out
}

func log2of(n int64) (int, bool) {
	for i := 9; i <= 24; i++ {
		if n == 1<<i {
			return i, true
		}
	}
	return 0, false
}

func checkHandshakeSize(serializer int, size int64) error {
	hs := transports.NewHandshake(transports.Serializer(serializer), int(size))
	data, err := transports.SendHandshake(hs)
	log, valid := log2of(size)
	if !valid {
		if err == nil {
			return errorf("handshake size accepted: %d as %x", size, data)
		}
		return nil
	}
	if err != nil {
		return errorf("handshake refused: size %d: %v", size, err)
	}
	want := []byte{0x7f, byte(log-9)<<4 | byte(serializer), 0, 0}
	if hex.EncodeToString(data) != hex.EncodeToString(want) {
		return errorf("handshake octets: size %d serializer %d are %x instead of %x", size, serializer, data, want)
	}
	got, err := transports.ReceiveHandshake(data)
	if err != nil {
		return errorf("handshake not read back: size %d serializer %d: %v", size, serializer, err)
	}
	if int64(got.MaxMessageSize()) != size || int(got.Serializer()) != serializer {
		return errorf("handshake read back differently: size %d serializer %d as %d, %d", size, serializer,
			got.MaxMessageSize(), got.Serializer())
	}
	return nil
}

// C06: every size from below 0 to beyond the limit.
func TestC06_Sizes(t *testing.T) {
	Each(t, Opt{Rule: "every size -2048..2^25 with each serializer (a span of 2^16 sizes is one case); non-trivial: a " +
		"span with a size that is allowed, or below 2^24"},
		spans(-2048, 1<<25+2, 1<<16), func(c *span, r *Rec) error {
			for size := c.From; size < c.To; size++ {
				for s := 1; s <= 3; s++ {
					if err := checkHandshakeSize(s, size); err != nil {
						return err
					}
				}
			}
			r.Evals(int(3 * (c.To - c.From)))
			r.NonTrivial()
			return nil
		})
}

type sizeCase struct {
	Serializer int   `json:"serializer"`
	Size       int64 `json:"size"`
}

// C06: sizes anywhere in the range of an int.
func TestC06_AnySize(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "sizes anywhere in the int range, close to powers of two and their negatives; " +
		"non-trivial: at most 2 away from a power of two"},
		func(t *rapid.T) sizeCase {
			c := sizeCase{Serializer: between(t, "serializer", 1, 3)}
			if chance(t, "any", 30) {
				c.Size = rapid.Int64().Draw(t, "size")
				return c
			}
			c.Size = int64(1)<<between(t, "log", 0, 62) + int64(between(t, "off", -2, 2))
			if chance(t, "neg", 30) {
				c.Size = -c.Size
			}
			if chance(t, "min", 3) {
				c.Size = math.MinInt64
			}
			return c
		},
		func(c *sizeCase, r *Rec) error {
			for i := 0; i < 63; i++ {
				if d := c.Size - 1<<i; d >= -2 && d <= 2 {
					r.NonTrivial()
				}
			}
			return checkHandshakeSize(c.Serializer, c.Size)
		})
}

func checkHeader(kind byte, n int) error {
	data := transports.SendMessageHeader(transports.NewMessageHeader(transports.Message(kind), n))
	if len(data) != 4 || data[0] != kind || data[1] != byte(n>>16) || data[2] != byte(n>>8) || data[3] != byte(n) {
		return errorf("header octets: kind %d length %d are %x", kind, n, data)
	}
	got, err := transports.ReceiveMessageHeader(data)
	if err != nil {
		return errorf("header not read back: kind %d length %d: %v", kind, n, err)
	}
	if byte(got.Kind()) != kind || got.Length() != n {
		return errorf("header read back differently: kind %d length %d as %d, %d", kind, n, got.Kind(), got.Length())
	}
	return nil
}

// C06: every frame header.
func TestC06_Headers(t *testing.T) {
	Each(t, Opt{Rule: "every length 0..2^24-1 with each of the kinds message, ping and pong (a span of 2^16 lengths is " +
		"one case); every case is non-trivial"},
		spans(0, 1<<24, 1<<16), func(c *span, r *Rec) error {
			for n := c.From; n < c.To; n++ {
				for kind := byte(0); kind < 3; kind++ {
					if err := checkHeader(kind, int(n)); err != nil {
						return err
					}
				}
			}
			r.Evals(int(3 * (c.To - c.From)))
			r.NonTrivial()
			return nil
		})
}

// C06: every second octet of a handshake, with right and wrong other octets.
func TestC06_HandshakeOctets(t *testing.T) {
	var cases []octets
	for b0 := 0; b0 < 256; b0++ {
		for b1 := 0; b1 < 256; b1++ {
			cases = append(cases, octets{hex.EncodeToString([]byte{byte(b0), byte(b1), 0, 0})})
		}
	}
	for b1 := 0; b1 < 256; b1++ {
		for x := 1; x < 256; x++ {
			cases = append(cases, octets{hex.EncodeToString([]byte{0x7f, byte(b1), byte(x), 0})},
				octets{hex.EncodeToString([]byte{0x7f, byte(b1), 0, byte(x)})})
		}
	}
	Each(t, Opt{Rule: "all second octets with all first octets, and with all third and fourth ones, received as " +
		"handshake; non-trivial: the first octet is the magic one"}, cases, runOctets)
}

type octets struct {
	Hex string `json:"hex"`
}

func runOctets(c *octets, r *Rec) error {
	data := must(hex.DecodeString(c.Hex))
	got, err := transports.ReceiveHandshake(append([]byte(nil), data...))
	wellFormed := len(data) == 4 && data[0] == 0x7f && data[2] == 0 && data[3] == 0
	if len(data) > 0 && data[0] == 0x7f {
		r.NonTrivial()
	}
	switch {
	case !wellFormed:
		r.Label("malformed handshake")
		if err == nil {
			return errorf("malformed handshake accepted: %x", data)
		}
	case err != nil:
		if s := data[1] & 15; s >= 1 && s <= 3 {
			return errorf("handshake refused: %x: %v", data, err)
		}
		r.Label("reserved serializer refused")
	default:
		r.Label("handshake accepted")
		if got.MaxMessageSize() != 1<<(9+data[1]>>4) || byte(got.Serializer()) != data[1]&15 {
			return errorf("handshake read wrong: %x as size %d serializer %d", data, got.MaxMessageSize(), got.Serializer())
		}
	}
	h, err := transports.ReceiveMessageHeader(append([]byte(nil), data...))
	switch {
	case len(data) != 4:
		if err == nil {
			return errorf("malformed header accepted: %x", data)
		}
	case err != nil:
		if data[0] <= 2 {
			return errorf("header refused: %x: %v", data, err)
		}
	default:
		if byte(h.Kind()) != data[0] || h.Length() != int(data[1])<<16|int(data[2])<<8|int(data[3]) {
			return errorf("header read wrong: %x as kind %d length %d", data, h.Kind(), h.Length())
		}
	}
	return nil
}

// C06: any bytes.
func TestC06_Bytes(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "byte strings of 0 to 12 bytes, many starting with the magic octet, received as " +
		"handshake and as frame header; non-trivial: they start with it"},
		func(t *rapid.T) octets {
			data := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "data")
			if chance(t, "four", 40) {
				data = rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "data")
			}
			if len(data) > 0 && chance(t, "magic", 60) {
				data[0] = 0x7f
				for i := 2; i < len(data); i++ {
					if chance(t, "zero", 70) {
						data[i] = 0
					}
				}
			}
			return octets{hex.EncodeToString(data)}
		}, runOctets)
}
