package harness

import (
	"testing"

	"pgregory.net/rapid"
)

// C02, writing: an independent decoder reads the WAMP array.
func TestC02_Write(t *testing.T) {
	Check(t, Opt{Checks: 8000, Rule: "messages as for C01, the serialized bytes read by an independent decoder and " +
		"compared with the WAMP array (type code, field order, nil maps as {}, args/kwargs only when set); " +
		"non-trivial: a non-empty map, args or kwargs, or an id-only type"},
		genMsgCase, func(c *msgCase, r *Rec) error {
			ids := true
			for _, v := range c.Msg.F {
				if len(v.L) > 0 {
					r.NonTrivial()
				}
				ids = ids && v.K == "uint64"
			}
			if ids {
				r.NonTrivial()
			}
			r.Label("%s %s", c.Msg.T, c.Format)
			data, err := serializer(c.Format).Serialize(c.Msg.build())
			if err != nil {
				return errorf("serialize %s fails: %v", c.Format, err)
			}
			v, err := decodeWire(c.Format, data)
			if err != nil {
				return errorf("independent %s decoder fails: %v: %x", c.Format, err, clip(data))
			}
			return checkLayout(c.Msg, v)
		})
}

func checkLayout(m Msg, v any) error {
	arr, ok := v.([]any)
	if !ok {
		return errorf("not an array: %v", canon(v))
	}
	want, need := m.wire()
	s := specOf(m.T)
	if len(arr) < need || len(arr) > len(want) {
		return errorf("%s array length: is %d, must be %d to %d", m.T, len(arr), need, len(want))
	}
	// args that are not set appear at most as [] in front of kwargs
	kinds := s.valueKinds()
	if n := len(m.F); m.T != "HELLO" && n >= 2 && kinds[n-1] == fKw {
		args, kw := m.F[n-2], m.F[n-1]
		if kw.K == "nil" && len(arr) == n+1 {
			return errorf("%s has kwargs that are not set: %s", m.T, canon(arr))
		}
		if kw.K == "nil" && args.K == "nil" && len(arr) == n {
			return errorf("%s has args that are not set: %s", m.T, canon(arr))
		}
	}
	for i := range arr {
		if a, b := canon(arr[i]), canon(want[i]); a != b {
			if m.T == "HELLO" && i == 2 {
				if err := checkHelloDetails(arr[i], want[i].(map[string]any)); err != nil {
					return err
				}
				continue
			}
			return errorf("%s element %d differs: is %s instead of %s", m.T, i, a, b)
		}
	}
	return nil
}

// HELLO details of a message without roles or methods may leave them out.
func checkHelloDetails(got any, want map[string]any) error {
	d, ok := got.(map[string]any)
	if !ok {
		return errorf("HELLO details: are %s", canon(got))
	}
	for k, w := range want {
		g, there := d[k]
		if !there || g == nil {
			if c := canon(w); c == "{}" || c == "[]" || c == `""` {
				continue
			}
		}
		if canon(g) != canon(w) {
			return errorf("HELLO %s differs: is %s instead of %s", k, canon(g), canon(w))
		}
	}
	for k := range d {
		if _, ok := want[k]; !ok {
			return errorf("HELLO details: unexpected %q", k)
		}
	}
	return nil
}

// C02, reading: any legal encoding of the array is read.
func TestC02_Read(t *testing.T) {
	Check(t, Opt{Checks: 10000, Rule: "WAMP arrays of all 24 types written by an independent encoder that picks among " +
		"the legal encodings of each item (integer and length widths, indefinite CBOR lengths, JSON escapes and " +
		"white space), trailing optional items left out when empty; non-trivial: a non-canonical encoding was " +
		"picked or an optional item left out"},
		func(t *rapid.T) msgCase {
			c := genMsgCase(t)
			if chance(t, "varied", 80) {
				c.Tape = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "tape")
			}
			arr, need := c.Msg.wire()
			c.Len = between(t, "len", need, len(arr))
			return c
		}, func(c *msgCase, r *Rec) error {
			arr, _ := c.Msg.wire()
			if c.Len < len(arr) || len(c.Tape) > 0 {
				r.NonTrivial()
			}
			r.Label("%s %s length %d", c.Msg.T, c.Format, c.Len)
			data := encodeWire(c.Format, arr[:c.Len], tape(c.Tape))
			if v, err := decodeWire(c.Format, data); err == nil && canon(v) != canon(arr[:c.Len]) {
				panic("HARNESS-ERROR: encoder and decoder disagree")
			}
			got, err := serializer(c.Format).Deserialize(data)
			if err != nil {
				return errorf("legal %s array refused: %v: %x", c.Format, err, clip(data))
			}
			if err := c.Msg.sameFields(got); err != nil {
				return errorf("reading %s: %v: %x", c.Format, err, clip(data))
			}
			return nil
		})
}
