package harness

import (
	"bytes"
	"slices"
	"testing"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

type msgCase struct {
	Format string `json:"format"`
	Msg    Msg    `json:"msg"`
	Tape   []byte `json:"tape,omitempty"`
	Len    int    `json:"len,omitempty"`
}

func genMsgCase(t *rapid.T) msgCase {
	f := pick(t, "format", formats...)
	return msgCase{Format: f, Msg: genMsg(t, f)}
}

// C01: a message survives serialize and deserialize.
func TestC01_RoundTrip(t *testing.T) {
	Check(t, Opt{Checks: 9000, Rule: "messages of all 24 types with generated fields (ids at integer-width " +
		"boundaries, nil/empty/nested maps, absent/empty/set args and kwargs, all Go number types, strings and " +
		"lists across length-prefix classes), serialized and deserialized with each of 3 serializers; non-trivial: " +
		"has at least one non-empty map, args or kwargs, or is one of the id-only types"},
		genMsgCase, runC01)
}

func runC01(c *msgCase, r *Rec) error {
	s := serializer(c.Format)
	r.Label("%s %s", c.Msg.T, c.Format)
	if o := c.Msg.optional(); o != "" {
		r.Label("args/kwargs %s", o)
	}
	ids := true
	for _, v := range c.Msg.F {
		if len(v.L) > 0 {
			r.NonTrivial()
		}
		ids = ids && v.K == "uint64"
	}
	if ids {
		r.NonTrivial()
	}
	m := c.Msg.build()
	if err := c.Msg.sameFields(m); err != nil {
		return errorf("constructor: %v", err)
	}
	data, err := s.Serialize(m)
	if err != nil {
		return errorf("serialize %s fails: %v", c.Format, err)
	}
	if err := c.Msg.sameFields(m); err != nil {
		return errorf("serialize alters the message: %v", err)
	}
	got, err := s.Deserialize(data)
	if err != nil {
		return errorf("deserialize %s fails: %v: %x", c.Format, err, clip(data))
	}
	if err := c.Msg.sameFields(got); err != nil {
		return errorf("round trip through %s: %v: %x", c.Format, err, clip(data))
	}
	// the decoded message does not live in the buffer it came from
	for i := range data {
		data[i] = 0xff
	}
	if err := c.Msg.sameFields(got); err != nil {
		return errorf("decoded message changes with the buffer (%s): %v", c.Format, err)
	}
	// and survives a second trip
	data, err = s.Serialize(got)
	if err != nil {
		return errorf("serialize again fails (%s): %v", c.Format, err)
	}
	got, err = s.Deserialize(data)
	if err != nil {
		return errorf("deserialize again fails (%s): %v: %x", c.Format, err, clip(data))
	}
	if err := c.Msg.sameFields(got); err != nil {
		return errorf("second round trip through %s: %v", c.Format, err)
	}
	return nil
}

// withLarge are the types that carry args and kwargs, or a map of any content.
var withLarge = []string{"CALL", "RESULT", "YIELD", "INVOCATION", "PUBLISH", "EVENT", "ERROR", "ABORT"}

// C01: messages with more items, keys or levels than the smaller size classes
// hold.
func TestC01_Large(t *testing.T) {
	Check(t, Opt{Checks: 12, Rule: "messages of the 8 types that carry a payload, with lists and maps of 15 to 200000 entries, at the top or inside, and " +
		"values nested 20 to 9900 levels deep, serialized and deserialized with each serializer; non-trivial: always"},
		func(t *rapid.T) msgCase {
			c := msgCase{Format: pick(t, "format", formats...)}
			s := specOf(pick(t, "type", withLarge...))
			c.Msg = genMsgOf(t, s, c.Format)
			args, kwargs := genLarge(t, c.Format)
			for i, k := range s.valueKinds() {
				switch k {
				case fArgs:
					c.Msg.F[i] = args
				case fKw:
					c.Msg.F[i] = kwargs
				}
			}
			return c
		}, runC01)
}

type batchCase struct {
	Format []string `json:"format"`
	Msgs   []Msg    `json:"msgs"`
	Order  []int    `json:"order"`
}

// C01: messages serialized one after another do not disturb each other, and
// neither do ones decoded one after another.
func TestC01_Batch(t *testing.T) {
	Check(t, Opt{Checks: 3000, Rule: "2-12 messages (any type and fields) serialized one after another with serializers of 1-3 formats, then decoded in " +
		"another order, then all compared with what was sent; non-trivial: at least two different types in one format"},
		func(t *rapid.T) batchCase {
			c := batchCase{}
			one := pick(t, "format", append([]string{""}, formats...)...)
			for i := between(t, "n", 2, 12); i > 0; i-- {
				f := one
				if f == "" {
					f = pick(t, "format", formats...)
				}
				c.Format = append(c.Format, f)
				c.Msgs = append(c.Msgs, genMsg(t, f))
				c.Order = append(c.Order, intn(t, "order", 100))
			}
			return c
		},
		func(c *batchCase, r *Rec) error {
			sers := map[string]serializers.Serializer{}
			for _, f := range formats {
				sers[f] = serializer(f)
			}
			var datas, before [][]byte
			types := map[string]bool{}
			for i, m := range c.Msgs {
				data, err := sers[c.Format[i]].Serialize(m.build())
				if err != nil {
					return errorf("serialize %s fails: %v", c.Format[i], err)
				}
				datas, before = append(datas, data), append(before, bytes.Clone(data))
				types[c.Format[i]+m.T] = true
			}
			if len(types) > 1 {
				r.NonTrivial()
			}
			for i := range datas {
				if !bytes.Equal(datas[i], before[i]) {
					return errorf("serialized %s changes when others are serialized (%s)", c.Msgs[i].T, c.Format[i])
				}
			}
			order := make([]int, len(c.Msgs))
			for i := range order {
				order[i] = i
			}
			slices.SortStableFunc(order, func(a, b int) int { return c.Order[a] - c.Order[b] })
			got := make([]messages.Message, len(c.Msgs))
			for _, i := range order {
				m, err := sers[c.Format[i]].Deserialize(datas[i])
				if err != nil {
					return errorf("deserialize %s fails: %v: %x", c.Format[i], err, clip(datas[i]))
				}
				got[i] = m
			}
			for i, m := range c.Msgs {
				if err := m.sameFields(got[i]); err != nil {
					return errorf("round trip among others through %s: %v", c.Format[i], err)
				}
			}
			return nil
		})
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}
