package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"pgregory.net/rapid"
)

// ------------------------------------------------------ arrays that are wrong

type badCase struct {
	Format string `json:"format"`
	T      string `json:"t"`
	Arr    V      `json:"arr"` // the array, type code included
	Why    string `json:"why"`
	Tape   []byte `json:"tape,omitempty"`
	Behind string `json:"behind,omitempty"` // hex of what follows the array
}

// genBehind draws bytes that follow a value and do not belong to it.
func genBehind(t *rapid.T, format string, value V) string {
	if format == fmtJSON {
		return hex.EncodeToString([]byte(pick(t, "behind", "x", "]", "1", " null", "[]", ",", "\x00", "\n{}", "}", "\"", "/",
			string(encodeWire(format, value.Go(), nil)))))
	}
	if chance(t, "again", 20) {
		return hex.EncodeToString(encodeWire(format, value.Go(), nil))
	}
	return hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "behind"))
}

// wrongFor draws a value of another kind than the field's.
func wrongFor(t *rapid.T, kind, format string) V {
	num := vUint(genID(t))
	alts := []V{vBool(rapid.Bool().Draw(t, "b"))}
	if kind != fID {
		alts = append(alts, num)
	} else {
		alts = append(alts, vInt(-int64(genID(t))-1), vStr("1"), vStr(""))
	}
	if kind != fStr {
		alts = append(alts, vStr(genShortString(t)))
	}
	if kind != fMap && kind != fKw {
		alts = append(alts, V{K: "map"}, genMap(t, format, 1))
	}
	if kind != fArgs {
		alts = append(alts, V{K: "list"}, genList(t, format, 1))
	}
	alts = append(alts, vNil())
	if format != fmtJSON {
		alts = append(alts, vBytes([]byte("abc")))
	}
	return pick(t, "wrong", alts...)
}

func genBad(t *rapid.T) badCase {
	c := badCase{Format: pick(t, "format", formats...)}
	m := genMsg(t, c.Format)
	s := specOf(m.T)
	c.T = m.T
	c.Arr = m.arrV()
	switch c.Why = pick(t, "why", "code", "short", "long", "behind", "element", "element", "element"); c.Why {
	case "behind":
		c.Behind = genBehind(t, c.Format, c.Arr)
	case "code":
		var codes []V
		for i := uint64(0); i < 90; i++ {
			if _, ok := specOfCode(i); !ok {
				codes = append(codes, vUint(i))
			}
		}
		codes = append(codes, vUint(256+s.code), vUint(1<<32+s.code), vUint(1<<53), vInt(-int64(s.code)), vInt(-1),
			vStr(fmt.Sprint(s.code)), vNil(), vBool(true), V{K: "list"}, vList(vUint(s.code)), V{K: "map"}, vStr(m.T))
		c.Arr.L[0] = pick(t, "code", codes...)
	case "short":
		c.Arr.L = c.Arr.L[:between(t, "len", 0, s.min()-1)]
	case "long":
		for i := between(t, "more", 1, 3); i > 0; i-- {
			c.Arr.L = append(c.Arr.L, pick(t, "extra", vNil(), vUint(1), V{K: "map"}, V{K: "list"}, vStr("x")))
		}
	case "element":
		if c.T == "HELLO" && chance(t, "methods", 50) {
			// authmethods has to be a list of strings
			d := c.Arr.L[2]
			var l []V
			for i := between(t, "before", 0, 3); i > 0; i-- {
				l = append(l, vStr(pick(t, "method", methodNames...)))
			}
			l = append(l, wrongFor(t, fStr, c.Format))
			for i := between(t, "after", 0, 2); i > 0; i-- {
				l = append(l, vStr(pick(t, "method", methodNames...)))
			}
			c.Arr.L[2] = V{K: "map", M: slices.Clone(d.M), L: slices.Clone(d.L)}
			c.Arr.L[2].L[1] = vList(l...)
			break
		}
		i := intn(t, "index", len(s.fields))
		c.Arr.L[i+1] = wrongFor(t, s.fields[i], c.Format)
	}
	if chance(t, "varied", 30) {
		c.Tape = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "tape")
	}
	return c
}

// arrV is the full array of the message as a value.
func (m Msg) arrV() V {
	s := specOf(m.T)
	empty := func(v V, kind string) V {
		if v.K == "nil" {
			return V{K: kind}
		}
		return v
	}
	out := V{K: "list", L: []V{vUint(s.code)}}
	if m.T == "HELLO" {
		out.L = append(out.L, m.F[0], V{K: "map", M: []string{"authid", "authmethods", "authextra", "roles"},
			L: []V{m.F[1], empty(m.F[2], "list"), empty(m.F[3], "map"), empty(m.F[4], "map")}})
		return out
	}
	for i, k := range s.fields {
		switch k {
		case fMap, fKw:
			out.L = append(out.L, empty(m.F[i], "map"))
		case fArgs:
			out.L = append(out.L, empty(m.F[i], "list"))
		default:
			out.L = append(out.L, m.F[i])
		}
	}
	return out
}

func behind(s string) string {
	if s == "" {
		return ""
	}
	return " and behind it " + s
}

func TestC03_Refused(t *testing.T) {
	Check(t, Opt{Checks: 10000, Rule: "WAMP arrays made invalid in one way: an unknown type code, a length outside the " +
		"specified range, one element of a wrong kind (every field of all 24 types), or further bytes behind the array, in 3 formats and varied " +
		"encodings; every case is non-trivial"},
		genBad, func(c *badCase, r *Rec) error {
			r.NonTrivial()
			r.Label("%s %s", c.Why, c.T)
			arr := c.Arr.Go()
			data := append(encodeWire(c.Format, arr, tape(c.Tape)), must(hex.DecodeString(c.Behind))...)
			msg, err := serializer(c.Format).Deserialize(data)
			if err == nil {
				return errorf("invalid %s array (%s) accepted as %T: %s%s", c.T, c.Why, msg, canon(arr), behind(c.Behind))
			}
			for _, p := range peers(c.Format, "") {
				if out := p.feed(data); !strings.HasPrefix(out, "error") {
					return errorf("invalid %s array (%s) accepted by %s: %s%s", c.T, c.Why, p.name, canon(arr), behind(c.Behind))
				}
			}
			return nil
		})
}

// --------------------------------------------------------- bytes of any shape

type peer struct {
	name string
	feed func(data []byte) string
}

var c03User = User{AuthID: "joe", Role: "user", GrantID: "joe", Ticket: "t", Secret: "s", Salt: "salt", Iter: 5, KeyLen: 16,
	Seed: strings.Repeat("ab", 32), Realm: "realm1"}

func outcome(msg any, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("ok %T", msg)
}

// peers are parts that receive bytes, each in a state reached by a legal
// prefix. which selects one by name ("" all).
func peers(format, which string) []peer {
	s := serializer(format)
	var out []peer
	add := func(name string, make func() func(data []byte) string) {
		if which == "" || which == name {
			out = append(out, peer{name, make()})
		}
	}
	for _, method := range []string{"", "ticket", "wampcra", "cryptosign"} {
		add("acceptor "+method, func() func(data []byte) string {
			srv := newServer(c03User, methodNames...)
			srv.lenient = true
			a := wampproto.NewAcceptor(s, srv)
			if method != "" {
				_, _ = a.ReceiveMessage(c03User.hello(method))
			}
			return func(data []byte) string {
				p, w, err := a.Receive(data)
				_, derr := a.SessionDetails()
				if err == nil && p == nil || w != (derr == nil) {
					return "inconsistent"
				}
				return outcome(p, err)
			}
		})
	}
	for _, method := range methodNames {
		add("joiner "+method, func() func(data []byte) string {
			c, err := c03User.client(method)
			if err != nil {
				panic("HARNESS-ERROR: " + err.Error())
			}
			j := wampproto.NewJoiner("realm1", s, c)
			if _, err := j.SendHello(); err != nil {
				panic("HARNESS-ERROR: " + err.Error())
			}
			return func(data []byte) string {
				p, err := j.Receive(data)
				return outcome(p, err)
			}
		})
	}
	add("session", func() func(data []byte) string {
		sess := wampproto.NewSession(s)
		for i := uint64(0); i < 4; i++ {
			for _, m := range []messages.Message{messages.NewCall(i, nil, "p", nil, nil),
				messages.NewRegister(i, nil, "p"), messages.NewSubscribe(i, nil, "t"),
				messages.NewPublish(i, map[string]any{"acknowledge": true}, "t", nil, nil)} {
				_, _ = sess.SendMessage(m)
			}
			_, _ = sess.ReceiveMessage(messages.NewRegistered(i, i))
			_, _ = sess.ReceiveMessage(messages.NewSubscribed(i, i))
			_, _ = sess.SendMessage(messages.NewRegister(i, nil, "p"))
			_, _ = sess.SendMessage(messages.NewSubscribe(i, nil, "t"))
		}
		return func(data []byte) string {
			m, err := sess.Receive(data)
			return outcome(m, err)
		}
	})
	return out
}

var peerNames = func() []string {
	var out []string
	for _, p := range peers(fmtJSON, "") {
		out = append(out, p.name)
	}
	return out
}()

type bytesCase struct {
	Format string `json:"format"`
	Peer   string `json:"peer"`
	Hex    string `json:"hex"`
	Rep    []struct {
		Hex string `json:"hex"`
		N   int    `json:"n"`
	} `json:"rep,omitempty"`
}

func (c bytesCase) data() []byte {
	data := must(hex.DecodeString(c.Hex))
	for _, r := range c.Rep {
		data = append(data, bytes.Repeat(must(hex.DecodeString(r.Hex)), r.N)...)
	}
	return data
}

func TestC03_Bytes(t *testing.T) {
	debug.SetMaxStack(128 << 20)
	Check(t, Opt{Checks: 12000,
		Rule: "byte strings: random ones, valid and invalid messages mutated by bit flips, truncation, splicing, " +
			"inserted hostile heads (huge lengths, wrong types), long repetitions (deep nesting), and HELLO/CHALLENGE/" +
			"AUTHENTICATE with hostile extras; fed to the 3 deserializers, the payload decoders, the raw-socket parsers " +
			"and an acceptor, joiner or session in each protocol state, under a time and allocation bound; " +
			"non-trivial: longer than 4 bytes and not a plain valid message"},
		genBytesCase, runC03)
}

// heads that claim a lot
var hostile = []string{"dd", "ddffffffff", "dc7fff", "dfffffffff", "df7fffffff", "deffff", "c6ffffffff", "dbffffffff",
	"c9ffffffff01", "c1", "d6ff00000000", "9b7fffffffffffffff", "9bffffffffffffffff", "9a7fffffff", "bb7fffffffffffffff",
	"ba7fffffff", "5b7fffffffffffffff", "5a7fffffff", "7b7fffffffffffffff", "7a7fffffff", "9f", "bf", "5f", "7f", "ff", "c0",
	"d9d9f7", "c249010000000000000000", "f97e00", "fb7ff8000000000000", "f6", "f7", "e0", "1b", "3bffffffffffffffff",
	"cfffffffffffffffff", "d38000000000000000", "5b", "5b5b", "7b", "22", "5b5d", "6e756c6c", "31653430303030", "2d30",
	"225c7564383030225d", "91", "81", "90", "80", "a0", "9100", "c7ff00", "00"}

// what opens a level, what is in the last one, what closes one
var nesting = map[string][][3]string{fmtJSON: {{"5b", "30", "5d"}, {"7b2261223a", "30", "7d"}, {"5b302c", "30", "5d"}, {"5b", "30", "2c305d"}},
	fmtCBOR: {{"81", "00", ""}, {"a16161", "00", ""}, {"9f", "00", "ff"}, {"bf6161", "00", "ff"}, {"8200", "00", ""}, {"82", "00", "00"}, {"d87b", "00", ""}},
	fmtMsgPack: {{"91", "00", ""}, {"81a161", "00", ""}, {"dc0001", "00", ""}, {"dd00000001", "00", ""}, {"de0001a161", "00", ""},
		{"92c0", "00", ""}, {"82a161c0a162", "00", ""}, {"92", "00", "00"}, {"82a161", "00", "a16200"}}}

func genBytesCase(t *rapid.T) bytesCase {
	c := bytesCase{Format: pick(t, "format", formats...), Peer: pick(t, "peer", peerNames...)}
	var data []byte
	switch kind := intn(t, "kind", 10); kind {
	case 0:
		data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "data")
	case 1: // handshake messages with hostile contents
		data = encodeWire(c.Format, genHostileHandshake(t, c.Format).Go(), nil)
	case 2, 3:
		b := genBad(t)
		b.Format = c.Format
		v := b.Arr
		if c.Format == fmtJSON {
			v = noBytes(v)
		}
		data = encodeWire(c.Format, v.Go(), tape(b.Tape))
	case 4: // repetitions
		type rep = struct {
			Hex string `json:"hex"`
			N   int    `json:"n"`
		}
		n := pick(t, "n", 1, 10, 100, 5000, 20000, 100000)
		if n == 100000 && chance(t, "huge", 8) { // deep enough to exhaust the stack
			unit := nesting[c.Format][intn(t, "unit", len(nesting[c.Format]))]
			c.Rep = append(c.Rep, rep{unit[0], 1000000}, rep{unit[1], 1})
			if chance(t, "closed", 80) {
				c.Rep = append(c.Rep, rep{unit[2], 1000000})
			}
			break
		}
		c.Rep = append(c.Rep, rep{pick(t, "unit", append([]string{"5b", "7b22", "7b22613a5b", "91", "81a161", "dc0001",
			"dd00000001", "df00000001", "9f", "bf6161", "81", "a1616181", "d87b", "c1"}, hostile...)...), n})
		if chance(t, "prefix", 50) {
			m := genMsg(t, c.Format)
			data = encodeWire(c.Format, m.arrV().Go(), nil)
			data = data[:intn(t, "cut", min(len(data), 4000))]
		}
	default:
		m := genMsg(t, c.Format)
		arr, need := m.wire()
		data = encodeWire(c.Format, arr[:between(t, "len", need, len(arr))],
			tape(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "tape")))
	}
	for i := intn(t, "mutations", 4); i > 0; i-- {
		data = mutate(t, data)
	}
	c.Hex = hex.EncodeToString(data)
	return c
}

func noBytes(v V) V {
	if v.K == "bytes" {
		return vStr(v.S)
	}
	if v.K == "float32" {
		v.K = "float64"
	}
	for i := range v.L {
		v.L[i] = noBytes(v.L[i])
	}
	return v
}

// genHostileHandshake draws HELLO, CHALLENGE, AUTHENTICATE, WELCOME and ABORT
// messages whose details have any kind of value under the names that count.
func genHostileHandshake(t *rapid.T, format string) V {
	any := func() V {
		switch intn(t, "hv", 9) {
		case 0:
			return pick(t, "n", vInt(-1), vUint(0), vUint(1<<62), vUint(1<<53), vUint(1<<31), vUint(1<<32+1), vFloat(1e300),
				vFloat(-0.5), vInt(-1<<63), vUint(65537), vUint(1000))
		case 1:
			return vStr("")
		case 2:
			return vStr(pick(t, "hex", c03User.pubkey(), c03User.pubkey()[2:], "zz", "00", strings.Repeat("00", 32),
				strings.Repeat("ff", 32), strings.Repeat("00", 96), strings.Repeat("00", 64)+"zz", strings.Repeat("é", 96)))
		case 3:
			return vNil()
		case 4:
			return V{K: "list", L: []V{vNil(), vUint(1), vStr("ticket")}}
		case 5:
			return V{K: "list", L: []V{vStr("cryptosign"), vStr("wampcra")}}
		default:
			return noBytes(genV(t, fmtJSON, 2))
		}
	}
	dict := func(keys ...string) V {
		v := V{K: "map"}
		for _, k := range keys {
			if chance(t, "has", 75) {
				v.M = append(v.M, k)
				v.L = append(v.L, any())
			}
		}
		return v
	}
	switch intn(t, "hm", 6) {
	case 0:
		d := dict("authid", "authextra", "roles")
		d.M, d.L = append(d.M, "authmethods"), append(d.L, vList(vStr(pick(t, "m", methodNames...))))
		return vList(vUint(1), vStr("realm1"), d)
	case 1:
		d := dict("authid", "authmethods", "roles")
		d.M, d.L = append(d.M, "authextra"), append(d.L, dict("pubkey", "x"))
		return vList(vUint(1), vStr("realm1"), d)
	case 2:
		d := dict("challenge", "salt", "iterations", "keylen")
		if chance(t, "salted", 60) { // a salted challenge that is well-formed but for its numbers
			d = V{K: "map", M: []string{"challenge", "salt", "iterations", "keylen"},
				L: []V{vStr("{}"), vStr("salt"), genKdfNumber(t), genKdfNumber(t)}}
		}
		return vList(vUint(4), vStr(pick(t, "m", methodNames...)), d)
	case 3:
		return vList(vUint(5), vStr(pick(t, "sig", "", "t", "AAAA", strings.Repeat("00", 96), strings.Repeat("é", 96),
			strings.Repeat("0", 191), strings.Repeat("A", 1000))), dict("x"))
	case 4:
		return vList(vUint(2), vUint(genID(t)), dict("authid", "authrole", "authmethod", "roles", "realm"))
	default:
		return vList(vUint(3), dict("message"), vStr("wamp.error.x"), genList(t, fmtJSON, 1), genMap(t, fmtJSON, 1))
	}
}

func genKdfNumber(t *rapid.T) V {
	return pick(t, "kdf", vInt(-1), vUint(0), vUint(1), vUint(32), vUint(100), vUint(1000), vUint(1<<31), vUint(1<<32),
		vUint(1<<53), vUint(1<<62), vFloat(1e18), vFloat(1e300), vStr("1"), vNil(), vUint(65537), vFloat(0.5))
}

func mutate(t *rapid.T, data []byte) []byte {
	data = append([]byte(nil), data...)
	pos := 0
	if len(data) > 0 {
		pos = min(intn(t, "pos", min(len(data), 4000)), len(data)-1)
	}
	switch intn(t, "mut", 7) {
	case 0:
		if len(data) > 0 {
			data[pos] ^= 1 << intn(t, "bit", 8)
		}
	case 1:
		if len(data) > 0 {
			data[pos] = rapid.Byte().Draw(t, "byte")
		}
	case 2:
		data = data[:pos]
	case 3:
		h := must(hex.DecodeString(pick(t, "head", hostile...)))
		data = append(append(append([]byte{}, data[:pos]...), h...), data[pos:]...)
	case 4:
		h := must(hex.DecodeString(pick(t, "head", hostile...)))
		data = append(append(append([]byte{}, data[:pos]...), h...), data[min(pos+len(h), len(data)):]...)
	case 5:
		data = append(append([]byte{}, data[:pos]...), data[min(pos+between(t, "drop", 1, 4), len(data)):]...)
	default:
		n := min(between(t, "dup", 1, 8), len(data)-pos)
		data = append(append(append([]byte{}, data[:pos+n]...), data[pos:pos+n]...), data[pos+n:]...)
	}
	return data
}

// bounded runs f and reports an allocation out of proportion to the input.
func bounded(what string, n int, f func() error) error {
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	start := time.Now()
	if err := safely(f); err != nil {
		return errorf("%s: %v", what, err)
	}
	took := time.Since(start)
	runtime.ReadMemStats(&after)
	if d := after.TotalAlloc - before.TotalAlloc; d > uint64(16<<20+4096*n) {
		return errorf("%s allocates out of proportion: %d bytes for an input of %d", what, d, n)
	}
	if took > 30*time.Second {
		return errorf("%s takes too long: %v for an input of %d bytes", what, took, n)
	}
	return nil
}

func runC03(c *bytesCase, r *Rec) error {
	data := c.data()
	r.Label("peer %s", c.Peer)
	in := func() []byte { return append([]byte(nil), data...) }
	s := serializer(c.Format)
	parsed := false
	err := bounded("deserialize "+c.Format, len(data), func() error {
		msg, err := s.Deserialize(in())
		if err != nil {
			r.Label("%s refused", c.Format)
			return nil
		}
		if msg == nil {
			return errorf("neither a message nor an error: %x", clip(data))
		}
		parsed = true
		sp, ok := specOfCode(msg.Type())
		if !ok {
			return errorf("message of unknown type %d accepted: %x", msg.Type(), clip(data))
		}
		if _, ok := sp.get(msg); !ok {
			return errorf("type code and message disagree: %T is %d", msg, msg.Type())
		}
		if l := len(msg.Marshal()); l < sp.min() || l > sp.max() {
			return errorf("accepted message has %d elements: %x", l, clip(data))
		}
		r.Label("%s accepted %s", c.Format, sp.name)
		return nil
	})
	if err != nil {
		return err
	}
	if len(data) > 4 && (!parsed || len(c.Rep) > 0) {
		r.NonTrivial()
	}
	for _, p := range peers(c.Format, c.Peer) {
		if err := bounded("feeding "+p.name, len(data), func() error {
			if out := p.feed(in()); out == "inconsistent" {
				return errorf("neither a message nor an error, or details without WELCOME: %x", clip(data))
			}
			p.feed(in())
			return nil
		}); err != nil {
			return err
		}
	}
	return bounded("payload decoders", len(data), func() error {
		for id := uint64(0); id < 6; id++ {
			_, _, _ = serializers.DeserializePayload(id, in())
		}
		switch c.Format {
		case fmtCBOR:
			_, _, _ = serializers.DecodeCBOR(in())
		default:
			_, _ = transports.ReceiveHandshake(in())
			_, _ = transports.ReceiveMessageHeader(in())
		}
		return nil
	})
}
