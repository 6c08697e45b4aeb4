package harness

// Application values: a typed tree that survives being written to a replay
// file, its Go form, and the comparison "equal up to the number types a format
// can express".

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// V is one value. K is its Go type: nil, bool, int, int8 ... uint64, float32,
// float64, string, bytes, list, map, or one of those that stand for a large
// value: many (a list of N items that repeat L), wide (a map of N keys whose
// values repeat L) and deep (L[0] within N lists and maps).
type V struct {
	K string   `json:"k"`
	N string   `json:"n,omitempty"` // number or bool, in text
	S string   `json:"s,omitempty"` // string, or hex of bytes
	L []V      `json:"l,omitempty"` // items, or map values
	M []string `json:"m,omitempty"` // map keys
}

func vNil() V           { return V{K: "nil"} }
func vStr(s string) V   { return V{K: "string", S: s} }
func vInt(i int64) V    { return V{K: "int64", N: strconv.FormatInt(i, 10)} }
func vUint(u uint64) V  { return V{K: "uint64", N: strconv.FormatUint(u, 10)} }
func vBool(b bool) V    { return V{K: "bool", N: strconv.FormatBool(b)} }
func vBytes(b []byte) V { return V{K: "bytes", S: hex.EncodeToString(b)} }
func vFloat(f float64) V {
	return V{K: "float64", N: strconv.FormatFloat(f, 'g', -1, 64)}
}
func vList(l ...V) V { return V{K: "list", L: l} }

func must[T any](v T, err error) T {
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return v
}

// Go is the value as the Go type it names.
func (v V) Go() any {
	switch v.K {
	case "nil", "":
		return nil
	case "bool":
		return v.N == "true"
	case "int":
		return int(must(strconv.ParseInt(v.N, 10, 64)))
	case "int8":
		return int8(must(strconv.ParseInt(v.N, 10, 8)))
	case "int16":
		return int16(must(strconv.ParseInt(v.N, 10, 16)))
	case "int32":
		return int32(must(strconv.ParseInt(v.N, 10, 32)))
	case "int64":
		return must(strconv.ParseInt(v.N, 10, 64))
	case "uint":
		return uint(must(strconv.ParseUint(v.N, 10, 64)))
	case "uint8":
		return uint8(must(strconv.ParseUint(v.N, 10, 8)))
	case "uint16":
		return uint16(must(strconv.ParseUint(v.N, 10, 16)))
	case "uint32":
		return uint32(must(strconv.ParseUint(v.N, 10, 32)))
	case "uint64":
		return must(strconv.ParseUint(v.N, 10, 64))
	case "float32":
		return float32(must(strconv.ParseFloat(v.N, 32)))
	case "float64":
		return must(strconv.ParseFloat(v.N, 64))
	case "string":
		return v.S
	case "bytes":
		return withRoom(must(hex.DecodeString(v.S)))
	case "list":
		l := make([]any, len(v.L))
		for i := range v.L {
			l[i] = v.L[i].Go()
		}
		return withRoom(l)
	case "map":
		m := make(map[string]any, len(v.L))
		for i := range v.L {
			m[v.M[i]] = v.L[i].Go()
		}
		return m
	case "many", "wide", "deep":
		return v.large()
	}
	panic("HARNESS-ERROR: value kind " + v.K)
}

func (v V) large() any {
	n := must(strconv.Atoi(v.N))
	switch v.K {
	case "many":
		l := make([]any, n)
		for i := range l {
			l[i] = v.L[i%len(v.L)].Go()
		}
		return l
	case "wide":
		m := make(map[string]any, n)
		for i := range n {
			m[strconv.Itoa(i)] = v.L[i%len(v.L)].Go()
		}
		return m
	}
	x := v.L[0].Go()
	for i := range n {
		switch v.S[i%len(v.S)] {
		case 'l':
			x = []any{x}
		case 't':
			x = []any{nil, x, true}
		default:
			x = map[string]any{"k": x}
		}
	}
	return x
}

// genLarge draws args and kwargs with more items, keys or levels than the
// smaller size classes of the formats hold.
func genLarge(t *rapid.T, format string) (args, kwargs V) {
	item := func() V {
		if chance(t, "container", 20) {
			return pick(t, "container", vList(), vList(vInt(1)), V{K: "map"}, V{K: "map", M: []string{"k"}, L: []V{vNil()}})
		}
		return pick(t, "item", vNil(), vBool(true), vInt(0), vInt(-7), vUint(300), vInt(1<<40), vFloat(0.5), vStr(""), vStr("é"))
	}
	items := func() []V {
		l := make([]V, between(t, "items", 1, 5))
		for i := range l {
			l[i] = item()
		}
		return l
	}
	count := func() string {
		return strconv.Itoa(pick(t, "count", 15, 16, 23, 24, 31, 32, 100, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 1024, 4095, 4097, 10000, 32767,
			32768, 65534, 65535, 65536, 65537, 131072, 131073, 200000))
	}
	args, kwargs = vNil(), vNil()
	switch between(t, "shape", 0, 6) {
	case 0:
		args = V{K: "many", N: count(), L: items()}
	case 1:
		kwargs = V{K: "wide", N: count(), L: items()}
	case 2:
		args = vList(V{K: "many", N: count(), L: items()})
	case 3:
		args = vList(vStr("x"), V{K: "wide", N: count(), L: items()})
	case 4:
		kwargs = V{K: "map", M: []string{"", "list"}, L: []V{vNil(), {K: "many", N: count(), L: items()}}}
	case 5:
		n := pick(t, "levels", 20, 28, 29, 30, 31, 32, 33, 62, 64, 65, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 4000, 9000, 9900)
		args = vList(V{K: "deep", N: strconv.Itoa(n), S: pick(t, "nest", "l", "m", "lm", "tm", "llmt"), L: []V{item()}})
	default:
		n := pick(t, "levels", 20, 28, 29, 30, 31, 32, 33, 62, 64, 65, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 4000, 9000, 9900)
		kwargs = V{K: "map", M: []string{"k"}, L: []V{{K: "deep", N: strconv.Itoa(n), S: pick(t, "nest", "l", "m", "lm", "tm", "llmt"), L: []V{item()}}}}
	}
	return args, kwargs
}

// List and Map are the value as call arguments: nil stays nil.
func (v V) List() []any {
	l, _ := v.Go().([]any)
	return l
}

func (v V) Map() map[string]any {
	m, _ := v.Go().(map[string]any)
	return m
}

func (v V) Str() string { s, _ := v.Go().(string); return s }

func (v V) Uint() uint64 {
	return must(strconv.ParseUint(v.N, 10, 64))
}

func canonFloat(f float64) string {
	if f == math.Trunc(f) && !math.IsInf(f, 0) {
		i, _ := new(big.Float).SetFloat64(f).Int(nil)
		return i.String()
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// canon writes a Go value such that two values are equal up to number types
// exactly when their texts are equal. A nil and an empty list are the same, so
// are a nil and an empty map.
func canon(x any) string {
	var b strings.Builder
	canonTo(&b, x)
	return b.String()
}

func canonTo(b *strings.Builder, x any) {
	switch v := x.(type) {
	case nil:
		b.WriteString("nil")
	case bool:
		fmt.Fprintf(b, "%v", v)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		fmt.Fprintf(b, "%d", v)
	case float32:
		b.WriteString(canonFloat(float64(v)))
	case float64:
		b.WriteString(canonFloat(v))
	case string:
		b.WriteString(strconv.Quote(v))
	case []byte:
		b.WriteString("h'" + hex.EncodeToString(v) + "'")
	case []string:
		l := make([]any, len(v))
		for i := range v {
			l[i] = v[i]
		}
		canonTo(b, l)
	case []any:
		b.WriteByte('[')
		for i := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canonTo(b, v[i])
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canonTo(b, v[k])
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "!%T(%v)", x, x)
	}
}

func canonList(l []any) string {
	if l == nil {
		l = []any{}
	}
	return canon(l)
}

func canonMap(m map[string]any) string {
	if m == nil {
		m = map[string]any{}
	}
	return canon(m)
}

// ------------------------------------------------------------- generators

const (
	fmtJSON    = "json"
	fmtCBOR    = "cbor"
	fmtMsgPack = "msgpack"
)

var formats = []string{fmtJSON, fmtCBOR, fmtMsgPack}

func pick[T any](t *rapid.T, name string, from ...T) T {
	return from[intn(t, name, len(from))]
}

var aBit = rapid.Bool()

// intn draws uniformly from 0..n-1 (rapid's own ranges favour small numbers).
func intn(t *rapid.T, name string, n int) int {
	if n <= 0 {
		panic("HARNESS-ERROR: empty choice " + name)
	}
	for try := 0; ; try++ {
		u := 0
		for i := bits.Len(uint(n - 1)); i > 0; i-- {
			u <<= 1
			if aBit.Draw(t, name) {
				u |= 1
			}
		}
		if u < n || try == 20 {
			return u % n
		}
	}
}

// between draws uniformly from lo..hi.
func between(t *rapid.T, name string, lo, hi int) int { return lo + intn(t, name, hi-lo+1) }

func chance(t *rapid.T, name string, percent int) bool {
	return intn(t, name, 100) >= 100-percent
}

var stringPool = []string{"", "a", "com.myapp.proc", "hello world", "0", "null", "é", "日本語", "\x00",
	"\"quoted\\", "<&>", "\u2028", "😀", "\ufeff", "a\nb\tc", "\u007f\u0080", "wamp.error.x"}

// names the protocol gives a meaning to in some place, and none in others
var wampWords = []string{"authid", "authrole", "authmethod", "authmethods", "authextra", "authprovider", "realm", "roles", "session",
	"progress", "receive_progress", "acknowledge", "exclude_me", "match", "invoke", "disclose_me", "topic", "procedure", "publisher",
	"publisher_authid", "caller", "caller_authid", "timeout", "mode", "challenge", "salt", "iterations", "keylen", "nonce", "ticket",
	"secret", "channel_binding", "x_payload_serializer", "ppt_scheme", "x_payload", "signature", "message", "features", "args", "kwargs",
	"anonymous", "admin", "guest", "wildcard", "exact", "true", "false", "undefined", "NaN", "__proto__"}

// genString draws valid UTF-8, from short pool strings to lengths across the
// size classes of the binary formats (32, 256 and 65536).
func genString(t *rapid.T) string {
	switch k := between(t, "strkind", 0, 19); {
	case k < 8:
		return pick(t, "str", stringPool...)
	case k < 18:
		return rapid.StringN(0, 12, -1).Draw(t, "str")
	case k < 19:
		return strings.Repeat(pick(t, "fill", "x", "é", "\x00"), between(t, "len", 20, 300))
	default:
		return strings.Repeat("y", pick(t, "len", 31, 32, 255, 256, 257, 65535, 65536, 70000))
	}
}

func genShortString(t *rapid.T) string {
	if chance(t, "pooled", 50) {
		return pick(t, "str", stringPool...)
	}
	return rapid.StringN(0, 8, -1).Draw(t, "str")
}

// boundaries of the integer widths
var boundaries = func() []uint64 {
	var out []uint64
	for _, b := range []uint64{0, 1, 23, 24, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
		1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53} {
		out = append(out, b)
	}
	return out
}()

const maxSafe = int64(1) << 53

// genID draws a WAMP id.
func genID(t *rapid.T) uint64 {
	switch between(t, "idkind", 0, 3) {
	case 0:
		return pick(t, "id", boundaries...)
	case 1:
		return uint64(between(t, "id", 0, 10))
	default:
		n := between(t, "bits", 1, 53)
		return rapid.Uint64Range(0, 1<<n).Draw(t, "id")
	}
}

var intKinds = map[string][2]int64{
	"int8": {math.MinInt8, math.MaxInt8}, "int16": {math.MinInt16, math.MaxInt16},
	"int32": {math.MinInt32, math.MaxInt32}, "int64": {math.MinInt64, math.MaxInt64},
	"int": {math.MinInt64, math.MaxInt64}, "uint8": {0, math.MaxUint8}, "uint16": {0, math.MaxUint16},
	"uint32": {0, math.MaxUint32},
}

var numKinds = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64"}

// genNumber draws a number of any Go type. In JSON only those a double holds.
func genNumber(t *rapid.T, format string) V {
	kind := pick(t, "numkind", numKinds...)
	if kind == "float32" && format == fmtJSON {
		kind = "float64" // the shortest text of a float32 is another float64
	}
	switch kind {
	case "float32", "float64":
		var f float64
		switch between(t, "fkind", 0, 2) {
		case 0:
			f = pick(t, "f", 0, 1, -1, 0.5, -2.5, 1e10, 1.5e-7, 3.4e38, 1<<53, -(1 << 53), 1<<31, 255, 65535.5)
		case 1:
			f = float64(between(t, "f", -1000, 1000)) / 8
		default:
			if kind == "float32" {
				f = float64(rapid.Float32().Draw(t, "f"))
			} else {
				f = rapid.Float64().Draw(t, "f")
			}
		}
		if kind == "float32" {
			f = float64(float32(f))
			if math.IsInf(f, 0) {
				f = 1
			}
			return V{K: kind, N: strconv.FormatFloat(f, 'g', -1, 32)}
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0
		}
		return V{K: kind, N: strconv.FormatFloat(f, 'g', -1, 64)}
	case "uint", "uint64":
		limit := uint64(math.MaxUint64)
		if format == fmtJSON {
			limit = uint64(maxSafe)
		}
		u := genUintTo(t, limit)
		return V{K: kind, N: strconv.FormatUint(u, 10)}
	default:
		r := intKinds[kind]
		if format == fmtJSON {
			r[0], r[1] = max(r[0], -maxSafe), min(r[1], maxSafe)
		}
		var i int64
		if chance(t, "neg", 40) && r[0] < 0 {
			i = -int64(genUintTo(t, uint64(-(r[0]+1)))) - 1
		} else {
			i = int64(genUintTo(t, uint64(r[1])))
		}
		return V{K: kind, N: strconv.FormatInt(i, 10)}
	}
}

func genUintTo(t *rapid.T, limit uint64) uint64 {
	if chance(t, "edge", 50) {
		b := pick(t, "u", append([]uint64{limit, limit - 1}, boundaries...)...)
		if b <= limit {
			return b
		}
	}
	return rapid.Uint64Range(0, limit).Draw(t, "u")
}

func genBytes(t *rapid.T) []byte {
	if chance(t, "long", 6) {
		return make([]byte, pick(t, "len", 31, 32, 255, 256, 65535, 65536))
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
}

// genV draws a value of at most the given nesting depth.
func genV(t *rapid.T, format string, depth int) V {
	hi := 8
	if depth <= 0 {
		hi = 6
	}
	switch between(t, "vkind", 0, hi) {
	case 0:
		return vNil()
	case 1:
		return vBool(rapid.Bool().Draw(t, "b"))
	case 2, 3:
		return genNumber(t, format)
	case 4, 5:
		return vStr(genString(t))
	case 6:
		if format == fmtJSON {
			return vStr(genShortString(t))
		}
		return vBytes(genBytes(t))
	case 7:
		return genList(t, format, depth-1)
	default:
		return genMap(t, format, depth-1)
	}
}

func genList(t *rapid.T, format string, depth int) V {
	n := between(t, "n", 0, 4)
	if chance(t, "many", 3) {
		n = pick(t, "n", 15, 16, 17, 23, 24, 40)
		depth = 0
	}
	v := V{K: "list"}
	for i := 0; i < n; i++ {
		v.L = append(v.L, genV(t, format, depth))
	}
	return v
}

func genMap(t *rapid.T, format string, depth int) V {
	n := between(t, "n", 0, 3)
	if chance(t, "many", 3) {
		n = pick(t, "n", 15, 16, 17, 24, 33)
		depth = 0
	}
	v := V{K: "map"}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genShortString(t)
		known := chance(t, "known", 15)
		if known {
			k = wampWords[intn(t, "word", len(wampWords))]
		}
		if seen[k] {
			k += strconv.Itoa(i)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		v.M = append(v.M, k)
		e := genV(t, format, depth)
		if known && chance(t, "meant", 60) {
			switch between(t, "meaning", 0, 3) {
			case 0:
				e = V{K: "bool", N: pick(t, "bool", "true", "false")}
			case 1:
				e = vStr(wampWords[intn(t, "word", len(wampWords))])
			case 2:
				e = vStr(genShortString(t))
			default:
				e = genNumber(t, format)
			}
		}
		v.L = append(v.L, e)
	}
	return v
}

// deepen wraps a value in a chain of lists and maps.
func deepen(v V, n int) V {
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			v = V{K: "list", L: []V{v}}
		} else {
			v = V{K: "map", M: []string{"k"}, L: []V{v}}
		}
	}
	return v
}

// genArgs and genKwargs draw payloads, nil (not set) included.
func genArgs(t *rapid.T, format string) V {
	switch between(t, "argskind", 0, 9) {
	case 0, 1:
		return vNil()
	case 2:
		return V{K: "list"}
	case 3:
		return V{K: "list", L: []V{deepen(genV(t, format, 1), between(t, "deep", 0, 24))}}
	}
	return genList(t, format, 3)
}

func genKwargs(t *rapid.T, format string) V {
	switch between(t, "kwkind", 0, 9) {
	case 0, 1, 2:
		return vNil()
	case 3:
		return V{K: "map"}
	}
	return genMap(t, format, 3)
}
