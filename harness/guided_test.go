package harness

// The same checks, driven by Go's coverage-guided fuzzer: it mutates the
// choices that rapid's generators draw, and keeps those that reach something
// new in the library or in the model that judges it. Used by the thorough tier.

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	guided      = os.Getenv("VERIF_GUIDED") // the check that is guided
	guidedInput []byte
	guidable    = map[string]func(*testing.T){}
)

func init() {
	for name, fn := range map[string]func(*testing.T){
		"C01_RoundTrip": TestC01_RoundTrip, "C01_Large": TestC01_Large, "C05_Large": TestC05_Large, "C02_Write": TestC02_Write, "C02_Read": TestC02_Read, "C03_Bytes": TestC03_Bytes,
		"C03_Refused": TestC03_Refused, "C04_Convert": TestC04_Convert, "C04_WireIDs": TestC04_WireIDs, "C05_RoundTrip": TestC05_RoundTrip,
		"C05_WrongShape": TestC05_WrongShape, "C05_Refused": TestC05_Refused, "C06_Bytes": TestC06_Bytes, "C07_Joins": TestC07_Joins,
		"C08_Forged": TestC08_Forged, "C09_Acceptor": TestC09_Acceptor, "C09_Joiner": TestC09_Joiner, "C10_Select": TestC10_Select,
		"C11_CRA": TestC11_CRA, "C11_Junk": TestC11_Junk, "C12_Session": TestC12_Session, "C13_Delivery": TestC13_Delivery,
		"C13_Patterns": TestC13_Patterns, "C14_Publications": TestC14_Publications, "C14_Content": TestC14_Content,
		"C15_Withdrawal": TestC15_Withdrawal, "C16_Routing": TestC16_Routing, "C16_Patterns": TestC16_Patterns, "C17_Policies": TestC17_Policies,
		"C18_Answers": TestC18_Answers, "C19_Progressive": TestC19_Progressive, "C20_Withdrawal": TestC20_Withdrawal,
		"C21_Opaque": TestC21_Opaque, "C21_Handshake": TestC21_Handshake, "C22_Caller": TestC22_Caller, "C22_Publisher": TestC22_Publisher,
		"C23_Dealer": TestC23_Dealer, "C23_Broker": TestC23_Broker, "C25_System": TestC25_System, "C26_RefusedDealer": TestC26_RefusedDealer,
		"C26_RefusedBroker": TestC26_RefusedBroker, "C26_ModelDealer": TestC26_ModelDealer, "C26_ModelBroker": TestC26_ModelBroker,
		"C27_Text": TestC27_Text, "C28_Handshake": TestC28_Handshake, "C28_Welcome": TestC28_Welcome, "C28_Abort": TestC28_Abort,
		"C30_Dealer": TestC30_Dealer, "C30_Broker": TestC30_Broker, "C30_Codecs": TestC30_Codecs, "C30_Session": TestC30_Session,
		"C30_Handshakes": TestC30_Handshakes, "C30_Foreign": TestC30_Foreign,
		"C32_Values": TestC32_Values, "C32_Reparse": TestC32_Reparse, "C32_Conversions": TestC32_Conversions,
	} {
		guidable["Test"+name] = fn
	}
}

// worker tells the files of the fuzzer's processes apart.
func worker() string {
	if guided == "" {
		return ""
	}
	return "-" + strconv.Itoa(os.Getpid())
}

func FuzzGuided(f *testing.F) {
	if guided == "" {
		f.Skip("not asked for")
	}
	fn := guidable[guided]
	if fn == nil {
		f.Fatalf("HARNESS-ERROR: no check %s", guided)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	for i := uint64(0); i < 40; i++ {
		f.Add(noise(seed*1000003+i, 1<<(5+i%7)))
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		guidedInput = data
		fn(t)
	})
}

// noise is n words from a seed.
func noise(seed uint64, n int) []byte {
	out := make([]byte, 0, 8*n)
	for i := 0; i < n; i++ {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		out = binary.LittleEndian.AppendUint64(out, z^z>>31)
	}
	return out
}

// guide runs the case that the fuzzer's bytes make the generator choose. When
// they do not suffice, words that depend on them follow.
func guide[T any](e *engine[T], gen func(t *rapid.T) T) {
	draw := func(input []byte) []byte {
		var data []byte
		done := make(chan struct{})
		go func() { // the test is left with Goexit when the choices are not usable
			defer close(done)
			t := &testing.T{}
			rapid.MakeFuzz(func(rt *rapid.T) {
				quiet(rt)
				c := gen(rt)
				data = e.marshal(&c)
			})(t, input)
		}()
		<-done
		return data
	}
	h := fnv.New64a()
	h.Write(guidedInput)
	for len(guidedInput)%8 != 0 {
		guidedInput = append(guidedInput[:len(guidedInput):len(guidedInput)], 0)
	}
	input := append(guidedInput[:len(guidedInput):len(guidedInput)], noise(h.Sum64(), 2048)...)
	data := draw(input)
	if data == nil {
		e.t.Skip()
	}
	err := e.once(data)
	if err == nil {
		return
	}
	what := class(err)
	small := shrink(input, time.Now().Add(20*time.Second), func(input []byte) bool {
		data := draw(append(input[:len(input):len(input)], make([]byte, 8*2048)...))
		if data == nil {
			return false
		}
		err := e.once(data)
		return err != nil && class(err) == what
	})
	last := draw(append(small[:len(small):len(small)], make([]byte, 8*2048)...))
	if last == nil || e.once(last) == nil { // it does not fail every time
		_ = e.once(data)
	}
	fmt.Printf("GUIDED-FAILED %v\n", err)
	e.t.Fatalf("%v", err)
}

// quiet keeps rapid from describing every choice, which takes longer than all else.
func quiet(rt *rapid.T) {
	if f := reflect.ValueOf(rt).Elem().FieldByName("tbLog"); f.IsValid() && f.Kind() == reflect.Bool {
		*(*bool)(f.Addr().UnsafePointer()) = false
	}
}

// shrink makes a sequence of words shorter and smaller while it fails.
func shrink(in []byte, until time.Time, fails func([]byte) bool) []byte {
	get := func(b []byte, i int) uint64 { return binary.LittleEndian.Uint64(b[8*i:]) }
	cur := in
	try := func(b []byte) bool {
		if time.Now().After(until) || !fails(b) {
			return false
		}
		cur = b
		return true
	}
	for n := len(cur) / 16; n > 0; n /= 2 { // zeros follow
		for len(cur)/8 >= n && try(cur[:len(cur)-8*n]) {
		}
	}
	for changed := true; changed && time.Now().Before(until); {
		changed = false
		for n := min(64, len(cur)/8); n > 0; n /= 2 {
			for i := len(cur)/8 - n; i >= 0; i-- {
				if i+n <= len(cur)/8 && try(append(append([]byte(nil), cur[:8*i]...), cur[8*(i+n):]...)) {
					changed = true
				}
			}
		}
		for i := 0; i < len(cur)/8; i++ {
			for v := get(cur, i); v > 0; {
				done := true
				for _, w := range []uint64{0, 1, v & 0xff, v & 0xffff, v >> 1, v - 1} {
					if w >= v {
						continue
					}
					b := append([]byte(nil), cur...)
					binary.LittleEndian.PutUint64(b[8*i:], w)
					if try(b) {
						v, done, changed = w, false, true
						break
					}
				}
				if done {
					break
				}
			}
		}
	}
	return cur
}
