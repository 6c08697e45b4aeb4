package harness

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"sync"
	"testing"
	"time"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type craCase struct {
	Key       string `json:"key"` // hex
	Challenge string `json:"challenge"`
	Other     string `json:"other"`
	OtherKey  string `json:"otherkey"`
	Pos       int    `json:"pos"`
	Bit       int    `json:"bit"`
	Salt      string `json:"salt"`
	Secret    string `json:"secret"`
	Iter      int    `json:"iter"`
	Len       int    `json:"len"`
	NumKind   string `json:"numkind"`
}

func genSecretBytes(t *rapid.T) string {
	n := pick(t, "keylen", 0, 1, 16, 31, 32, 33, 63, 64, 65, 100, 200)
	if chance(t, "anylen", 50) {
		n = between(t, "keylen", 0, 80)
	}
	return hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "key"))
}

// C11: WAMP-CRA signatures.
func TestC11_CRA(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "keys of 0 to 200 bytes, challenge texts, salts, iterations and key lengths (also not " +
		"positive): signature and derived key compared with an independent HMAC-SHA256 and PBKDF2, verification with the " +
		"genuine and with altered signatures, challenges and keys; and the client authenticator for a salted challenge " +
		"with numbers of any type; non-trivial: all but the empty challenge"},
		func(t *rapid.T) craCase {
			c := craCase{Key: genSecretBytes(t), Challenge: genString(t), Other: genString(t), OtherKey: genSecretBytes(t),
				Pos: intn(t, "pos", 64), Bit: intn(t, "bit", 8), Salt: genString(t), Secret: genString(t),
				Iter: pick(t, "iter", 1, 2, 3, 10, 50, 0, -1), Len: pick(t, "len", 1, 16, 20, 31, 32, 33, 64, 65, 0, -1, -1000),
				NumKind: pick(t, "numkind", "int", "int8", "int16", "int32", "int64", "float64", "uint8", "uint64")}
			if chance(t, "more", 3) {
				c.Iter = pick(t, "iter", 100, 255, 256, 999, 1000, 1000, 1001, 1024, 4096)
			}
			if chance(t, "longer", 5) {
				c.Len = pick(t, "len", 63, 95, 96, 97, 127, 128, 255, 256, 257, 1000, 1024)
			} else if chance(t, "many", 1) && chance(t, "very", 20) {
				c.Iter, c.Len = pick(t, "iter", 9999, 10000, 10001, 65535, 65536, 100000), pick(t, "len", 16, 32)
			}
			return c
		}, runCRA)
}

func runCRA(c *craCase, r *Rec) error {
	key, other := must(hex.DecodeString(c.Key)), must(hex.DecodeString(c.OtherKey))
	if c.Challenge != "" {
		r.NonTrivial()
	}
	r.Label("key length class %d", min((len(key)+31)/32, 3))
	want := hmacOwn(key, []byte(c.Challenge))
	if got := auth.SignWAMPCRAChallengeBytes(c.Challenge, key); hex.EncodeToString(got) != hex.EncodeToString(want) {
		return errorf("WAMP-CRA signature: is %x instead of %x", got, want)
	}
	sig := auth.SignWAMPCRAChallenge(c.Challenge, key)
	if sig != base64.StdEncoding.EncodeToString(want) {
		return errorf("WAMP-CRA signature text: is %q instead of %x", sig, want)
	}
	if !auth.VerifyWAMPCRASignature(sig, c.Challenge, key) {
		return errorf("WAMP-CRA: genuine signature refused: %q", sig)
	}
	bad := append([]byte{}, want...)
	bad[c.Pos%32] ^= 1 << c.Bit
	for what, s := range map[string]string{
		"altered": base64.StdEncoding.EncodeToString(bad), "cut": base64.StdEncoding.EncodeToString(want[:c.Pos%32]),
		"extended": base64.StdEncoding.EncodeToString(append(want[:32:32], byte(c.Bit))),
		"cut text": sig[:c.Pos%len(sig)], "empty": "", "text": c.Other, "hex": hex.EncodeToString(want),
	} {
		if raw, err := base64.StdEncoding.DecodeString(s); err == nil && string(raw) == string(want) {
			continue
		}
		if auth.VerifyWAMPCRASignature(s, c.Challenge, key) {
			return errorf("WAMP-CRA: %s signature accepted: %q", what, s)
		}
	}
	if c.Other != c.Challenge && auth.VerifyWAMPCRASignature(sig, c.Other, key) {
		return errorf("WAMP-CRA: signature of another challenge accepted: %q", c.Other)
	}
	// HMAC pads keys with zeros to the block size
	if s := hmacOwn(other, []byte(c.Challenge)); string(s) != string(want) && auth.VerifyWAMPCRASignature(sig, c.Challenge, other) {
		return errorf("WAMP-CRA: signature of another key accepted: %x %x", key, other)
	}
	u := User{Secret: c.Secret, Salt: c.Salt, Iter: c.Iter, KeyLen: c.Len}
	iter, n := c.Iter, c.Len
	if iter <= 0 {
		iter = 1000
	}
	if n <= 0 {
		n = 32
	}
	derived := base64.StdEncoding.EncodeToString(pbkdf2Own([]byte(c.Secret), []byte(c.Salt), iter, n))
	if got := string(auth.DeriveWAMPCRAKey(c.Salt, c.Secret, c.Iter, c.Len)); got != derived {
		return errorf("WAMP-CRA derived key: is %q instead of %q (salt %q secret %q iterations %d length %d)", got, derived,
			c.Salt, c.Secret, c.Iter, c.Len)
	}
	if c.Iter < 0 || c.Len < 0 {
		return nil // a challenge cannot ask for that
	}
	num := func(i int) any {
		if r, ok := intKinds[c.NumKind]; ok && (int64(i) < r[0] || int64(i) > r[1]) {
			return i
		}
		v := V{K: c.NumKind, N: big.NewInt(int64(i)).String()}
		return v.Go()
	}
	extra := map[string]any{"challenge": c.Challenge}
	if c.Salt != "" {
		extra["salt"], extra["iterations"], extra["keylen"] = c.Salt, num(c.Iter), num(c.Len)
	}
	m, err := auth.NewWAMPCRAAuthenticator("x", c.Secret, nil).Authenticate(*messages.NewChallenge("wampcra", extra))
	if err != nil {
		return errorf("WAMP-CRA client fails: %v", err)
	}
	if p := u.proof("wampcra", c.Challenge); m.Signature() != p {
		return errorf("WAMP-CRA client signature: is %q instead of %q (%s)", m.Signature(), p, canon(extra))
	}
	return nil
}

type signCase struct {
	Seed      string `json:"seed"`
	OtherSeed string `json:"otherseed"`
	Challenge string `json:"challenge"` // hex
	Pos       int    `json:"pos"`
	Bit       int    `json:"bit"`
}

func gen32(t *rapid.T, name string) string {
	return hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, name))
}

// C11: cryptosign signatures.
func TestC11_CryptoSign(t *testing.T) {
	Check(t, Opt{Checks: 300, Rule: "seeds and challenges: cryptosign signatures of challenges of 0 to 100 bytes compared with " +
		"an independent Ed25519, verification with the genuine and with altered signatures (one bit, the other " +
		"representative of S, other message, other key); every case is non-trivial"},
		func(t *rapid.T) signCase {
			n := 32
			if chance(t, "anylen", 40) {
				n = between(t, "len", 0, 100)
			}
			return signCase{Seed: gen32(t, "seed"), OtherSeed: gen32(t, "other"),
				Challenge: hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "challenge")),
				Pos:       intn(t, "pos", 96), Bit: intn(t, "bit", 8)}
		}, runSign)
}

func runSign(c *signCase, r *Rec) error {
	r.NonTrivial()
	seed, ch := must(hex.DecodeString(c.Seed)), must(hex.DecodeString(c.Challenge))
	r.Label("challenge length 32: %v", len(ch) == 32)
	pub := edPublic(seed)
	priv := ed25519.PrivateKey(append(append([]byte{}, seed...), pub...))
	want := hex.EncodeToString(edSign(seed, ch)) + c.Challenge
	got, err := auth.SignCryptoSignChallenge(c.Challenge, priv)
	if err != nil {
		return errorf("cryptosign signature fails: %v for challenge %s", err, c.Challenge)
	}
	if got != want {
		return errorf("cryptosign signature: is %s instead of %s", got, want)
	}
	client, err := auth.NewCryptoSignAuthenticator("x", c.Seed, nil)
	if err != nil {
		return errorf("cryptosign client: %v", err)
	}
	if k, _ := client.AuthExtra()["pubkey"].(string); k != hex.EncodeToString(pub) {
		return errorf("cryptosign client public key: is %q instead of %x", k, pub)
	}
	m, err := client.Authenticate(*messages.NewChallenge("cryptosign", map[string]any{"challenge": c.Challenge}))
	if err != nil || m.Signature() != want {
		return errorf("cryptosign client signature: %v, %v instead of %s", m, err, want)
	}
	ok, err := auth.VerifyCryptoSignSignature(want, pub)
	if len(ch) != 32 {
		return nil // challenges are 32 bytes; others may be refused
	}
	if !ok || err != nil {
		return errorf("cryptosign: genuine signature refused: %s key %x: %v", want, pub, err)
	}
	raw := must(hex.DecodeString(want))
	alter := map[string][]byte{}
	alter["altered"] = append([]byte{}, raw...)
	alter["altered"][c.Pos] ^= 1 << c.Bit
	s := fromLE(append([]byte{}, raw[32:64]...))
	if s.Add(s, edL).BitLen() <= 256 {
		alter["other S"] = append(append(append([]byte{}, raw[:32]...), toLE(s)...), ch...)
	}
	alter["cut"], alter["extended"] = raw[:c.Pos], append(append([]byte{}, raw...), byte(c.Bit))
	alter["bare"] = raw[:64]
	alter["zero"] = append(make([]byte, 64), ch...)
	for what, b := range alter {
		if ok, _ := auth.VerifyCryptoSignSignature(hex.EncodeToString(b), pub); ok {
			return errorf("cryptosign: %s signature accepted: %x key %x", what, b, pub)
		}
	}
	if other := edPublic(must(hex.DecodeString(c.OtherSeed))); c.OtherSeed != c.Seed {
		if ok, _ := auth.VerifyCryptoSignSignature(want, other); ok {
			return errorf("cryptosign: signature accepted for another key: %x", other)
		}
	}
	bad := append([]byte{}, pub...)
	bad[c.Pos%32] ^= 1 << c.Bit
	if ok, _ := auth.VerifyCryptoSignSignature(want, bad); ok {
		return errorf("cryptosign: signature accepted for an altered key: %x", bad)
	}
	return nil
}

type junkCase struct {
	A string `json:"a"`
	B string `json:"b"`
	C string `json:"c"`
	N int    `json:"n"`
	M int    `json:"m"`
}

func genJunkText(t *rapid.T) string {
	switch between(t, "junk", 0, 4) {
	case 0:
		return genString(t)
	case 1, 2:
		n := pick(t, "len", 0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128)
		s := hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "raw"))
		if chance(t, "odd", 20) && s != "" {
			s = s[1:]
		}
		return s
	case 3:
		return base64.StdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "raw"))
	}
	return pick(t, "text", "zz", "0", "=", "====", "AAA", "{}", "null")
}

// C11: whatever is given to the functions, they return.
func TestC11_Junk(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "arbitrary texts and byte strings (hex, base64, odd lengths, unicode) as challenge, " +
		"signature, secret, salt, private and public key: no panic, what is not a 32-byte seed, 32-byte key or 64-byte " +
		"private key is refused, nothing is verified; every case is non-trivial"},
		func(t *rapid.T) junkCase {
			return junkCase{genJunkText(t), genJunkText(t), genJunkText(t), pick(t, "n", -1, 0, 1, 100, 5000),
				pick(t, "m", -1<<31, -1, 0, 1, 300)}
		},
		func(c *junkCase, r *Rec) error {
			r.NonTrivial()
			a, _ := hex.DecodeString(c.A)
			b, err := hex.DecodeString(c.B)
			client, err2 := auth.NewCryptoSignAuthenticator("x", c.B, nil)
			if (err != nil || len(b) != 32) != (err2 != nil) {
				return errorf("cryptosign private key: %q gives %v", c.B, err2)
			}
			if client != nil {
				_, _ = client.Authenticate(*messages.NewChallenge("cryptosign", map[string]any{"challenge": c.A}))
				if _, err := auth.NewCryptoSignAuthenticator("x", c.B, map[string]any{"pubkey": c.C}); err == nil &&
					hex.EncodeToString(edPublic(b)) != c.C {
					return errorf("cryptosign client accepts another public key: %q for %q", c.C, c.B)
				}
			}
			if ok, _ := auth.VerifyCryptoSignSignature(c.A, b); ok {
				return errorf("cryptosign: junk verifies: %q", c.A)
			}
			if ok, _ := auth.VerifyCryptoSignSignature(c.A, []byte(c.C)); ok {
				return errorf("cryptosign: junk verifies: %q", c.A)
			}
			if s, err := auth.SignCryptoSignChallenge(c.A, ed25519.PrivateKey(b)); err == nil && len(b) != 64 {
				return errorf("cryptosign: a key of %d bytes signs: %s", len(b), s)
			}
			if auth.VerifyWAMPCRASignature(c.A, c.B, a) {
				return errorf("WAMP-CRA: junk verifies: %q", c.A)
			}
			_ = auth.SignWAMPCRAChallenge(c.A, []byte(c.B))
			_ = auth.DeriveWAMPCRAKey(c.A, c.B, min(c.N, 50), c.M)
			for _, x := range []any{nil, c.A, 5, -1, 1.5, true, []any{}} {
				extra := map[string]any{"challenge": c.A, "salt": c.C, "iterations": x, "keylen": x}
				_, _ = auth.NewWAMPCRAAuthenticator(c.A, c.B, nil).Authenticate(*messages.NewChallenge("wampcra", extra))
				_, _ = auth.NewTicketAuthenticator(c.A, c.B, nil).Authenticate(*messages.NewChallenge("ticket", extra))
				extra["challenge"], extra["salt"] = x, x
				_, _ = auth.NewWAMPCRAAuthenticator(c.A, c.B, nil).Authenticate(*messages.NewChallenge("wampcra", extra))
				if client != nil {
					_, _ = client.Authenticate(*messages.NewChallenge("cryptosign", extra))
				}
			}
			return nil
		})
}

type generatedCase struct {
	Session  uint64 `json:"session"`
	AuthID   string `json:"authid"`
	Role     string `json:"role"`
	Provider string `json:"provider"`
	N        int    `json:"n"`
}

var (
	generatedMu sync.Mutex
	generated   = map[string]bool{}
)

// fresh says whether a generated text is new to this process.
func fresh(kind, s string) bool {
	generatedMu.Lock()
	defer generatedMu.Unlock()
	k := kind + " " + s
	if generated[k] {
		return false
	}
	generated[k] = true
	return true
}

// C11: what is generated is well formed and new.
func TestC11_Generated(t *testing.T) {
	Check(t, Opt{Checks: 300, Rule: "batches of generated challenges and key pairs: form, the public key by an independent " +
		"Ed25519, the fields of WAMP-CRA challenges, and no repetition within the process; every case is non-trivial"},
		func(t *rapid.T) generatedCase {
			return generatedCase{genID(t), genString(t), genShortString(t), genShortString(t), between(t, "n", 1, 40)}
		},
		func(c *generatedCase, r *Rec) error {
			r.NonTrivial()
			r.Evals(3 * c.N)
			for i := 0; i < c.N; i++ {
				ch, err := auth.GenerateCryptoSignChallenge()
				if err != nil {
					return errorf("cryptosign challenge: %v", err)
				}
				if raw, err := hex.DecodeString(ch); err != nil || len(raw) != 32 {
					return errorf("cryptosign challenge is malformed: %q", ch)
				}
				if !fresh("challenge", ch) {
					return errorf("cryptosign challenge repeats: %q", ch)
				}
				pub, priv, err := auth.GenerateCryptoSignKeyPair()
				if err != nil {
					return errorf("key pair: %v", err)
				}
				seed, err := hex.DecodeString(priv)
				if err != nil || len(seed) != 32 {
					return errorf("private key is malformed: %q", priv)
				}
				if i < 2 && pub != hex.EncodeToString(edPublic(seed)) {
					return errorf("key pair does not match: %q %q", pub, priv)
				}
				if k, err := hex.DecodeString(pub); err != nil || len(k) != 32 {
					return errorf("public key is malformed: %q", pub)
				}
				if !fresh("key", priv) || !fresh("key", pub) {
					return errorf("key pair repeats: %q", priv)
				}
				before := time.Now()
				text, err := auth.GenerateWAMPCRAChallenge(c.Session, c.AuthID, c.Role, c.Provider)
				if err != nil {
					return errorf("WAMP-CRA challenge: %v", err)
				}
				var f struct {
					Nonce, Authprovider, Authid, Timestamp, Authrole, Authmethod string
					Session                                                      uint64
				}
				if err := json.Unmarshal([]byte(text), &f); err != nil {
					return errorf("WAMP-CRA challenge is malformed: %v: %q", err, text)
				}
				if f.Authid != c.AuthID || f.Authrole != c.Role || f.Authprovider != c.Provider || f.Session != c.Session ||
					f.Authmethod != "wampcra" {
					return errorf("WAMP-CRA challenge names something else: %q for %q %q %q %d", text, c.AuthID, c.Role, c.Provider,
						c.Session)
				}
				at, err := time.Parse("2006-01-02T15:04:05Z0700", f.Timestamp)
				if err != nil || at.Before(before.Add(-time.Minute)) || at.After(time.Now().Add(time.Minute)) {
					return errorf("WAMP-CRA challenge timestamp: %q (%v) at %v", f.Timestamp, err, before)
				}
				if len(f.Nonce) < 8 || !fresh("nonce", f.Nonce) {
					return errorf("WAMP-CRA nonce repeats or is too short: %q", f.Nonce)
				}
			}
			return nil
		})
}
