package harness

import (
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"math/rand"
	"testing"
)

// The reference implementations agree with the standard library.
func TestSelf_Crypto(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 20; i++ {
		seed := make([]byte, 32)
		r.Read(seed)
		msg := make([]byte, r.Intn(100))
		r.Read(msg)
		sk := ed25519.NewKeyFromSeed(seed)
		if string(sk[32:]) != string(edPublic(seed)) || string(ed25519.Sign(sk, msg)) != string(edSign(seed, msg)) ||
			!edVerify(sk[32:], msg, edSign(seed, msg)) || edVerify(sk[32:], append(msg, 1), edSign(seed, msg)) {
			t.Fatal("ed25519")
		}
		h := hmac.New(sha256.New, seed)
		h.Write(msg)
		if string(h.Sum(nil)) != string(hmacOwn(seed, msg)) {
			t.Fatal("hmac")
		}
	}
	if hex.EncodeToString(pbkdf2Own([]byte("password"), []byte("salt"), 2, 32)) !=
		"ae4d0c95af6b46d32d0adff928f06dd02a303f8ef3c251dfd6e2d85a95474c43" {
		t.Fatal("pbkdf2")
	}
}
