package harness

// Ed25519 by RFC 8032, in plain big-integer arithmetic: slow, and independent
// of the implementation the code under test uses.

import (
	"bytes"
	"crypto/sha512"
	"math/big"
)

var (
	edP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edL = func() *big.Int {
		c, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return c.Add(c, new(big.Int).Lsh(big.NewInt(1), 252))
	}()
	edD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), edP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, edP)
	}()
	edB = func() edPoint {
		y := new(big.Int).ModInverse(big.NewInt(5), edP)
		y.Mul(y, big.NewInt(4)).Mod(y, edP)
		return edAffine(edRecover(y, 0), y)
	}()
)

// edPoint is in extended coordinates.
type edPoint struct{ x, y, z, t *big.Int }

func edAffine(x, y *big.Int) edPoint {
	t := new(big.Int).Mul(x, y)
	return edPoint{x, y, big.NewInt(1), t.Mod(t, edP)}
}

func mulP(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, edP)
}

func subP(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, edP)
}

func addP(a, b *big.Int) *big.Int {
	r := new(big.Int).Add(a, b)
	return r.Mod(r, edP)
}

func edAdd(p, q edPoint) edPoint {
	a := mulP(subP(p.y, p.x), subP(q.y, q.x))
	b := mulP(addP(p.y, p.x), addP(q.y, q.x))
	c := mulP(mulP(p.t, q.t), addP(edD, edD))
	d := mulP(p.z, addP(q.z, q.z))
	e, f, g, h := subP(b, a), subP(d, c), addP(d, c), addP(b, a)
	return edPoint{mulP(e, f), mulP(g, h), mulP(f, g), mulP(e, h)}
}

func edMul(k *big.Int, p edPoint) edPoint {
	q := edPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		q = edAdd(q, q)
		if k.Bit(i) == 1 {
			q = edAdd(q, p)
		}
	}
	return q
}

// edRecover is the x of a y with the given sign, or nil.
func edRecover(y *big.Int, sign uint) *big.Int {
	if y.Cmp(edP) >= 0 {
		return nil
	}
	yy := mulP(y, y)
	x2 := mulP(subP(yy, big.NewInt(1)), new(big.Int).ModInverse(addP(mulP(edD, yy), big.NewInt(1)), edP))
	x := new(big.Int).ModSqrt(x2, edP)
	if x == nil || x.Sign() == 0 && sign == 1 {
		return nil
	}
	if x.Bit(0) != sign {
		x.Sub(edP, x)
	}
	return x
}

func fromLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(n *big.Int) []byte {
	r := n.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		r[i], r[31-i] = r[31-i], r[i]
	}
	return r
}

func edEncode(p edPoint) []byte {
	zi := new(big.Int).ModInverse(p.z, edP)
	x, y := mulP(p.x, zi), mulP(p.y, zi)
	out := toLE(y)
	out[31] |= byte(x.Bit(0)) << 7
	return out
}

func edSecret(seed []byte) (*big.Int, []byte) {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return fromLE(h[:32]), h[32:]
}

func edPublic(seed []byte) []byte {
	a, _ := edSecret(seed)
	return edEncode(edMul(a, edB))
}

func edHash(parts ...[]byte) *big.Int {
	h := sha512.Sum512(bytes.Join(parts, nil))
	n := fromLE(h[:])
	return n.Mod(n, edL)
}

func edSign(seed, msg []byte) []byte {
	a, prefix := edSecret(seed)
	pub := edEncode(edMul(a, edB))
	r := edHash(prefix, msg)
	rb := edEncode(edMul(r, edB))
	s := new(big.Int).Mul(edHash(rb, pub, msg), a)
	s.Add(s, r).Mod(s, edL)
	return append(rb, toLE(s)...)
}

func edVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	y := append([]byte{}, pub...)
	sign := uint(y[31] >> 7)
	y[31] &= 127
	yi := fromLE(y)
	x := edRecover(yi, sign)
	s := fromLE(sig[32:])
	if x == nil || s.Cmp(edL) >= 0 {
		return false
	}
	// R = s*B - h*A, compared in encoded form as the common implementations do
	negA := edAffine(subP(big.NewInt(0), x), yi)
	return bytes.Equal(edEncode(edAdd(edMul(s, edB), edMul(edHash(sig[:32], pub, msg), negA))), sig[:32])
}
