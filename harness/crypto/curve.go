package harness

import (
	"fmt"
	"math/big"
)

// The curve, computed with plain integers, independently of the code.

func cBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

var (
	cP  = cBig("57896044618658097711785492504343953926634992332820282019728792003956564819949")
	cL  = cBig("7237005577332262213973186563042994240857116359379907606001950938285454250989")
	cD  = cMod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), cP)))
	cG  = cDecode(cFix("5866666666666666666666666666666666666666666666666666666666666666"))
	cT8 = cDecode(cFix("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05")) // a point of order 8
	cO  = &cPt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
)

func cFix(s string) (r [32]byte) {
	copy(r[:], vUnhex(s))
	return
}

func cMod(n *big.Int) *big.Int { return n.Mod(n, cP) }

type cPt struct{ x, y, z, t *big.Int }

func cMulF(a, b *big.Int) *big.Int { return cMod(new(big.Int).Mul(a, b)) }
func cAddF(a, b *big.Int) *big.Int { return cMod(new(big.Int).Add(a, b)) }
func cSubF(a, b *big.Int) *big.Int { return cMod(new(big.Int).Sub(a, b)) }

func (p *cPt) add(q *cPt) *cPt {
	a := cMulF(cSubF(p.y, p.x), cSubF(q.y, q.x))
	b := cMulF(cAddF(p.y, p.x), cAddF(q.y, q.x))
	c := cMulF(cMulF(p.t, q.t), cAddF(cD, cD))
	d := cMulF(cAddF(p.z, p.z), q.z)
	e, f, g, h := cSubF(b, a), cSubF(d, c), cAddF(d, c), cAddF(b, a)
	return &cPt{cMulF(e, f), cMulF(g, h), cMulF(f, g), cMulF(e, h)}
}

func (p *cPt) neg() *cPt { return &cPt{cSubF(big.NewInt(0), p.x), p.y, p.z, cSubF(big.NewInt(0), p.t)} }

// mul multiplies by any integer, not only by those below the order.
func (p *cPt) mul(n *big.Int) *cPt {
	if n.Sign() < 0 {
		return p.neg().mul(new(big.Int).Neg(n))
	}
	r := cO
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if n.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p *cPt) bytes() (b [32]byte) {
	zi := new(big.Int).ModInverse(p.z, cP)
	x, y := cMulF(p.x, zi), cMulF(p.y, zi)
	b = cScalar(y)
	b[31] |= byte(x.Bit(0)) << 7
	return
}

// cDecode gives the point of an encoding, nil if there is none.
func cDecode(b [32]byte) *cPt {
	sign := uint(b[31] >> 7)
	b[31] &= 0x7f
	y := cInt(b)
	yy := cMulF(y, y)
	u, v := cSubF(yy, big.NewInt(1)), cAddF(cMulF(cD, yy), big.NewInt(1))
	x := new(big.Int).ModSqrt(cMulF(u, new(big.Int).ModInverse(v, cP)), cP)
	if x == nil || (x.Sign() == 0 && sign == 1) {
		return nil
	}
	if x.Bit(0) != sign {
		x = cSubF(big.NewInt(0), x)
	}
	return &cPt{x, cMod(y), big.NewInt(1), cMulF(x, y)}
}

func cInt(b [32]byte) *big.Int {
	var be [32]byte
	for i := range b {
		be[31-i] = b[i]
	}
	return new(big.Int).SetBytes(be[:])
}

// cScalar writes an integer below 2^256.
func cScalar(n *big.Int) (b [32]byte) {
	be := n.Bytes()
	for i := range be {
		b[len(be)-1-i] = be[i]
	}
	return
}

func cReduce(n *big.Int) *big.Int { return new(big.Int).Mod(n, cL) }

// cHs is the hash of bytes as a scalar.
func cHs(parts ...[]byte) *big.Int {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	var h [32]byte
	copy(h[:], Keccak(all))
	return cReduce(cInt(h))
}

// cSecret is the i-th secret key: the edges first, then any.
func cSecret(kind string, rnd interface{ Read([]byte) (int, error) }) *big.Int {
	var b [32]byte
	_, _ = rnd.Read(b[:])
	switch kind {
	case "one":
		return big.NewInt(1)
	case "last":
		return new(big.Int).Sub(cL, big.NewInt(1))
	case "order":
		return new(big.Int).Set(cL)
	case "plus":
		return new(big.Int).Add(cL, cReduce(cInt(b)))
	case "max":
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	case "reduced":
		switch b[0] % 8 {
		case 0:
			return big.NewInt(int64(b[1]) + 2)
		case 1:
			return new(big.Int).Sub(cL, big.NewInt(int64(b[1])+2))
		case 2:
			return new(big.Int).Lsh(big.NewInt(int64(b[1])+1), uint(b[2])%240)
		}
		return cReduce(cInt(b))
	}
	panic(kind)
}

// cOff is not the encoding of a point.
func cOff(i int) [32]byte {
	for k := 0; ; k++ {
		var b [32]byte
		copy(b[:], Keccak([]byte(fmt.Sprintf("off %d %d", i, k))))
		if cDecode(b) == nil {
			return b
		}
	}
}

func cLow(i int) *cPt { return cT8.mul(big.NewInt(int64(i))) }
