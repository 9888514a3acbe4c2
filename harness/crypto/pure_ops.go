package crypto

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"
)

func oBytes(n, a int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + a*31)
	}
	return b
}

func oSecret(i int) (s SecretKey) {
	copy(s[:], Keccak([]byte(fmt.Sprintf("verif pure %d", i))))
	s[31] &= 0x0f
	return
}

func oPublic(i int) PublicKey {
	s := oSecret(i)
	p, err := PublicFromSecret(&s)
	if err != nil {
		panic(err)
	}
	return *p
}

func oList(n, a int) HashList {
	l := HashList{}
	for i := 0; i < n; i++ {
		l = append(l, HashFromBytes([]byte{byte(i), byte(a)}))
	}
	return l
}

// oTell prints results and arguments, the latter to see that they are as before.
func oTell(xs ...interface{}) string { return fmt.Sprintf("%x", xs) }

type oFixed struct {
	pubs  []PublicKey
	image KeyImage
	sigs  []Signature
	sig   Signature
}

func oFix(a int) (f oFixed) {
	for i := 0; i < 2+a; i++ {
		f.pubs = append(f.pubs, oPublic(10*a+i))
	}
	sec := oSecret(10*a + 1)
	im, err := GenerateKeyImage(&f.pubs[1], &sec)
	if err != nil {
		panic(err)
	}
	f.image = *im
	h := HashFromBytes([]byte{byte(a)})
	if f.sigs, err = GenerateRingSignature(&h, &f.image, &f.pubs, &sec, 1); err != nil {
		panic(err)
	}
	s, err := h.Sign(&sec)
	if err != nil {
		panic(err)
	}
	f.sig = *s
	return f
}

func TestVerifPureCrypto(t *testing.T) {
	var fixed [4]oFixed
	for a := 1; a < 4; a++ {
		fixed[a] = oFix(a)
	}
	copyOf := func(a int) oFixed {
		f := fixed[a]
		f.pubs = append([]PublicKey(nil), f.pubs...)
		f.sigs = append([]Signature(nil), f.sigs...)
		return f
	}
	l := EllipticCurveScalar(L)
	pureRun(t, []pureOp{
		{"Keccak", func(a int) string { b := oBytes(a*90, a); return oTell(Keccak(b), b) }},
		{"HashFromBytes", func(a int) string {
			b := oBytes(a*137, a)
			var h Hash
			h.FromBytes(b)
			return oTell(HashFromBytes(b), h, h.String(), b)
		}},
		{"MerkleRootHash", func(a int) string { x := oList(a*3+2, a); return oTell(*x.MerkleRootHash(), x) }},
		{"TreeHashFromBranch", func(a int) string {
			x := oList(a*2, a)
			return oTell(x.TreeHashFromBranch(HashFromBytes([]byte{9})), x)
		}},
		{"HashList", func(a int) string {
			x := oList(6, a)
			h, no := x[a], Hash{1}
			s := oTell(x.Has(&h), x.Has(&no), x.Index(&h))
			x.Remove(&h)
			return s + oTell(x, h)
		}},
		{"Hash.Read", func(a int) string {
			var h Hash
			err := h.Read(bytes.NewReader(oBytes(32, a)))
			return oTell(h, err, h.Read(bytes.NewReader(oBytes(31, a))) != nil)
		}},
		{"Sign", func(a int) string {
			h, s, p := HashFromBytes([]byte{byte(a)}), oSecret(a), oPublic(a)
			sig, err := h.Sign(&s)
			if err != nil {
				return err.Error()
			}
			return oTell(sig.Check(&h, &p), h, s, p)
		}},
		{"Check", func(a int) string {
			f, h, no := copyOf(a), HashFromBytes([]byte{byte(a)}), Hash{}
			return oTell(f.sig.Check(&h, &f.pubs[1]), f.sig.Check(&no, &f.pubs[1]), f.sig.Check(&h, &f.pubs[0]), f.sig, h)
		}},
		{"GenerateRingSignature", func(a int) string {
			f, h, s := copyOf(a), Hash{byte(a)}, oSecret(10*a+1)
			sigs, err := GenerateRingSignature(&h, &f.image, &f.pubs, &s, 1)
			if err != nil {
				return err.Error()
			}
			return oTell(CheckRingSignature(&h, &f.image, &f.pubs, &sigs, true), f.pubs, h, s, f.image)
		}},
		{"CheckRingSignature", func(a int) string {
			f, h, no := copyOf(a), HashFromBytes([]byte{byte(a)}), Hash{}
			return oTell(CheckRingSignature(&h, &f.image, &f.pubs, &f.sigs, true), CheckRingSignature(&no, &f.image, &f.pubs, &f.sigs, false), f)
		}},
		{"GenerateKeyDerivation", func(a int) string {
			d, err := GenerateKeyDerivation(oPublic(a), oSecret(a+5))
			return oTell(*d, err)
		}},
		{"derive", oDerive},
		{"GenerateKeyImage", func(a int) string {
			s, p := oSecret(a), oPublic(a)
			im, err := GenerateKeyImage(&p, &s)
			return oTell(*im, err, s, p)
		}},
		{"ScalarMult", func(a int) string {
			im, k := fixed[a].image, KeyImage(l)
			r, err := im.ScalarMult(&k)
			return oTell(*r, err, im, k)
		}},
		{"PublicFromSecret", func(a int) string {
			s := oSecret(a)
			p, err := PublicFromSecret(&s)
			bad := SecretKey(l)
			_, e := PublicFromSecret(&bad)
			return oTell(*p, err, e != nil, s)
		}},
		{"PublicKey.Check", func(a int) string {
			p, bad := oPublic(a), PublicKey(HashFromBytes([]byte{byte(a), 1}))
			q := EllipticCurvePoint(p)
			return oTell(p.Check(), bad.Check(), q.Check(), p, bad)
		}},
		{"ViewFromSpend", func(a int) string { s := oSecret(a); return oTell(ViewFromSpend(&s), s) }},
		{"GenerateKey", func(a int) string {
			s, err := GenerateKey()
			if err != nil {
				return err.Error()
			}
			p, err := PublicFromSecret(&s)
			return oTell(err, p.Check(), s != SecretKey{}, RandomScalar() != RandomScalar())
		}},
		{"Signature bytes", func(a int) string {
			b := oBytes(64, a)
			var s Signature
			err := s.Deserialize(bytes.NewReader(b))
			o, e := s.Serialize()
			return hex.EncodeToString(o) + oTell(err, e, b)
		}},
	}, 3)
}
