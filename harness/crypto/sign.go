package crypto

import (
	"bytes"
	"encoding/json"
	"math/big"
	"testing"
)

func TestVerifSign(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	var p struct{ Rounds int }
	vParams(&p)
	type scase struct {
		Sig struct{ K, Sk string }
		Sc  struct{ M, Pub, C, R string }
		V   string
	}
	all := map[[2]string][]scase{}
	vCases(t, func(line []byte) {
		var c scase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		k := [2]string{c.Sig.K, c.Sig.Sk}
		all[k] = append(all[k], c)
	})
	rand32 := func(zero bool) (h Hash) {
		if !zero {
			_, _ = rnd.Read(h[:])
		}
		return
	}
	// sign computes a signature with a given nonce, independently of the code
	sign := func(h Hash, a, k *big.Int) Signature {
		pub, comm := cG.mul(a).bytes(), cG.mul(k).bytes()
		c := cHs(h[:], pub[:], comm[:])
		return Signature{cScalar(c), cScalar(cReduce(new(big.Int).Sub(k, new(big.Int).Mul(c, a))))}
	}
	one := big.NewInt(1)
	for round := 0; round < p.Rounds; round++ {
		for key, cases := range all {
			if rep.full() {
				return
			}
			a, b := cSecret(key[1], rnd), cSecret("reduced", rnd)
			for a.Cmp(b) == 0 || new(big.Int).Add(a, b).Cmp(cL) == 0 {
				b = cReduce(cInt(rand32(false)))
			}
			msg, other := rand32(round == 0), rand32(false)
			if round%2 == 1 {
				other = msg
				other[rnd.Intn(32)] ^= 1 << uint(rnd.Intn(8))
			}
			sec := SecretKey(cScalar(a))
			var own, again, foreign Signature
			var made *Signature
			var err error
			if s := vTry(func() { made, err = msg.Sign(&sec) }); s != "" {
				rep.violation("panic", key, "signing panics: %s", s)
				continue
			}
			pubOwn := PublicKey(cG.mul(a).bytes())
			pub, perr := PublicFromSecret(&sec)
			rep.eval("sign" + vHex(sec[:]))
			rep.trace()
			refused := cases[0].V == "refused"
			if (err != nil) != refused || (perr != nil) != refused {
				rep.violation("secret", vHex(sec[:]), "a secret key that is %s is refused: %v for signing, %v for its public key", key[1], err != nil, perr != nil)
				continue
			}
			if refused {
				continue
			}
			if *pub != pubOwn {
				rep.violation("public", vHex(sec[:]), "the public key of a secret key is %x, not %x", *pub, pubOwn)
				continue
			}
			own = *made
			if key[0] == "zero" {
				own = sign(msg, a, big.NewInt(0))
			}
			again = sign(msg, a, cReduce(cInt(rand32(false))))
			foreign = sign(msg, b, cReduce(cInt(rand32(false))))
			if again == own {
				continue
			}
			// a signature keeps its bytes
			enc, _ := own.Serialize()
			var back Signature
			if err := back.Deserialize(bytes.NewReader(enc)); err != nil || back != own || !bytes.Equal(enc, append(append([]byte{}, own.C[:]...), own.R[:]...)) {
				rep.violation("bytes", vHex(enc), "a signature is not its challenge followed by its response")
			}
			part := func(kind string, own, swapped, again, foreign EllipticCurveScalar) EllipticCurveScalar {
				n := cInt(own)
				switch kind {
				case "own":
					return own
				case "plus1":
					return cScalar(cReduce(new(big.Int).Add(n, one)))
				case "minus1":
					return cScalar(cReduce(new(big.Int).Sub(n, one)))
				case "negated":
					return cScalar(cReduce(new(big.Int).Neg(n)))
				case "unreduced":
					return cScalar(new(big.Int).Add(n, cL))
				case "zero":
					return EllipticCurveScalar{}
				case "order":
					return cScalar(cL)
				case "swapped":
					return swapped
				case "again":
					return again
				case "foreign":
					return foreign
				case "max":
					return cScalar(cSecret("max", rnd))
				}
				panic(kind)
			}
			keys := map[string]PublicKey{"own": pubOwn, "other": cG.mul(b).bytes(), "negated": cG.mul(a).neg().bytes(), "identity": cO.bytes(), "off": cOff(round)}
			for i := 1; i < 8; i++ {
				keys["low"+string(rune('0'+i))] = cG.mul(a).add(cLow(i)).bytes()
			}
			for _, c := range cases {
				h := msg
				if c.Sc.M == "other" {
					h = other
				}
				k := keys[c.Sc.Pub]
				s := Signature{part(c.Sc.C, own.C, own.R, again.C, foreign.C), part(c.Sc.R, own.R, own.C, again.R, foreign.R)}
				var got bool
				h0, k0, s0 := h, k, s
				if e := vTry(func() { got = s.Check(&h, &k) }); e != "" {
					rep.violation("panic", c, "checking a signature panics: %s", e)
					continue
				}
				rep.eval(vHex(s.C[:]) + vHex(s.R[:]) + vHex(k[:]) + vHex(h[:]))
				if got != (c.V == "valid") || h0 != h || k0 != k || s0 != s {
					rep.violation("check", map[string]interface{}{"case": c, "secret": vHex(sec[:]), "hash": vHex(h[:]), "key": vHex(k[:]), "c": vHex(s.C[:]), "r": vHex(s.R[:])},
						"a signature that is %s for hash %s, key %s, challenge %s, response %s is accepted: %v", c.V, c.Sc.M, c.Sc.Pub, c.Sc.C, c.Sc.R, got)
				}
			}
			rep.sample(map[string]string{"secret": vHex(sec[:]), "hash": vHex(msg[:])})
		}
	}
}
