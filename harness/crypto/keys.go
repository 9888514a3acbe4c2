package harness

import (
	"encoding/json"
	"math/big"
	"testing"
)

type kCase struct {
	Q struct {
		Op string  `json:"op"`
		A  big.Int `json:"a"`
	} `json:"q"`
	Ok      bool    `json:"ok"`
	R       big.Int `json:"r"`
	Address bool    `json:"address"`
}

func TestVerifKeys(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	seen := map[SecretKey]bool{}
	ones, zeros := new(big.Int), new(big.Int)
	full := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 252), big.NewInt(1))
	fresh := 0
	n := 0
	vCases(t, func(line []byte) {
		var c kCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		raw := json.RawMessage(append([]byte{}, line...))
		rep.eval(string(line))
		rep.trace()
		n++
		if n%401 == 1 {
			rep.sample(raw)
		}
		a := cScalar(&c.Q.A)
		switch c.Q.Op {
		case "check":
			k, e := PublicKey(a), EllipticCurvePoint(a)
			var g, h bool
			if p := vTry(func() { g, h = k.Check(), e.Check() }); p != "" {
				rep.violation("panic:check", raw, "checking a key panics: %s", p)
			} else if g != c.Ok || h != c.Ok {
				rep.violation("check", raw, "the key is on the curve: %v, as a point %v, expected %v", g, h, c.Ok)
			}
		case "public":
			s := SecretKey(a)
			var pk *PublicKey
			var err error
			if p := vTry(func() { pk, err = PublicFromSecret(&s) }); p != "" {
				rep.violation("panic:public", raw, "the public key panics: %s", p)
			} else if (err == nil) != c.Ok {
				rep.violation("public-verdict", raw, "a public key for this secret: %v, expected %v", err, c.Ok)
			} else if c.Ok && (*pk != PublicKey(cScalar(&c.R)) || s != SecretKey(a)) {
				rep.violation("public", raw, "the public key is %x, expected %x", *pk, cScalar(&c.R))
			}
		case "view":
			// any secret key of the specification gives some hash, reduced as it says
			s := SecretKey(a)
			var v SecretKey
			if p := vTry(func() { v = ViewFromSpend(&s) }); p != "" {
				rep.violation("panic:view", raw, "the view key panics: %s", p)
			} else if want := SecretKey(cScalar(cHs(a[:]))); v != want {
				rep.violation("view", raw, "the view key is %x, expected %x", v, want)
			} else if _, err := PublicFromSecret(&v); err != nil {
				rep.violation("view-invalid", raw, "the view key has no public key: %v", err)
			}
		case "new":
			s, err := GenerateKey()
			r := SecretKey(RandomScalar())
			for _, x := range []SecretKey{s, r} {
				i := cInt(x)
				if err != nil || i.Sign() == 0 || i.Cmp(cL) >= 0 {
					rep.violation("new", raw, "a new key is %x, error %v", x, err)
				}
				if seen[x] {
					rep.violation("new-twice", raw, "the key %x was generated twice", x)
				}
				seen[x] = true
				fresh++
				ones.Or(ones, i)
				zeros.Or(zeros, new(big.Int).AndNot(full, i))
			}
		default:
			rep.fail("operation %q", c.Q.Op)
		}
	})
	// every bit below the order takes both values: that a bit does not in 60 keys has probability 2^-59
	if fresh >= 60 {
		o := new(big.Int).And(ones, full)
		if o.Cmp(full) != 0 || zeros.Cmp(full) != 0 {
			rep.violation("new-narrow", nil, "of %d new keys some bits never change: ones %x zeros %x", fresh, ones, zeros)
		}
	}
}
