package crypto

import (
	"encoding/binary"
	"encoding/json"
	"math"
	"math/big"
	"testing"
)

type dMono struct {
	Atoms []struct {
		A string
		E int
	}
	C int64
}

func (m *dMono) UnmarshalJSON(d []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(d, &raw); err != nil {
		return err
	}
	var as [][]json.RawMessage
	if err := json.Unmarshal(raw[0], &as); err != nil {
		return err
	}
	for _, a := range as {
		var x struct {
			A string
			E int
		}
		_ = json.Unmarshal(a[0], &x.A)
		_ = json.Unmarshal(a[1], &x.E)
		m.Atoms = append(m.Atoms, x)
	}
	return json.Unmarshal(raw[1], &m.C)
}

type dPoly []dMono

func (p dPoly) eval(atom func(string) *big.Int) *big.Int {
	r := new(big.Int)
	for _, m := range p {
		x := big.NewInt(m.C)
		for _, a := range m.Atoms {
			for i := 0; i < a.E; i++ {
				x.Mul(x, atom(a.A))
			}
		}
		r.Add(r, x)
	}
	return cReduce(r)
}

type dLin struct {
	Base string
	P    dPoly
}

func (l *dLin) UnmarshalJSON(d []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(d, &raw); err != nil {
		return err
	}
	_ = json.Unmarshal(raw[0], &l.Base)
	return json.Unmarshal(raw[1], &l.P)
}

func dPoint(ls []dLin, atom func(string) *big.Int, base func(string) *cPt) [32]byte {
	r := cO
	for _, l := range ls {
		r = r.add(base(l.Base).mul(l.P.eval(atom)))
	}
	return r.bytes()
}

type dCase struct {
	O struct {
		R, W, I string
		T       int
	}
	D, P, S, Im []dLin
	X           dPoly
	Term        struct{ D, P, X, Im string }
	Low         [][][]json.RawMessage
}

func TestVerifDerive(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	var p struct {
		Rounds int
		What   string
	}
	vParams(&p)
	var cases []dCase
	vCases(t, func(line []byte) {
		var c dCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		cases = append(cases, c)
	})
	for round := 0; round < p.Rounds && !rep.full(); round++ {
		atoms := map[string]*big.Int{}
		fresh := map[string]bool{}
		atom := func(a string) *big.Int {
			for atoms[a] == nil {
				x := cSecret("reduced", rnd)
				if !fresh[x.String()] && x.Sign() != 0 {
					fresh[x.String()], atoms[a] = true, x
				}
			}
			return atoms[a]
		}
		// the same term gives the same bytes, different terms different bytes
		byTerm := map[string][32]byte{}
		byBytes := map[[32]byte]string{}
		same := func(what, term string, b [32]byte, c interface{}) {
			rep.eval(what + vHex(b[:]))
			term = what + term
			if o, ok := byTerm[term]; ok && o != b {
				rep.violation(what, c, "the same %s comes out differently", what)
			}
			if o, ok := byBytes[b]; ok && o != term {
				rep.violation(what, c, "different transactions, receivers or outputs give the same %s", what)
			}
			byTerm[term], byBytes[b] = b, term
		}
		for _, c := range cases {
			if rep.full() {
				return
			}
			rep.trace()
			var idx uint64
			switch c.O.I {
			case "max":
				idx = math.MaxUint64
			case "max32":
				idx = math.MaxUint32 + 1
			default:
				if err := json.Unmarshal([]byte(c.O.I), &idx); err != nil {
					t.Fatal(err)
				}
			}
			r, v, s := atom(c.O.R), atom("v"+c.O.W), atom("s"+c.O.W)
			info := map[string]interface{}{"tx": r.String(), "view": v.String(), "spend": s.String(), "index": idx, "low": c.O.T}
			V, S := PublicKey(cG.mul(v).bytes()), PublicKey(cG.mul(s).bytes())
			R := PublicKey(cG.mul(r).add(cLow(c.O.T)).bytes())
			wantD := dPoint(c.D, atom, func(string) *cPt { return cG })
			var ib [10]byte
			h := cHs(wantD[:], ib[:binary.PutUvarint(ib[:], idx)])
			at := func(a string) *big.Int {
				if len(a) > 2 && a[:2] == "Hs" {
					return h
				}
				return atom(a)
			}
			g := func(string) *cPt { return cG }
			wantP, wantS := dPoint(c.P, at, g), dPoint(c.S, at, g)
			x := c.X.eval(at)
			var d1, d2 *KeyDerivation
			var e1, e2, e3, e4, e5 error
			var pub, undone *PublicKey
			var sec *SecretKey
			spendSec := PublicKey(cScalar(s)) // the base of a secret key is passed in the same type
			if e := vTry(func() {
				d1, e1 = GenerateKeyDerivation(V, SecretKey(cScalar(r)))
				d2, e2 = GenerateKeyDerivation(R, SecretKey(cScalar(v)))
				pub, e3 = d1.derivePublicKey(idx, &S)
				sec, e4 = d2.deriveSecretKey(idx, &spendSec)
				if pub != nil {
					undone, e5 = d2.underivePublicKey(idx, pub)
				}
			}); e != "" || e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
				rep.violation("fails", info, "keys of an output cannot be derived: %v %v %v %v %v %s", e1, e2, e3, e4, e5, e)
				continue
			}
			if p.What == "K03" {
				if *d1 != *d2 || [32]byte(*d1) != wantD {
					rep.violation("derivation", info, "sender and receiver derive %x and %x, not %x", *d1, *d2, wantD)
				}
				if [32]byte(*pub) != wantP || [32]byte(*sec) != cScalar(x) {
					rep.violation("onetime", info, "the one-time keys are %x and %x, not %x and %x", *pub, *sec, wantP, cScalar(x))
				}
				if [32]byte(*undone) != wantS || *undone != S {
					rep.violation("undone", info, "undoing the derivation gives %x, not %x", *undone, wantS)
				}
				if q, err := PublicFromSecret(sec); err != nil || *q != *pub {
					rep.violation("pair", info, "the one-time secret is not that of the one-time public key")
				}
				same("derivation", c.Term.D, *d1, info)
				same("one-time public key", c.Term.P, *pub, info)
				same("one-time secret key", c.Term.X, *sec, info)
				// what is no key is refused
				off, unred := PublicKey(cOff(rnd.Int())), SecretKey(cScalar(new(big.Int).Add(v, cL)))
				for _, k := range []SecretKey{unred, cScalar(cL), cScalar(cSecret("max", rnd))} {
					kp := PublicKey(k)
					_, e1 = GenerateKeyDerivation(R, k)
					_, e2 = d1.deriveSecretKey(idx, &kp)
					_, e3 = PublicFromSecret(&k)
					if e1 == nil || e2 == nil || e3 == nil {
						rep.violation("unreduced", vHex(k[:]), "a secret key that is not reduced is refused: %v %v %v", e1 != nil, e2 != nil, e3 != nil)
					}
				}
				_, e1 = GenerateKeyDerivation(off, SecretKey(cScalar(v)))
				_, e2 = d1.derivePublicKey(idx, &off)
				_, e3 = d1.underivePublicKey(idx, &off)
				if e1 == nil || e2 == nil || e3 == nil || off.Check() || !pub.Check() || !R.Check() {
					rep.violation("off", vHex(off[:]), "what is not a point is refused: %v %v %v", e1 != nil, e2 != nil, e3 != nil)
				}
				rep.sample(info)
				continue
			}
			// key images
			onetime := PublicKey(wantP)
			xs := SecretKey(cScalar(x))
			ph := HashFromBytes(onetime[:])
			hp, err := ph.toPoint()
			if err != nil {
				rep.violation("hp", info, "a key is not hashed to a point: %v", err)
				continue
			}
			hpp := cDecode(*hp)
			if hpp == nil || hpp.mul(cL).bytes() != cO.bytes() {
				rep.violation("hp", info, "a key is hashed to %x, which is not in the group", *hp)
				continue
			}
			want := dPoint(c.Im, at, func(string) *cPt { return hpp })
			var im *KeyImage
			p0, x0 := onetime, xs
			for k := 0; k < 2; k++ {
				if e := vTry(func() { im, err = GenerateKeyImage(&p0, &x0) }); e != "" || err != nil || [32]byte(*im) != want || p0 != onetime || x0 != xs {
					rep.violation("image", info, "the key image is %v, not %x: %v %s", im, want, err, e)
					break
				}
			}
			if rep.full() || im == nil {
				continue
			}
			same("key image", c.Term.Im, *im, info)
			test := func(q [32]byte) ([32]byte, bool) {
				ki, l := KeyImage(q), KeyImage(L)
				var res *KeyImage
				var err error
				if e := vTry(func() { res, err = ki.ScalarMult(&l) }); e != "" || err != nil {
					rep.violation("test", vHex(q[:]), "the group test of a point fails: %v %s", err, e)
					return q, false
				}
				rep.eval("test" + vHex(q[:]))
				return *res, true
			}
			if b, ok := test(*im); ok && b != cO.bytes() {
				rep.violation("group", info, "a key image fails the group test")
			}
			for i := 1; i < 8; i++ {
				var mult int
				if err := json.Unmarshal(c.Low[i-1][0][1], &mult); err != nil {
					t.Fatal(err)
				}
				for _, q := range [][32]byte{cDecode(*im).add(cLow(i)).bytes(), cLow(i).bytes()} {
					b, ok := test(q)
					if ok && (b != cLow(mult).bytes() || b == cO.bytes()) {
						rep.violation("low", vHex(q[:]), "the group test of a point with low order part %d gives %x, not %x", i, b, cLow(mult).bytes())
					}
				}
			}
			// multiples of a point
			for _, n := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(8), new(big.Int).Sub(cL, big.NewInt(1)), cSecret("reduced", rnd)} {
				ki := KeyImage(cDecode(*im).add(cLow(rnd.Intn(8))).bytes())
				k := KeyImage(cScalar(n))
				res, err := ki.ScalarMult(&k)
				if w := cDecode(ki).mul(n).bytes(); err != nil || [32]byte(*res) != w {
					rep.violation("mult", vHex(ki[:]), "the multiple by %s is wrong", n)
				}
			}
			for _, k := range []*big.Int{cL, new(big.Int).Add(x, cL), cSecret("max", rnd)} {
				ks := SecretKey(cScalar(k))
				if _, err := GenerateKeyImage(&onetime, &ks); err == nil {
					rep.violation("unreduced", vHex(ks[:]), "a secret key that is not reduced has a key image")
				}
			}
			off := KeyImage(cOff(rnd.Int()))
			if _, err := off.ScalarMult(im); err == nil {
				rep.violation("off", vHex(off[:]), "what is not a point is multiplied")
			}
			// the same image in every ring
			if c.O.T == 0 && round == 0 {
				for n := 1; n <= 3; n++ {
					pubs := []PublicKey{}
					for j := 0; j < n; j++ {
						pubs = append(pubs, rPub(SecretKey(cScalar(cSecret("reduced", rnd)))))
					}
					s := rnd.Intn(n)
					pubs[s] = onetime
					var hash Hash
					_, _ = rnd.Read(hash[:])
					sigs, err := GenerateRingSignature(&hash, im, &pubs, &xs, uint64(s))
					if err != nil || !CheckRingSignature(&hash, im, &pubs, &sigs, true) {
						rep.violation("ring", info, "the key image does not serve in a ring of %d: %v", n, err)
					}
				}
			}
			rep.sample(info)
		}
	}
}
