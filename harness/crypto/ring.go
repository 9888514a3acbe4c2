package crypto

import (
	"encoding/json"
	"math/big"
	"testing"
)

type rEdit struct {
	K string
	J int
}

type rCase struct {
	Ring struct {
		R struct {
			N, S     int
			Dup, Low bool
		}
		How string
	}
	Sc struct {
		M, Image   string
		Ring, Sigs rEdit
		Sub        bool
	}
	V string
}

// rWorld is one concrete ring.
type rWorld struct {
	secs    []SecretKey // of the members
	pubs    []PublicKey
	fsec    SecretKey
	fpub    PublicKey
	msg, om Hash
	image   KeyImage
	images  map[string]KeyImage
	own     []Signature
	again   []Signature
	message []Signature
	off     [32]byte
}

func rPub(s SecretKey) PublicKey { return cG.mul(cInt(s)).bytes() }

func rImage(s SecretKey) KeyImage {
	p := rPub(s)
	h := HashFromBytes(p[:])
	ec, err := h.toPoint()
	if err != nil {
		panic(err)
	}
	return cDecode(*ec).mul(cInt(s)).bytes()
}

func rBuild(rep *vRep, n, s int, dup, low bool, rnd interface{ Read([]byte) (int, error) }) *rWorld {
	w := &rWorld{}
	for j := 0; j < n; j++ {
		if dup && j == n-1 {
			w.secs, w.pubs = append(w.secs, w.secs[0]), append(w.pubs, w.pubs[0])
			continue
		}
		var k SecretKey
		for again := true; again; {
			again = false
			k = cScalar(cSecret("reduced", rnd))
			for _, o := range w.secs {
				again = again || o == k || cScalar(new(big.Int).Sub(cL, cInt(o))) == k
			}
		}
		w.secs, w.pubs = append(w.secs, k), append(w.pubs, rPub(k))
	}
	var b [32]byte
	_, _ = rnd.Read(b[:])
	w.fsec = cScalar(cReduce(cInt(b)))
	w.fpub = rPub(w.fsec)
	_, _ = rnd.Read(w.msg[:])
	w.om = w.msg
	w.om[int(b[0])%32] ^= 1 << (b[1] % 8)
	w.off = cOff(int(b[2]))
	w.image = rImage(w.secs[s-1])
	im := cDecode(w.image)
	other := w.fsec
	if n > 1 && !dup {
		other = w.secs[s%n]
	}
	w.images = map[string]KeyImage{"own": w.image, "foreign": rImage(w.fsec), "other": rImage(other), "identity": cO.bytes(), "off": w.off, "negated": im.neg().bytes()}
	for i := 1; i < 8; i++ {
		w.images["low"+string(rune('0'+i))] = im.add(cLow(i)).bytes()
	}
	make := func(h Hash) []Signature {
		for {
			var sigs []Signature
			var err error
			i0, p0, s0 := w.image, append([]PublicKey{}, w.pubs...), w.secs[s-1]
			if e := vTry(func() { sigs, err = GenerateRingSignature(&h, &i0, &p0, &s0, uint64(s-1)) }); e != "" || err != nil || len(sigs) != n {
				rep.violation("sign", w.info(), "member %d of a ring of %d cannot sign: %v %s", s, n, err, e)
				return nil
			}
			ok := true
			for _, x := range sigs {
				ok = ok && (!low || x.C[0]%8 == 0)
			}
			if ok {
				return sigs
			}
		}
	}
	if w.own = make(w.msg); w.own == nil {
		return nil
	}
	if w.again = make(w.msg); w.again == nil {
		return nil
	}
	if w.message = make(w.om); w.message == nil {
		return nil
	}
	return w
}

func (w *rWorld) info() interface{} {
	var s []string
	for _, k := range w.secs {
		s = append(s, vHex(k[:]))
	}
	return map[string]interface{}{"secrets": s, "hash": vHex(w.msg[:])}
}

func rCheck(h Hash, im KeyImage, pubs []PublicKey, sigs []Signature, sub bool) (ok bool, panicked string) {
	panicked = vTry(func() { ok = CheckRingSignature(&h, &im, &pubs, &sigs, sub) })
	return
}

func TestVerifRing(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	var p struct{ Rounds, Sizes int }
	vParams(&p)
	all := map[string][]rCase{}
	vCases(t, func(line []byte) {
		var c rCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		k, _ := json.Marshal(c.Ring.R)
		all[string(k)] = append(all[string(k)], c)
	})
	one := big.NewInt(1)
	for round := 0; round < p.Rounds; round++ {
		for _, cases := range all {
			if rep.full() {
				return
			}
			r := cases[0].Ring.R
			w := rBuild(rep, r.N, r.S, r.Dup, r.Low, rnd)
			rep.trace()
			if w == nil {
				continue
			}
			if vThorough() || round == 0 {
				rep.sample(w.info())
			}
			for _, c := range cases {
				if c.V == "refused" || c.V == "signed" {
					sec, im, pubs, idx := w.secs[r.S-1], w.image, append([]PublicKey{}, w.pubs...), uint64(r.S-1)
					switch c.Ring.How {
					case "foreign secret":
						sec = w.fsec
					case "unreduced secret":
						sec = cScalar(new(big.Int).Add(cInt(sec), cL))
					case "other image":
						im = w.images["other"]
					case "foreign image":
						im = w.images["foreign"]
					case "identity image":
						im = w.images["identity"]
					case "image plus low":
						im = w.images["low"+string(rune('1'+rnd.Intn(7)))]
					case "off image":
						im = w.off
					case "index":
						idx = uint64(r.N) + uint64(rnd.Intn(3))
					case "off member":
						pubs[rnd.Intn(r.N)] = w.off
					case "other secret":
						sec = w.secs[r.S%r.N]
					}
					var err error
					if e := vTry(func() { _, err = GenerateRingSignature(&w.msg, &im, &pubs, &sec, idx) }); e != "" {
						rep.violation("panic", w.info(), "signing with %s panics: %s", c.Ring.How, e)
					} else if (err == nil) != (c.V == "signed") {
						rep.violation("signs", w.info(), "a ring signature with %s is made: %v", c.Ring.How, err == nil)
					}
					rep.eval(c.Ring.How + vHex(im[:]))
					continue
				}
				h, im := w.msg, w.images[c.Sc.Image]
				if c.Sc.M == "other" {
					h = w.om
				}
				pubs, sigs := append([]PublicKey{}, w.pubs...), append([]Signature{}, w.own...)
				j := c.Sc.Ring.J - 1
				insert := func(j int, k PublicKey) { pubs = append(append(append([]PublicKey{}, pubs[:j]...), k), pubs[j:]...) }
				switch c.Sc.Ring.K {
				case "foreign":
					pubs[j] = w.fpub
				case "off":
					pubs[j] = w.off
				case "low":
					pubs[j] = cDecode(pubs[j]).add(cLow(1 + rnd.Intn(7))).bytes()
				case "identity":
					pubs[j] = cO.bytes()
				case "negated":
					pubs[j] = cDecode(pubs[j]).neg().bytes()
				case "remove":
					pubs = append(pubs[:j], pubs[j+1:]...)
				case "insert":
					insert(j, w.fpub)
				case "twice":
					insert(j, pubs[j])
				case "append":
					pubs = append(pubs, w.fpub)
				case "swap":
					pubs[j], pubs[j+1] = pubs[j+1], pubs[j]
				}
				j = c.Sc.Sigs.J - 1
				plus := func(x *EllipticCurveScalar, n *big.Int, reduce bool) {
					v := new(big.Int).Add(cInt(*x), n)
					if reduce {
						v = cReduce(v)
					}
					*x = cScalar(v)
				}
				switch c.Sc.Sigs.K {
				case "again":
					if j < 0 {
						sigs = append([]Signature{}, w.again...)
					} else {
						sigs[j] = w.again[j]
					}
				case "message":
					sigs = append([]Signature{}, w.message...)
				case "c+1":
					plus(&sigs[j].C, one, true)
				case "r+1":
					plus(&sigs[j].R, one, true)
				case "c+L":
					plus(&sigs[j].C, cL, false)
				case "r+L":
					plus(&sigs[j].R, cL, false)
				case "c=0":
					sigs[j].C = EllipticCurveScalar{}
				case "r=0":
					sigs[j].R = EllipticCurveScalar{}
				case "c=max":
					sigs[j].C = cScalar(cSecret("max", rnd))
				case "cr":
					sigs[j].C, sigs[j].R = sigs[j].R, sigs[j].C
				case "remove":
					sigs = append(sigs[:j], sigs[j+1:]...)
				case "twice":
					sigs = append(sigs[:j+1], append([]Signature{sigs[j]}, sigs[j+1:]...)...)
				case "swap":
					sigs[j], sigs[j+1] = sigs[j+1], sigs[j]
				case "swap c":
					sigs[j].C, sigs[j+1].C = sigs[j+1].C, sigs[j].C
				case "shift":
					plus(&sigs[j].C, one, true)
					plus(&sigs[j+1].C, new(big.Int).Neg(one), true)
				}
				got, panicked := rCheck(h, im, pubs, sigs, c.Sc.Sub)
				key, _ := json.Marshal(c)
				rep.eval(string(key))
				if panicked != "" {
					rep.violation("panic", c, "checking a ring signature panics: %s", panicked)
				} else if c.V != "free" && got != (c.V == "valid") {
					rep.violation("check", map[string]interface{}{"case": c, "ring": w.info()}, "a ring signature that is %s (ring %v, signatures %v, image %s, hash %s, group test %v) is accepted: %v",
						c.V, c.Sc.Ring, c.Sc.Sigs, c.Sc.Image, c.Sc.M, c.Sc.Sub, got)
				}
			}
		}
	}
	// larger rings, each member in turn
	if len(all) > 0 {
		for n := 1; n <= p.Sizes && !rep.full(); n++ {
			s := 1 + rnd.Intn(n)
			w := rBuild(rep, n, s, false, false, rnd)
			if w == nil {
				continue
			}
			rep.trace()
			ask := func(want bool, what string, h Hash, im KeyImage, pubs []PublicKey, sigs []Signature) {
				got, panicked := rCheck(h, im, pubs, sigs, true)
				rep.eval(what + vHex(h[:]) + vHex(im[:]))
				if got != want || panicked != "" {
					rep.violation("sizes", w.info(), "a ring signature of %d members with %s is accepted: %v %s", n, what, got, panicked)
				}
			}
			ask(true, "nothing changed", w.msg, w.image, w.pubs, w.own)
			j := rnd.Intn(n)
			pubs, sigs := append([]PublicKey{}, w.pubs...), append([]Signature{}, w.own...)
			pubs[j] = w.fpub
			ask(false, "another member", w.msg, w.image, pubs, w.own)
			sigs[j].R[rnd.Intn(31)] ^= 1
			ask(false, "a changed signature", w.msg, w.image, w.pubs, sigs)
			ask(false, "another hash", w.om, w.image, w.pubs, w.own)
			ask(false, "another image", w.msg, w.images["other"], w.pubs, w.own)
			if n > 1 {
				k := (j + 1) % n
				pubs, sigs = append([]PublicKey{}, w.pubs...), append([]Signature{}, w.own...)
				pubs[j], pubs[k] = pubs[k], pubs[j]
				ask(false, "members swapped", w.msg, w.image, pubs, w.own)
				sigs[j], sigs[k] = sigs[k], sigs[j]
				ask(false, "signatures swapped", w.msg, w.image, w.pubs, sigs)
			}
		}
	}
}
