package cryptonote

import (
	"encoding/json"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/crypto"
)

const vAlphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// vBase58 is the encoding of Base58.tla, which its own check compares with the code.
func vBase58(b []byte) (s string) {
	digits := []int{0, 2, 3, 5, 6, 7, 9, 10, 11}
	for len(b) > 0 {
		n := 8
		if len(b) < 8 {
			n = len(b)
		}
		x, r := new(big.Int).SetBytes(b[:n]), new(big.Int)
		blk := make([]byte, digits[n])
		for i := len(blk) - 1; i >= 0; i-- {
			x.DivMod(x, big.NewInt(58), r)
			blk[i] = vAlphabet[r.Int64()]
		}
		s += string(blk)
		b = b[n:]
	}
	return
}

func TestVerifAddress(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	vCases(t, func(line []byte) {
		var c struct {
			A struct {
				How             string
				Tag, Body, Keys []int
				Sum             bool
			} `json:"a"`
			V string `json:"v"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		by := func(x []int) []byte {
			b := make([]byte, len(x))
			for i := range x {
				b[i] = byte(x[i])
			}
			return b
		}
		body, keys := by(c.A.Body), by(c.A.Keys)
		full := append(append([]byte(nil), body...), crypto.Keccak(body)[:4]...)
		parse := func(s string) (*Address, bool) {
			var a Address
			var err error
			if p := vTry(func() { err = a.FromString(s) }); p != "" {
				rep.violation("panic", s, "reading address %q panics: %s", s, p)
				return nil, false
			}
			rep.eval(s)
			return &a, err == nil
		}
		rep.trace()
		if c.A.How == "sum" {
			for i := 0; i < 32; i++ {
				f := append([]byte(nil), full...)
				f[len(f)-4+i/8] ^= 1 << uint(i%8)
				if _, ok := parse(vBase58(f)); ok {
					rep.violation("checksum", vBase58(f), "an address with a wrong bit %d in its checksum is accepted", i)
				}
			}
			return
		}
		text := vBase58(full)
		a, ok := parse(text)
		if a == nil {
			return
		}
		if c.V == "refused" {
			if ok {
				rep.violation("accepted", text, "the address %q with a wrong %s is accepted", text, c.A.How)
			}
			return
		}
		var spend, view crypto.PublicKey
		copy(spend[:], keys[:32])
		copy(view[:], keys[32:])
		tag := new(big.Int).SetBytes(by(c.A.Tag)).Uint64()
		if !ok || a.Tag != tag || a.SpendPublicKey != spend || a.ViewPublicKey != view || a.Base58() != text {
			rep.violation("decode", text, "the address %q is not read as tag %d and its keys (accepted: %v)", text, tag, ok)
		}
		n := NewAddress(tag, spend, view)
		if n.Base58() != text || n.Base58() != text {
			rep.violation("encode", text, "tag %d and the keys are written as %q, not %q", tag, n.Base58(), text)
		}
		// an address used before is read anew
		old := NewAddress(tag+1, view, spend)
		_ = old.Base58()
		if err := old.FromString(text); err != nil || old.Tag != tag || old.SpendPublicKey != spend || old.Base58() != text {
			rep.violation("reuse", text, "an address that was read before keeps parts of it")
		}
		refuse := func(s, how string) {
			if s == text {
				return
			}
			if _, ok := parse(s); ok {
				rep.violation("corrupt", []string{text, s}, "an address text with a %s is accepted", how)
			}
		}
		chars := vAlphabet + "0OIl \x00\x80"
		for i := range text {
			for k := range chars {
				if vThorough() || rnd.Intn(8) == 0 {
					refuse(text[:i]+string(chars[k:k+1])+text[i+1:], "changed character")
					refuse(text[:i]+string(chars[k:k+1])+text[i:], "inserted character")
				}
			}
			refuse(text[:i]+text[i+1:], "missing character")
			refuse(text[:i], "missing end")
			if i > 0 {
				refuse(text[:i-1]+text[i:i+1]+text[i-1:i]+text[i+1:], "swap of neighbours")
				j := rnd.Intn(i)
				b := []byte(text)
				b[i], b[j] = b[j], b[i]
				refuse(string(b), "swap of characters")
			}
		}
		refuse(text+"1", "longer text")
		refuse(text+text, "doubled text")
		rep.sample(text)
	})
}
