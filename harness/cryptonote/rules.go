package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type rCase struct {
	C struct {
		H      uint32 `json:"h"`
		Major  byte   `json:"major"`
		Inputs string `json:"inputs"`
		Unlock string `json:"unlock"`
		Sigs   string `json:"sigs"`
		Outs   string `json:"outs"`
		Pver   byte   `json:"pver"`
		Psize  string `json:"psize"`
		Extra  string `json:"extra"`
		Sig    string `json:"sig"`
	} `json:"c"`
	V string `json:"v"`
}

// rExtra builds a parseable extra field of exactly n bytes: a key and nonces.
func rExtra(n int) []byte {
	_, pub := hKey(3)
	e := append([]byte{1}, pub[:]...)
	for len(e) < n {
		left := n - len(e)
		k := left - 2
		if left > 129 { // two length bytes from 128 on, keep to one
			k = 100
		}
		if left-2-k == 1 {
			k--
		}
		e = append(e, 2, byte(k))
		e = append(e, make([]byte, k)...)
	}
	return e
}

func rBuild(c rCase, prev crypto.Hash, reward uint64) *Block {
	k := c.C
	b := hBlock(k.H, prev, uTs(k.H), reward)
	b.MajorVersion = k.Major
	cb := &b.BaseTransaction
	keyIn := InputKey{Amount: 1, OutputIndexes: []uint32{1}, KeyImage: hKeyImage(5)}
	switch k.Inputs {
	case "none":
		cb.Inputs = nil
	case "two":
		cb.Inputs = append(cb.Inputs, InputCoinbase{BlockIndex: k.H})
	case "key":
		cb.Inputs = []TransactionInput{keyIn}
		cb.TransactionSignatures = TransactionSignatures{[]crypto.Signature{{}}}
	case "twokey":
		cb.Inputs = append(cb.Inputs, keyIn)
		cb.TransactionSignatures = TransactionSignatures{[]crypto.Signature{}, []crypto.Signature{{}}}
	}
	switch k.Unlock {
	case "nine":
		cb.UnlockHeight--
	case "eleven":
		cb.UnlockHeight++
	case "zero":
		cb.UnlockHeight = 0
	case "height":
		cb.UnlockHeight -= 10
	case "wrap":
		cb.UnlockHeight += 1 << 32
	}
	_, pub := hKey(0)
	out := func(a uint64, p crypto.PublicKey) TransactionOutput {
		return TransactionOutput{Amount: a, Target: OutputKey{p}}
	}
	switch k.Outs {
	case "three":
		cb.Outputs = []TransactionOutput{out(reward-7, pub), out(5, pub), out(2, pub)}
	case "zero":
		cb.Outputs = []TransactionOutput{out(0, pub), out(reward, pub)}
	case "zerolast":
		cb.Outputs = []TransactionOutput{out(reward, pub), out(0, pub)}
	case "badkey":
		cb.Outputs[0].Target = OutputKey{hBadKey()}
	case "badlast":
		cb.Outputs = []TransactionOutput{out(reward-7, pub), out(5, pub), out(2, hBadKey())}
	case "overflow":
		cb.Outputs = []TransactionOutput{out(1<<64-1, pub), out(reward+1, pub)}
	case "overflow3":
		cb.Outputs = []TransactionOutput{out(1<<63, pub), out(1<<62, pub), out(1<<62, pub), out(reward, pub)}
	case "none":
		cb.Outputs = nil
	}
	mm := append([]byte{3, 33, 0}, make([]byte, 32)...)
	switch k.Extra {
	case "empty":
		cb.Extra = nil
	case "mm":
		cb.Extra = mm
	case "pubmm":
		cb.Extra = append(cb.Extra, mm...)
	case "bad":
		cb.Extra = []byte{0x7f, 1, 2}
	case "truncated":
		cb.Extra = cb.Extra[:20]
	case "nonce":
		cb.Extra = append(cb.Extra, 2, 3, 9, 9, 9)
	case "1023":
		cb.Extra = rExtra(1023)
	case "1024":
		cb.Extra = rExtra(1024)
	case "1025":
		cb.Extra = rExtra(1025)
	}
	switch k.Sigs {
	case "empty":
		cb.TransactionSignatures = TransactionSignatures{[]crypto.Signature{}}
	case "one":
		cb.TransactionSignatures = TransactionSignatures{[]crypto.Signature{{}}}
	}
	if k.Major == 2 || k.Major == 3 {
		p := hParent(b.Timestamp, b.Nonce)
		p.MajorVersion = k.Pver
		b.Parent = p
		want := map[string]int{"2047": 2047, "2048": 2048, "2049": 2049}[k.Psize]
		size := func() int {
			// header of versions 2 and 3: two versions and the previous hash
			x := hFresh(b)
			return len(x.Serialize()) - 34 - len(x.BaseTransaction.Serialize()) - 1
		}
		base := append([]byte(nil), p.BaseTransaction.Extra...)
		for pad := 0; want > 0 && size() < want; pad++ {
			p.BaseTransaction.Extra = rPadTo(base, len(base)+pad)
			if pad > 3000 {
				panic("no such parent size")
			}
		}
		if want > 0 && size() != want {
			panic(fmt.Sprintf("parent size %d instead of %d", size(), want))
		}
	}
	if k.Major >= 5 {
		signer, signed := 0, b
		if k.Sig == "otherkey" {
			signer = 1
		}
		if k.Sig == "otherblock" {
			signed = hFresh(b)
			signed.Timestamp++
		}
		sec, _ := hKey(signer)
		h := crypto.HashFromBytes(hFresh(signed).HashingBytes())
		sig, err := h.Sign(&sec)
		if err != nil {
			panic(err)
		}
		switch k.Sig {
		case "zero":
			sig = &crypto.Signature{}
		case "swapped":
			sig = &crypto.Signature{C: sig.R, R: sig.C}
		case "notreduced":
			c := hAddL(sig.R)
			sig = &crypto.Signature{C: sig.C, R: c}
		}
		b.Signature = sig
	}
	return b
}

// rPadTo appends nonces to an extra field up to n bytes where possible.
func rPadTo(base []byte, n int) []byte {
	e := append([]byte(nil), base...)
	for n-len(e) >= 2 {
		k := n - len(e) - 2
		if k > 120 {
			k = 100
		}
		e = append(e, 2, byte(k))
		e = append(e, make([]byte, k)...)
	}
	return append(e, make([]byte, n-len(e))...)
}

// hAddL adds the group order to a scalar.
func hAddL(s crypto.EllipticCurveScalar) crypto.EllipticCurveScalar {
	carry := 0
	for i := range s {
		x := int(s[i]) + int(crypto.L[i]) + carry
		s[i], carry = byte(x), x>>8
	}
	return s
}

func TestVerifRules(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	rng := vRand()
	type ctx struct {
		seed hSeed
		anc  []*Block
		prev crypto.Hash
		rew  uint64
	}
	ctxs := map[uint32]*ctx{}
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c rCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		x := ctxs[c.C.H]
		if x == nil {
			x = &ctx{seed: hSeed{Top: c.C.H - 1, Count: 375, Coins: hCoins, Ts: uTs}}
			x.anc = hAncestors(x.seed)
			coins := hCoins
			if c.C.H == 1 {
				coins = 38146972656250
				g, _ := NewBlockChain(net, NewMemoryStorage(), hLogger()).GenesisBlock()
				x.prev = *g.Hash()
			} else {
				x.prev = *x.anc[len(x.anc)-1].Hash()
			}
			x.rew = hBaseReward(coins)
			ctxs[c.C.H] = x
		}
		bc, err := hNewChain(net, x.seed, x.anc, nil)
		if err != nil {
			rep.violation("setup", c, "the chain cannot be set up: %v", err)
			return
		}
		if rng.Intn(2) == 0 {
			hZone(bc)
		}
		b := rBuild(c, x.prev, x.rew)
		if c.C.Sigs == "absent" && c.C.Major >= 1 && c.C.Major <= 5 && rng.Intn(2) == 0 {
			d := &Block{}
			if err := d.Deserialize(bytes.NewReader(b.Serialize())); err == nil {
				b = d
			}
		}
		ok, err, p := hAdd(bc, b, nil)
		rep.eval(string(line))
		if p != "" {
			rep.violation("panic", c, "AddBlock panics: %s", p)
			return
		}
		if ok != (c.V == "accepted") {
			rep.violation("rule", c, "AddBlock gives %v (%v), the specification says %s", ok, err, c.V)
			return
		}
		if ok != (bc.TopBlock().Index() == c.C.H) {
			rep.violation("top", c, "top index %d after %s", bc.TopBlock().Index(), c.V)
		}
		rep.trace()
		rep.count(c.V, 1)
		rep.sample(c)
	})
}
