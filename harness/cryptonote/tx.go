package harness

import (
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type xIn struct {
	A    []uint64 `json:"a"`
	Ring []uint32 `json:"ring"`
	Ki   int      `json:"ki"`
	Kind string   `json:"kind"`
}

type xOut struct {
	A   []uint64 `json:"a"`
	Key string   `json:"key"`
}

type xTx struct {
	Ins   []xIn  `json:"ins"`
	Outs  []xOut `json:"outs"`
	Extra int    `json:"extra"`
	Size  int    `json:"size"`
}

type xCase struct {
	C struct {
		Kind string `json:"kind"`
		H    uint32 `json:"h"`
		Zone string `json:"zone"`
		Txs  []xTx  `json:"txs"`
	} `json:"c"`
	V string `json:"v"`
}

// xNum reads a number of the specification; it wraps like 64 bit numbers do.
func xNum(d []uint64) uint64 {
	n, f := uint64(0), uint64(1)
	for _, x := range d {
		n += x * f
		f *= 10
	}
	return n
}

func xKeyImage(ki int, kind string) crypto.KeyImage {
	switch kind {
	case "ok":
		return hKeyImage(ki)
	case "minus": // plus the point of order two: (x, y) becomes (-x, -y)
		k := hKeyImage(ki)
		var be [32]byte
		for i := range k {
			be[31-i] = k[i]
		}
		sign := be[0] & 0x80
		be[0] &= 0x7f
		y := new(big.Int).SetBytes(be[:])
		y.Sub(hP, y)
		y.FillBytes(be[:])
		be[0] |= sign ^ 0x80
		var r crypto.KeyImage
		for i := range be {
			r[31-i] = be[i]
		}
		return r
	case "order2":
		return crypto.KeyImage(vArr("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"))
	case "order4":
		return crypto.KeyImage(vArr("0000000000000000000000000000000000000000000000000000000000000000"))
	case "order8":
		return crypto.KeyImage(vArr("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05"))
	case "offcurve":
		return crypto.KeyImage(hBadKey())
	}
	panic("key image kind " + kind)
}

func vArr(s string) (r [32]byte) {
	copy(r[:], vUnhex(s))
	return
}

func xBuild(s xTx) *Transaction {
	t := &Transaction{}
	t.Version = 1
	t.TransactionSignatures = TransactionSignatures{}
	for _, in := range s.Ins {
		kind := in.Kind
		if kind == "" {
			kind = "ok"
		}
		if kind == "coinbase" {
			t.Inputs = append(t.Inputs, InputCoinbase{BlockIndex: uint32(in.Ki)})
			t.TransactionSignatures = append(t.TransactionSignatures, nil)
			continue
		}
		t.Inputs = append(t.Inputs, InputKey{Amount: xNum(in.A), OutputIndexes: in.Ring, KeyImage: xKeyImage(in.Ki, kind)})
		t.TransactionSignatures = append(t.TransactionSignatures, make([]crypto.Signature, len(in.Ring)))
	}
	for i, o := range s.Outs {
		_, pub := hKey(1000 + i%4)
		if o.Key == "bad" {
			pub = hBadKey()
		}
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: xNum(o.A), Target: OutputKey{pub}})
	}
	t.Extra = make([]byte, s.Extra)
	if s.Size > 0 {
		n := s.Size - len(t.Serialize())
		for k := n - 8; k <= n; k++ {
			t.Extra = make([]byte, k)
			if len(t.Serialize()) == s.Size {
				break
			}
		}
		if len(t.Serialize()) != s.Size {
			panic("size not reached")
		}
	}
	return t
}

func TestVerifTx(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	type ctx struct {
		seed hSeed
		anc  []*Block
		bc   *BlockChain
	}
	ctxs := map[string]*ctx{}
	n := 0
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c xCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		h := c.C.H
		k := fmt.Sprint(h)
		x := ctxs[k]
		if x == nil {
			x = &ctx{seed: hSeed{Top: h - 1, Count: 375, Coins: hCoins, Ts: uTs, Size: func(uint32) uint64 { return 1000000 }}}
			x.anc = hAncestors(x.seed)
			ctxs[k] = x
		}
		chain := func() *BlockChain {
			bc, err := hNewChain(net, x.seed, x.anc, nil)
			if err != nil {
				panic(err)
			}
			return bc
		}
		var bodies [][]byte
		var hashes []crypto.Hash
		fees := uint64(0)
		for _, s := range c.C.Txs {
			tx := xBuild(s)
			for _, in := range s.Ins {
				fees += xNum(in.A)
			}
			for _, o := range s.Outs {
				fees -= xNum(o.A)
			}
			bodies = append(bodies, tx.Serialize())
			hashes = append(hashes, *tx.Hash())
		}
		reward := hBaseReward(hCoins)
		rewards := []uint64{reward + fees}
		if c.V == "refused" && fees != 0 {
			rewards = append(rewards, reward)
		}
		prev := *x.anc[len(x.anc)-1].Hash()
		for _, r := range rewards {
			b := hBlock(h, prev, uTs(h), r)
			b.TransactionsHashes = hashes
			hSeal(b)
			bc := x.bc
			if c.C.Zone != "far" {
				bc = chain()
				switch c.C.Zone {
				case "above":
					_ = bc.Checkpoints.AddCheckpoint(h+1, crypto.HashFromBytes([]byte("above")))
				case "at":
					_ = bc.Checkpoints.AddCheckpoint(h, *b.Hash())
				case "below":
					_ = bc.Checkpoints.AddCheckpoint(h-1, prev)
				}
			} else if bc == nil {
				bc = chain()
				hZone(bc)
				x.bc = bc
			}
			ok, err, p := hAdd(bc, b, bodies)
			if ok && c.C.Zone == "far" {
				x.bc = nil
			}
			rep.trace()
			n++
			want := c.V == "accepted"
			top := bc.TopBlock().Index()
			switch {
			case p != "":
				rep.violation("panic", c, "%s at height %d: panic %s", c.C.Kind, h, p)
			case ok != want:
				rep.violation(c.C.Kind, c, "%s at height %d in zone %s: the block should be %s, but got %v", c.C.Kind, h, c.C.Zone, c.V, err)
			case ok && top != h, !ok && top != h-1:
				rep.violation(c.C.Kind, c, "%s at height %d: top is %d", c.C.Kind, h, top)
			}
			if ok && !bc.HaveBlock(b.Hash()) {
				rep.violation(c.C.Kind, c, "an accepted block is not there")
			}
		}
		if n%997 == 1 {
			rep.sample(c)
		}
		rep.count(c.V, 1)
	})
}
