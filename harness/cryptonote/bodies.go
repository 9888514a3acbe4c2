package harness

import (
	"encoding/binary"
	"encoding/json"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type bTok struct {
	T   int    `json:"t"`
	How string `json:"how"`
}

type bCase struct {
	C struct {
		Kind      string `json:"kind"`
		Listed    []int  `json:"listed"`
		Given     []bTok `json:"given"`
		Confirmed []int  `json:"confirmed"`
		H         uint32 `json:"h"`
		Via       string `json:"via"`
		Delta     int    `json:"delta"`
	} `json:"c"`
	V    string `json:"v"`
	Size int    `json:"size"`
}

func bBody(k bTok) []byte {
	if k.How == "garbage" {
		return []byte{1, 0, 1, 0x77, 9, 9}
	}
	if k.How == "empty" {
		return []byte{}
	}
	x := uTx(k.T).Serialize()
	// layout: version, unlock, input count, tag, ...
	switch k.How {
	case "trailing":
		x = append(x, 0)
	case "longvarint": // the same version, one byte longer
		x = append([]byte{x[0] | 0x80, 0}, x[1:]...)
	case "longcount": // the same number of inputs
		x = append(append(append([]byte{}, x[:2]...), x[2]|0x80, 0), x[3:]...)
	case "highbits": // a version that is the same modulo 256
		x = append([]byte{x[0] | 0x80, 2}, x[1:]...)
	case "cut":
		x = x[:len(x)/2]
	case "cutsig":
		x = x[:len(x)-1]
	}
	return x
}

func TestVerifBodies(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	rng := vRand()
	const tops = 5
	heights := []uint32{100, 60100, 216100, 266500, 700500}
	type ctx struct {
		seed hSeed
		anc  []*Block
	}
	ctxs := map[uint32]*ctx{}
	get := func(top uint32, size uint64) *ctx {
		if x, ok := ctxs[top]; ok {
			return x
		}
		x := &ctx{seed: hSeed{Top: top, Count: 375, Coins: hCoins, Ts: uTs, Size: func(uint32) uint64 { return size }}}
		if top == 0 {
			x.seed.Coins = 38146972656250
		}
		x.anc = hAncestors(x.seed)
		ctxs[top] = x
		return x
	}
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c bCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		if c.C.Kind == "size" {
			bSize(rep, net, c)
			return
		}
		top := heights[rng.Intn(len(heights))]
		x := get(top, 100)
		bc, err := hNewChain(net, x.seed, x.anc, nil)
		if err != nil {
			rep.violation("setup", c, "%v", err)
			return
		}
		hZone(bc)
		prev, coins, h := *x.anc[len(x.anc)-1].Hash(), hCoins, top
		add := func(listed []int, bodies [][]byte) (bool, error, string) {
			b := hBlock(h+1, prev, uTs(h+1), hBaseReward(coins)+uint64(len(listed))*uFee)
			for _, n := range listed {
				b.TransactionsHashes = append(b.TransactionsHashes, *uTx(n).Hash())
			}
			hSeal(b)
			ok, err, p := hAdd(bc, b, bodies)
			if ok {
				prev, coins, h = *b.Hash(), coins+hBaseReward(coins), h+1
			}
			return ok, err, p
		}
		exact := func(l []int) (res [][]byte) {
			for _, n := range l {
				res = append(res, bBody(bTok{n, "exact"}))
			}
			return
		}
		if len(c.C.Confirmed) > 0 {
			// confirmed right before or a few blocks earlier
			if ok, err, p := add(c.C.Confirmed, exact(c.C.Confirmed)); !ok {
				rep.violation("setup", c, "a block with transactions %v is refused: %v %s", c.C.Confirmed, err, p)
				return
			}
			gap := rng.Intn(3)
			if rng.Intn(25) == 0 {
				gap = 30 + rng.Intn(100)
			}
			for k := gap; k > 0; k-- {
				if ok, err, p := add(nil, nil); !ok {
					rep.violation("setup", c, "an empty block is refused: %v %s", err, p)
					return
				}
			}
		}
		var given [][]byte
		for _, k := range c.C.Given {
			given = append(given, bBody(k))
		}
		before := bc.TopBlock()
		ok, err, p := add(c.C.Listed, given)
		if p != "" {
			rep.violation("panic", c, "AddBlock panics: %s", p)
			return
		}
		if ok != (c.V == "accepted") {
			rep.violation("bodies", c, "height %d: block listing %v with bodies %v (confirmed before: %v) accepted %v (%v), the specification says %s",
				h+1, c.C.Listed, c.C.Given, c.C.Confirmed, ok, err, c.V)
			return
		}
		if !ok && bc.TopBlock() != before {
			rep.violation("top", c, "the top block changed although the block was refused")
			return
		}
		rep.trace()
		rep.count(c.V, 1)
		rep.sample(c)
	})
}

func bVarint(n int) int { return binary.PutUvarint(make([]byte, 10), uint64(n)) }

// bSize offers a block of exactly the given size.
func bSize(rep *vRep, net *config.Network, c bCase) {
	h := c.C.H
	seed := hSeed{Top: h - 1, Count: 375, Coins: hCoins, Ts: uTs, Size: func(uint32) uint64 { return 2000000 }}
	if h == 1 {
		seed.Coins = 38146972656250
	}
	if h < 200 && h > 1 {
		panic("height")
	}
	if (h >= 500000 || h == 1) && c.C.Via != "bodies" && h != 1 {
		return // the coinbase extra is limited there
	}
	anc := hAncestors(seed)
	bc, err := hNewChain(net, seed, anc, nil)
	if err != nil {
		rep.violation("setup", c, "%v", err)
		return
	}
	if h == 1 {
		return // only the genesis block: the median cannot be above the reward zone
	}
	hZone(bc)
	prev := *anc[len(anc)-1].Hash()
	const perTx = 240000
	build := func(extraLen int, txExtra []int) (*Block, [][]byte, int) {
		var bodies [][]byte
		var hashes []crypto.Hash
		reward, size := hBaseReward(seed.Coins), 0
		for i, n := range txExtra {
			fee := uFee
			if n > 100 {
				fee += uint64(n) * 1000000000
			}
			s := hTxSpec{Key: 40 + i, In: 5000000000000 + fee, Outs: []uint64{5000000000000}, Extra: n}
			t := hTx(s)
			reward += fee
			x := t.Serialize()
			size += len(x)
			bodies = append(bodies, x)
			hashes = append(hashes, *t.Hash())
		}
		b := hBlock(h, prev, uTs(h), reward)
		if extraLen > 0 {
			b.BaseTransaction.Extra = make([]byte, extraLen)
		}
		b.TransactionsHashes = hashes
		return b, bodies, size + len(b.BaseTransaction.Serialize())
	}
	extra, txs := 0, []int{}
	switch c.C.Via {
	case "coinbase":
		extra = c.Size - 200
	case "bodies", "both":
		left := c.Size
		if c.C.Via == "both" {
			extra = c.Size/2 + 17
			left -= extra
		}
		for left > perTx+1000 {
			txs = append(txs, perTx)
			left -= perTx + 250
		}
		txs = append(txs, left-400)
	}
	b, bodies, size := build(extra, txs)
	for i := 0; size != c.Size && i < 10; i++ {
		if c.C.Via == "coinbase" {
			extra += c.Size - size
		} else {
			txs[len(txs)-1] += c.Size - size
		}
		b, bodies, size = build(extra, txs)
	}
	if size != c.Size {
		rep.fail("no block of size %d (got %d)", c.Size, size)
		return
	}
	ok, err, p := hAdd(bc, hSeal(b), bodies)
	if p != "" {
		rep.violation("panic", c, "AddBlock panics: %s", p)
		return
	}
	if ok != (c.V == "accepted") {
		rep.violation("size", c, "height %d: block of %d bytes (%s) accepted %v (%v), the specification says %s", h, c.Size, c.C.Via, ok, err, c.V)
		return
	}
	rep.trace()
	rep.count("size "+c.V, 1)
}
