package harness

import (
	"encoding/json"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
)

type eStep struct {
	Size    int    `json:"sz"`
	Fee     uint64 `json:"fee"`
	Pads    int    `json:"pads"`
	Claim   uint64 `json:"claim"`
	Kind    string `json:"kind"`
	Verdict string `json:"verdict"`
	Coins   uint64 `json:"coins"` // after the offer
	Txs     uint64 `json:"txs"`
}

type eCase struct {
	Version int      `json:"version"`
	Sizes   []uint64 `json:"sizes"`
	Coins   uint64   `json:"coins"`
	Steps   []eStep  `json:"steps"`
}

// eDeep returns the recorded coins, transactions and size of the top block, if they can be seen.
var eDeep func(bc *BlockChain, index uint32) (coins, txs, size uint64)

var eSerial int

// ePads builds n transactions without fee that have the given total size.
func ePads(n, total int) []*Transaction {
	spec := func(i int) xTx {
		var s xTx
		for k := 0; k < 12; k++ {
			s.Ins = append(s.Ins, xIn{A: []uint64{0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, Ring: []uint32{uint32(1 + eSerial*16 + i)}, Ki: 100 + i*12 + k})
		}
		s.Outs = []xOut{{A: []uint64{0, 0, 0, 0, 0, 0, 0, 0, 0, 2}}, {A: []uint64{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}}
		return s
	}
	eSerial++
	for shift := 0; shift < 8; shift++ {
		var res []*Transaction
		left, ok := total, true
		for i := 0; i < n && ok; i++ {
			s := spec(i)
			s.Size = left / (n - i)
			if i == 0 {
				s.Size += shift
			}
			if p := vTry(func() { res = append(res, xBuild(s)) }); p != "" {
				ok = false
				break
			}
			left -= s.Size
		}
		if ok {
			return res
		}
	}
	return nil
}

func TestVerifEmission(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c eCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		first := []uint32{1000, 60100, 216100, 400000, 700100}[c.Version-1]
		if len(c.Sizes) < 100 { // the whole chain, from the genesis block on
			first = uint32(len(c.Sizes))
		}
		seed := hSeed{Top: first - 1, Count: 375, Coins: c.Coins, Ts: uTs, Size: func(i uint32) uint64 {
			if k := len(c.Sizes) - int(first-i); k >= 0 {
				return c.Sizes[k]
			}
			return 77 // older than the window
		}}
		anc := hAncestors(seed)
		bc, err := hNewChain(net, seed, anc, nil)
		if err != nil {
			rep.violation("setup", nil, "%v", err)
			return
		}
		hZone(bc)
		h, prev := first, *bc.TopBlock().Hash()
		coins := c.Coins
		var txs uint64
		for n, s := range c.Steps {
			cas := map[string]interface{}{"version": c.Version, "sizes": c.Sizes, "coins": c.Coins, "steps": c.Steps[:n+1]}
			b := hBlock(h, prev, uTs(h), s.Claim)
			left := s.Size - int(b.BaseTransaction.Size())
			var list []*Transaction
			if s.Fee > 0 {
				tx := hTx(hTxSpec{Key: 50, In: 10000000000000000 + s.Fee, Outs: []uint64{10000000000000000}, Extra: 8 + n%16, Unlock: uint64(eSerial)})
				left -= len(tx.Serialize())
				list = append(list, tx)
			}
			pads := ePads(s.Pads, left)
			if pads == nil {
				rep.count("size_not_reached", 1)
				return
			}
			list = append(list, pads...)
			var bodies [][]byte
			total := int(b.BaseTransaction.Size())
			for _, tx := range list {
				body := tx.Serialize()
				total += len(body)
				bodies = append(bodies, body)
				b.TransactionsHashes = append(b.TransactionsHashes, *tx.Hash())
			}
			if total != s.Size {
				rep.fail("the block has size %d instead of %d", total, s.Size)
				return
			}
			hSeal(b)
			ok, err, p := hAdd(bc, b, bodies)
			rep.eval(string(line) + string(rune(n)))
			rep.count(s.Verdict, 1)
			if p != "" || ok != (s.Verdict == "accepted") {
				rep.violation("reward", cas, "version %d: a block of size %d with fees %d claiming %d (%s) should be %s, but got %v %s",
					c.Version, s.Size, s.Fee, s.Claim, s.Kind, s.Verdict, err, p)
				return
			}
			if ok {
				h, prev, coins, txs = h+1, *b.Hash(), s.Coins, txs+uint64(len(bodies))
			}
			if bc.TopBlock().Index() != h-1 {
				rep.violation("top", cas, "top is %d, not %d", bc.TopBlock().Index(), h-1)
				return
			}
			if eDeep != nil {
				gc, gt, gs := eDeep(bc, h-1)
				if gc != coins {
					rep.violation("coins", cas, "%d coins recorded, not %d", gc, coins)
					return
				}
				if gt != txs {
					rep.violation("transactions", cas, "%d transactions recorded, not %d", gt, txs)
					return
				}
				if ok && gs != uint64(s.Size) {
					rep.violation("size", cas, "size %d recorded, not %d", gs, s.Size)
					return
				}
			}
		}
		rep.trace()
		if len(c.Steps) > 2 {
			rep.sample(map[string]interface{}{"version": c.Version, "coins": c.Coins, "steps": c.Steps[:3]})
		}
	})
}
