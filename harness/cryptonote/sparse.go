package harness

import (
	"encoding/json"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

func TestVerifSparse(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	type sCase struct {
		Top  uint32   `json:"top"`
		List []uint32 `json:"list"`
	}
	// one chain grown by AddBlock, asked again after every block
	var grow struct {
		Grow int `json:"grow"`
	}
	vParams(&grow)
	byTop := map[uint32][]uint32{}
	compare := func(bc *BlockChain, hashes []crypto.Hash, c sCase, how string) bool {
		for again := 0; again < 2; again++ {
			got, err := bc.BuildSparseChain()
			if err != nil {
				rep.violation("error", c, "%s chain: %v", how, err)
				return false
			}
			ok := len(got) == len(c.List)
			for i := 0; ok && i < len(got); i++ {
				ok = got[i] == hashes[c.List[i]]
			}
			if !ok {
				var idx []int
				for _, h := range got {
					k := -1
					for i := range hashes {
						if hashes[i] == h {
							k = i
						}
					}
					idx = append(idx, k)
				}
				rep.violation("list", c, "%s chain with top %d: sparse chain has indexes %v, expected %v", how, c.Top, idx, c.List)
				return false
			}
		}
		rep.trace()
		rep.sample(c)
		return true
	}
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c sCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		byTop[c.Top] = c.List
		rep.eval(string(line))
		seed := hSeed{Top: c.Top, Count: c.Top, Coins: hCoins, Ts: uTs}
		anc := hAncestors(seed)
		bc, err := hNewChain(net, seed, anc, nil)
		if err != nil {
			rep.violation("setup", c, "%v", err)
			return
		}
		g, _ := bc.GenesisBlock()
		hashes := []crypto.Hash{*g.Hash()}
		for _, b := range anc {
			hashes = append(hashes, *b.Hash())
		}
		compare(bc, hashes, c, "stored")
	})
	if grow.Grow > 0 {
		bc, err := hNewChain(net, hSeed{}, nil, nil)
		if err != nil {
			rep.violation("setup", nil, "%v", err)
			return
		}
		hashes := []crypto.Hash{*bc.TopBlock().Hash()}
		coins := uint64(38146972656250)
		for i := uint32(0); int(i) <= grow.Grow && !rep.full(); i++ {
			if i > 0 {
				b := hBlock(i, hashes[i-1], uTs(i), hBaseReward(coins))
				coins += hBaseReward(coins)
				if ok, err, _ := hAdd(bc, b, nil); !ok {
					rep.violation("grow", i, "plain block %d refused: %v", i, err)
					return
				}
				hashes = append(hashes, *b.Hash())
			}
			if l, ok := byTop[i]; ok {
				if !compare(bc, hashes, sCase{i, l}, "grown") {
					return
				}
			}
		}
	}
}
