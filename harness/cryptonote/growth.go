package harness

import (
	"encoding/json"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
)

type gCase struct {
	Net   string   `json:"net"`
	Top   uint32   `json:"top"`
	Ts    []uint64 `json:"ts"`
	Cum   []uint64 `json:"cum"`
	Steps []struct {
		T    uint64 `json:"t"`
		Low  uint64 `json:"low"`
		High uint64 `json:"high"`
	} `json:"steps"`
}

func TestVerifGrowth(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c gCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		net := config.MainNet()
		if c.Net == "test" {
			net = config.TestNet()
		}
		first := c.Top + 1 - uint32(len(c.Ts))
		coins := hCoins
		if c.Top == 0 {
			coins = 38146972656250
		}
		seed := hSeed{Top: c.Top, Count: uint32(len(c.Ts)), Coins: coins, Net: net,
			Ts:  func(i uint32) uint64 { return c.Ts[i-first] },
			Cum: func(i uint32) uint64 { return c.Cum[i-first] }}
		bc, err := hNewChain(net, seed, hAncestors(seed), nil)
		if err != nil {
			rep.violation("setup", nil, "%v", err)
			return
		}
		hZone(bc)
		for n, s := range c.Steps {
			top := bc.TopBlock()
			h := top.Index() + 1
			r := hBaseReward(coins)
			b := hSeal(hBlock(h, *top.Hash(), s.T, r))
			ok, err, p := hAdd(bc, b, nil)
			rep.eval(string(line) + string(rune(n)))
			cas := map[string]interface{}{"net": c.Net, "top": c.Top, "step": n, "t": s.T, "low": s.Low, "high": s.High}
			if !ok {
				rep.violation("refused", cas, "block %d with timestamp %d is refused: %v %s", h, s.T, err, p)
				return
			}
			coins += r
			d := bc.storage.getBlockInfoAtIndex(h).CumulativeDifficulty - bc.storage.getBlockInfoAtIndex(h-1).CumulativeDifficulty
			if d < s.Low || d > s.High {
				rep.violation("work", cas, "block %d adds a difficulty of %d, expected %d to %d", h, d, s.Low, s.High)
				return
			}
			if s.Low != s.High {
				break
			}
		}
		rep.trace()
		rep.sample(map[string]interface{}{"top": c.Top, "steps": c.Steps})
	})
}
