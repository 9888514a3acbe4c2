package harness

import (
	"encoding/json"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
)

type tCase struct {
	H      uint32   `json:"h"`
	Shape  string   `json:"shape"`
	Stamps []uint64 `json:"stamps"` // by depth
	Offers []struct {
		At uint64 `json:"at"`
		Ts uint64 `json:"ts"`
		Ok bool   `json:"ok"`
	} `json:"offers"`
}

func TestVerifTimes(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := config.MainNet()
	var cases []tCase
	vCases(t, func(line []byte) {
		var c tCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		cases = append(cases, c)
	})
	rng := vRand()
	for i := range cases {
		if rep.full() {
			return
		}
		c := cases[i]
		synctest.Test(t, func(t *testing.T) {
			if time.Now().Unix() != 946684800 {
				rep.fail("the simulated clock starts at %d", time.Now().Unix())
				return
			}
			ts := func(i uint32) uint64 {
				d := int(c.H - i)
				if d > len(c.Stamps) {
					// beyond the ancestors of the specification: must not matter
					return 3 * uint64(i%5000)
				}
				return c.Stamps[d-1]
			}
			seed := hSeed{Top: c.H - 1, Count: 375, Coins: hCoins, Ts: ts}
			anc := hAncestors(seed)
			bc, err := hNewChain(net, seed, anc, nil)
			if err != nil {
				rep.violation("setup", c, "%v", err)
				return
			}
			reward := hReward
			prev := bc.TopBlock().Hash()
			if c.H == 1 {
				reward = hBaseReward(38146972656250)
			}
			var b *Block
			time.Sleep(time.Duration(rng.Intn(1000)) * time.Millisecond)
			for k, o := range c.Offers {
				if d := int64(o.At) - time.Now().Unix(); d > 0 {
					time.Sleep(time.Duration(d) * time.Second)
				}
				if b == nil || b.Timestamp != o.Ts || rng.Intn(2) == 0 {
					b = hBlock(c.H, *prev, o.Ts, reward)
					b.BaseTransaction.Extra = append(b.BaseTransaction.Extra, byte(2), 1, byte(rng.Intn(2)))
					hSeal(b)
				}
				ok, err, p := hAdd(bc, b, nil)
				rep.eval(c.Shape + string(rune(c.H)) + time.Unix(int64(o.Ts), 0).String())
				if p != "" {
					rep.violation("panic", c, "AddBlock panics: %s", p)
					return
				}
				if ok != o.Ok {
					rep.violation("timestamp", c, "offer %d with timestamp %d at clock %d: accepted %v (%v), the specification says %v", k, o.Ts, o.At, ok, err, o.Ok)
					return
				}
			}
			rep.trace()
			rep.sample(c)
		})
	}
}
