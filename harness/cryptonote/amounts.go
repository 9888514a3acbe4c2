package harness

import (
	"encoding/json"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
)

type dCase struct {
	Amount    uint64   `json:"amount"`
	Threshold uint64   `json:"threshold"`
	Big       []uint64 `json:"big"`
	Small     uint64   `json:"small"`
}

func TestVerifDecompose(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	seed := hSeed{Top: 5, Count: 5, Coins: hCoins}
	bc, err := hNewChain(config.MainNet(), seed, hAncestors(seed), nil)
	if err != nil {
		rep.violation("setup", nil, "%v", err)
		return
	}
	n := 0
	vCases(t, func(line []byte) {
		var c dCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		rep.trace()
		n++
		if n%2001 == 1 {
			rep.sample(c)
		}
		var chunks, dusts, all []uint64
		if p := vTry(func() {
			chunks, dusts = DecomposeAmountIntoDigits(c.Amount, c.Threshold)
			all = bc.DecomposeAmount(c.Amount, c.Threshold)
		}); p != "" {
			rep.violation("panic", c, "decomposition panics: %s", p)
			return
		}
		small := []uint64{}
		if c.Small != 0 {
			small = append(small, c.Small)
		}
		both := append(append([]uint64{}, c.Big...), small...)
		if fmt.Sprint(chunks) != fmt.Sprint(c.Big) || fmt.Sprint(dusts) != fmt.Sprint(small) {
			rep.violation("digits", c, "%d with threshold %d is decomposed into %v and dust %v, expected %v and %v", c.Amount, c.Threshold, chunks, dusts, c.Big, small)
		} else if fmt.Sprint(all) != fmt.Sprint(both) {
			rep.violation("chain", c, "the chain decomposes %d with threshold %d into %v, expected %v", c.Amount, c.Threshold, all, both)
		}
	})
}

type ulCase struct {
	Unlock uint64 `json:"unlock"`
	Height uint32 `json:"height"`
	Now    int64  `json:"now"`
	Open   bool   `json:"open"`
}

func TestVerifUnlock(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	seed := hSeed{Top: 5, Count: 5, Coins: hCoins}
	bc, err := hNewChain(config.MainNet(), seed, hAncestors(seed), nil)
	if err != nil {
		rep.violation("setup", nil, "%v", err)
		return
	}
	rng := vRand()
	n := 0
	vCases(t, func(line []byte) {
		var c ulCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		rep.trace()
		n++
		if n%2001 == 1 {
			rep.sample(c)
		}
		ms := time.Duration(rng.Intn(1000)) * time.Millisecond
		synctest.Test(t, func(t *testing.T) {
			time.Sleep(time.Unix(c.Now, 0).Sub(time.Now()) + ms)
			var open bool
			if p := vTry(func() { open = bc.IsTransactionSpendTimeUnlocked(c.Unlock, c.Height) }); p != "" {
				rep.violation("panic", c, "unlock time panics: %s", p)
			} else if open != c.Open {
				rep.violation("unlock", c, "an output with unlock time %d can be spent at height %d at %d: %v, expected %v", c.Unlock, c.Height, c.Now, open, c.Open)
			}
		})
	})
}
