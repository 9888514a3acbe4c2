package harness

import (
	"encoding/json"
	"testing"
)

type wCase struct {
	Version  byte   `json:"version"`
	Median   uint64 `json:"median"`
	Size     uint64 `json:"sz"`
	Coins    uint64 `json:"coins"`
	Fee      uint64 `json:"fee"`
	Big      bool   `json:"big"`
	Claim    uint64 `json:"claim"`
	Emission int64  `json:"emission"`
}

func TestVerifReward(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	net := MainNet()
	n := 0
	vCases(t, func(line []byte) {
		var c wCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		rep.trace()
		n++
		if n%4001 == 1 {
			rep.sample(c)
		}
		var r, e uint64
		var err error
		p := vTry(func() { r, e, err = net.GetBlockReward(c.Version, c.Median, c.Size, c.Coins, c.Fee) })
		switch {
		case p != "":
			rep.violation("panic", c, "reward: panic %s", p)
		case (err != nil) != c.Big:
			rep.violation("too-big", c, "size %d with median %d in version %d: error %v", c.Size, c.Median, c.Version, err)
		case err == nil && r != c.Claim:
			rep.violation("reward", c, "reward is %d, not %d", c.Claim, r)
		case err == nil && int64(e) != c.Emission:
			rep.violation("emission", c, "emission is %d, not %d", c.Emission, int64(e))
		}
	})
}
