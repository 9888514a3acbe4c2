package harness

import (
	"encoding/json"
	"testing"
)

type dCase struct {
	Net  string   `json:"net"`
	Top  uint32   `json:"top"`
	Ts   []uint64 `json:"ts"`
	Cum  []uint64 `json:"cum"`
	Low  uint64   `json:"low"`
	High uint64   `json:"high"`
}

func TestVerifDifficulty(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	n := 0
	vCases(t, func(line []byte) {
		var c dCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		rep.eval(string(line))
		rep.trace()
		n++
		net := MainNet()
		if c.Net == "test" {
			net = TestNet()
		}
		v := net.GetBlockMajorVersion(c.Top + 1)
		var d uint64
		var err error
		p := vTry(func() {
			d, err = net.NextDifficulty(c.Top, v, append([]uint64(nil), c.Ts...), append([]uint64(nil), c.Cum...))
		})
		if p != "" || err != nil || d < c.Low || d > c.High {
			rep.violation("difficulty", c, "%s net, version %d after block %d with %d ancestors: %d %v %s, expected %d to %d", c.Net, v, c.Top, len(c.Ts), d, err, p, c.Low, c.High)
		}
		rep.count("version"+string('0'+rune(v)), 1)
		if n%501 == 1 {
			k := len(c.Ts)
			if k > 8 {
				k = 8
			}
			rep.sample(map[string]interface{}{"top": c.Top, "ancestors": len(c.Ts), "first_ts": c.Ts[:k], "first_cum": c.Cum[:k], "low": c.Low, "high": c.High})
		}
	})
}
