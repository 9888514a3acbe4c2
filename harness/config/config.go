package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

func TestVerifFork(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	vCases(t, func(line []byte) {
		var c struct {
			Lo         uint32 `json:"lo"`
			Hi         uint32 `json:"hi"`
			Version    byte   `json:"version"`
			Future     uint64 `json:"future"`
			Tswindow   uint32 `json:"tswindow"`
			Diffwindow uint32 `json:"diffwindow"`
			Zone       uint64 `json:"zone"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		net := MainNet()
		rep.eval(string(line))
		ask := func(h uint32) bool {
			if got := net.GetBlockMajorVersion(h); got != c.Version {
				rep.violation("version", c, "height %d has version %d, expected %d", h, got, c.Version)
				return false
			}
			return true
		}
		for h := c.Lo; h <= c.Hi; h++ {
			if !ask(h) {
				return
			}
			rep.count("heights", 1)
		}
		// again and again where it matters, and with networks made anew
		for _, h := range []uint32{c.Lo, c.Lo + 1, c.Hi - 1, c.Hi, (c.Lo + c.Hi) / 2} {
			for i := 0; i < 2000; i++ {
				if i%20 == 0 {
					net = MainNet()
				}
				if !ask(h) {
					return
				}
			}
		}
		cmp := func(what string, got, want uint64) {
			if got != want {
				rep.violation("param", c, "%s of version %d is %d, expected %d", what, c.Version, got, want)
			}
		}
		cmp("future limit", net.BlockFutureTimeLimit(c.Version), c.Future)
		cmp("timestamp window", uint64(net.BlockTimestampCheckWindow(c.Version)), uint64(c.Tswindow))
		cmp("difficulty window", uint64(net.DifficultyBlocksCountByBlockVersion(c.Version)), uint64(c.Diffwindow))
		cmp("full reward zone", net.BlockGrantedFullRewardZoneByBlockVersion(c.Version), c.Zone)
		rep.trace()
		rep.sample(c)
	})
}

func TestVerifCheckpoints(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	type table struct {
		Points []int   `json:"points"`
		Zone   []int   `json:"zone"`
		Alt    [][]int `json:"alt"`
	}
	type step struct {
		I  uint32 `json:"i"`
		H  int    `json:"h"`
		Ok bool   `json:"ok"`
		T  []int  `json:"t"`
	}
	var par struct {
		Indexes []uint32 `json:"indexes"`
		Sizes   []uint32 `json:"sizes"`
		Heights []uint32 `json:"heights"`
		Tables  []table  `json:"tables"`
	}
	if err := json.Unmarshal(vReadParamsFile(), &par); err != nil {
		t.Fatal(err)
	}
	tables := map[string]table{}
	for _, x := range par.Tables {
		tables[fmt.Sprint(x.Points)] = x
	}
	hash := func(i int) crypto.Hash { return crypto.HashFromBytes([]byte(fmt.Sprint("checkpoint ", i))) }
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	verify := func(cp Checkpoints, pts []int, c interface{}) bool {
		x, ok := tables[fmt.Sprint(pts)]
		if !ok {
			rep.fail("no table for %v", pts)
			return false
		}
		only0 := true
		for k, p := range pts {
			if par.Indexes[k] != 0 && p != 0 {
				only0 = false
			}
		}
		for k, h := range par.Heights {
			if only0 && h == 0 {
				continue // a checkpoint for the genesis block alone makes no zone
			}
			if got := cp.IsInCheckpointZone(h); got != (x.Zone[k] == 1) {
				rep.violation("zone", c, "with checkpoints %v at %v: height %d in the zone: %v", pts, par.Indexes, h, got)
				return false
			}
		}
		for k, i := range par.Indexes {
			for _, hv := range []int{1, 2, 3} {
				h := hash(hv)
				err := cp.CheckBlock(i, &h)
				if want := pts[k] == 0 || pts[k] == hv; (err == nil) != want {
					rep.violation("check", c, "with checkpoints %v at %v: CheckBlock(%d, hash %d) gives %v", pts, par.Indexes, i, hv, err)
					return false
				}
			}
			h := hash(9)
			if err := cp.CheckBlock(i+1, &h); err != nil && !vHas(par.Indexes, i+1) {
				rep.violation("check", c, "CheckBlock(%d) gives %v without a checkpoint there", i+1, err)
				return false
			}
		}
		for a, size := range par.Sizes {
			for b, h := range par.Heights {
				err := cp.AlternativeBlockAllowed(size, h)
				if (err == nil) != (x.Alt[a][b] == 1) {
					rep.violation("alt", c, "with checkpoints %v at %v: alternative block at %d for chain size %d gives %v, expected allowed=%d", pts, par.Indexes, h, size, err, x.Alt[a][b])
					return false
				}
			}
		}
		return true
	}
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c struct {
			Steps []step `json:"steps"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		done := make(chan bool, 1)
		go func() {
			defer func() { done <- true }()
			if p := vTry(func() {
				cp := NewCheckpoints(l)
				if !verify(cp, make([]int, len(par.Indexes)), c) {
					return
				}
				last := ""
				for n, s := range c.Steps {
					err := cp.AddCheckpoint(s.I, hash(s.H))
					rep.eval(fmt.Sprint(s))
					if (err == nil) != s.Ok {
						rep.violation("add", c, "step %d: AddCheckpoint(%d) gives %v, expected ok=%v", n, s.I, err, s.Ok)
						return
					}
					if k := fmt.Sprint(s.T); k != last || n%7 == 0 {
						last = k
						if !verify(cp, s.T, c) {
							return
						}
					}
				}
				rep.trace()
				rep.sample(c)
			}); p != "" {
				rep.violation("panic", c, "%s", p)
			}
		}()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			rep.violation("hang", c, "a query does not answer")
			rep.save(t)
			t.FailNow()
		}
	})
}

func vHas(l []uint32, x uint32) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
