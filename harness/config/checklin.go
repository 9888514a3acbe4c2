package harness

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

type clCall struct {
	Op   string `json:"op"`
	I    uint32 `json:"i"`
	H    int    `json:"h"`
	Size uint32 `json:"size"`
	Ok   bool   `json:"ok"`
	Inv  int64  `json:"inv"`
	Ret  int64  `json:"ret"`
	p    string
}

// TestVerifCheckpointsLin records histories of concurrent calls.
func TestVerifCheckpointsLin(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Indexes    []uint32 `json:"indexes"`
		Sizes      []uint32 `json:"sizes"`
		Heights    []uint32 `json:"heights"`
		Histories  int      `json:"histories"`
		Goroutines int      `json:"goroutines"`
		Calls      int      `json:"calls"`
	}
	vParams(&par)
	rng := vRand()
	hashes := map[int]crypto.Hash{}
	for i := 1; i <= 3; i++ {
		hashes[i] = crypto.HashFromBytes([]byte(fmt.Sprint("checkpoint ", i)))
	}
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	var histories [][]clCall
	for n := 0; n < par.Histories && !rep.full(); n++ {
		cp := NewCheckpoints(l)
		var clock int64
		var wg sync.WaitGroup
		start := make(chan bool)
		calls := make([][]clCall, par.Goroutines)
		for g := range calls {
			for k := 0; k < par.Calls; k++ {
				c := clCall{Op: []string{"add", "add", "zone", "check", "alt", "alt"}[rng.Intn(6)], H: 1 + rng.Intn(3)}
				c.I = par.Heights[rng.Intn(len(par.Heights))]
				c.Size = par.Sizes[rng.Intn(len(par.Sizes))]
				if c.Op == "add" || c.Op == "check" {
					c.I = par.Indexes[rng.Intn(len(par.Indexes))]
					if c.Op == "add" {
						c.H = 1 + rng.Intn(2)
					}
				}
				calls[g] = append(calls[g], c)
			}
			wg.Add(1)
			go func(cs []clCall, r *rand.Rand) {
				defer wg.Done()
				<-start
				for i := range cs {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					c := &cs[i]
					h := hashes[c.H]
					c.Inv = atomic.AddInt64(&clock, 1)
					c.p = vTry(func() {
						switch c.Op {
						case "add":
							c.Ok = cp.AddCheckpoint(c.I, h) == nil
						case "zone":
							c.Ok = cp.IsInCheckpointZone(c.I)
						case "check":
							c.Ok = cp.CheckBlock(c.I, &h) == nil
						case "alt":
							c.Ok = cp.AlternativeBlockAllowed(c.Size, c.I) == nil
						}
					})
					c.Ret = atomic.AddInt64(&clock, 1)
				}
			}(calls[g], rand.New(rand.NewSource(rng.Int63())))
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(40 * time.Second):
			rep.violation("hang", nil, "concurrent calls of the checkpoints do not return")
			return
		}
		var hist []clCall
		for _, cs := range calls {
			hist = append(hist, cs...)
		}
		for _, c := range hist {
			rep.eval(fmt.Sprint(n, c))
			if c.p != "" {
				rep.violation("panic", c, "%s panics: %s", c.Op, c.p)
			}
		}
		histories = append(histories, hist)
	}
	rep.Extra["histories"] = histories
}
