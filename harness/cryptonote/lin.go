package harness

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type lCall struct {
	Op  string   `json:"op"`
	B   string   `json:"b"`
	M   string   `json:"m"`
	Ok  bool     `json:"ok"`
	Res []string `json:"res"`
	Inv int64    `json:"inv"`
	Ret int64    `json:"ret"`
	obj *Block
	bod [][]byte
}

// TestVerifLin lets goroutines call the chain at once and records the histories.
func TestVerifLin(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Universe   []uBlock `json:"universe"`
		Histories  int      `json:"histories"`
		Goroutines int      `json:"goroutines"`
		Calls      int      `json:"calls"`
		Base       uint32   `json:"base"`
	}
	vParams(&par)
	rng := vRand()
	net := config.MainNet()
	w, err := uNewWorld(net, par.Base, par.Universe, "", true)
	if err != nil {
		rep.violation("setup", nil, "%v", err)
		return
	}
	names := map[crypto.Hash]string{w.t0: "T0"}
	// offers that matter most often: the blocks of both branches
	common := []string{"A1", "A1", "B1", "B1", "A2", "A2", "B2", "C2", "A3", "C3", "B3", "E3", "A4"}
	var all []string
	for id := range w.byId {
		names[w.hash(id)] = id
		all = append(all, id)
	}
	sort.Strings(all)
	var histories [][]lCall
	for n := 0; n < par.Histories && !rep.full(); n++ {
		bc, err := w.chain(nil)
		if err != nil {
			rep.violation("setup", nil, "%v", err)
			return
		}
		g := 2 + rng.Intn(par.Goroutines-1)
		plans := make([][]lCall, g)
		shared := map[string]*Block{}
		lead := [][]string{{"A1", "A2", "A3", "A4"}, {"B1", "B2", "B3"}, {"A1", "C2", "C3"}, {"B1", "B2", "E3"}}[rng.Intn(4)]
		for k := range plans {
			for i := 0; i < par.Calls; i++ {
				c := lCall{Op: []string{"add", "add", "add", "top", "height", "have", "sparse"}[rng.Intn(7)], M: "right", Res: []string{}}
				switch {
				case c.Op == "add" && i < len(lead) && rng.Intn(3) > 0:
					c.B = lead[i]
				case rng.Intn(8) == 0:
					c.B = all[rng.Intn(len(all))]
				default:
					c.B = common[rng.Intn(len(common))]
				}
				if c.Op == "sparse" && par.Base != 0 {
					c.Op = "top"
				}
				if c.Op == "add" {
					if rng.Intn(12) == 0 && len(w.byId[c.B].Txs) > 0 {
						c.M = "missing"
					}
					if shared[c.B] == nil || rng.Intn(2) == 0 {
						shared[c.B] = w.fresh(c.B, rng)
					}
					c.obj = shared[c.B]
					c.bod = w.deliver(c.B, c.M)
				}
				plans[k] = append(plans[k], c)
			}
		}
		var clock int64
		var wg sync.WaitGroup
		start := make(chan bool)
		yields := make([]int64, g)
		for k := range plans {
			yields[k] = rng.Int63()
		}
		for k := range plans {
			wg.Add(1)
			go func(calls []lCall, seed int64) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-start
				for i := range calls {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					lDo(bc, w, names, &calls[i], &clock)
				}
			}(plans[k], yields[k])
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			rep.violation("hang", plans, "calls do not return")
			return
		}
		var hist []lCall
		for _, p := range plans {
			hist = append(hist, p...)
		}
		for _, c := range hist {
			if len(c.Res) > 0 && c.Res[0] == "panic" {
				rep.violation("panic", hist, "%s panics: %v", c.Op, c.Res)
			}
			rep.eval(fmt.Sprint(n, c.Op, c.B, c.Inv))
		}
		sort.Slice(hist, func(i, j int) bool { return hist[i].Inv < hist[j].Inv })
		histories = append(histories, hist)
	}
	rep.Extra["histories"] = histories
}

func lDo(bc *BlockChain, w *uWorld, names map[crypto.Hash]string, c *lCall, clock *int64) {
	name := func(h crypto.Hash) string {
		if n, ok := names[h]; ok {
			return n
		}
		return "a foreign block"
	}
	var err error
	var top *Block
	var height uint32
	var have bool
	var list []crypto.Hash
	var h crypto.Hash
	if c.Op == "have" {
		h = w.hash(c.B)
	}
	c.Inv = atomic.AddInt64(clock, 1)
	p := vTry(func() {
		switch c.Op {
		case "add":
			err = bc.AddBlock(c.obj, c.bod)
		case "top":
			top = bc.TopBlock()
		case "height":
			height = bc.Height()
		case "have":
			have = bc.HaveBlock(&h)
		case "sparse":
			list, err = bc.BuildSparseChain()
		}
	})
	c.Ret = atomic.AddInt64(clock, 1)
	if p != "" {
		c.Res = []string{"panic", p}
		return
	}
	switch c.Op {
	case "add":
		c.Ok = err == nil
	case "top":
		c.Res = []string{name(*top.Hash())}
	case "height":
		c.Res = []string{fmt.Sprint(height - w.base)}
	case "have":
		c.Res = []string{map[bool]string{true: "TRUE", false: "FALSE"}[have]}
	case "sparse":
		if err != nil {
			c.Res = []string{"error"}
		}
		for _, x := range list {
			c.Res = append(c.Res, name(x))
		}
	}
}
