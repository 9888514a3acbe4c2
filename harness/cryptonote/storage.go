package harness

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type gBlk struct {
	Id    string `json:"id"`
	Index uint32 `json:"index"`
	Txs   []int  `json:"txs"`
}

// stHaveTx asks for a confirmed transaction; nil when there is no such way in.
var stHaveTx func(Storage, *crypto.Hash) bool

// stInfo returns the hash and index kept as information at an index.
var stInfo func(Storage, uint32) (crypto.Hash, uint32, bool)

type stWorld struct {
	blks    map[string]gBlk
	blocks  map[string]*Block
	names   map[crypto.Hash]string
	indexes []uint32
}

func stTx(n int) crypto.Hash { return crypto.HashFromBytes([]byte(fmt.Sprint("transaction", n))) }

func stNew(blks []gBlk, indexes []uint32) *stWorld {
	w := &stWorld{blks: map[string]gBlk{}, blocks: map[string]*Block{}, names: map[crypto.Hash]string{}, indexes: indexes}
	for i, x := range blks {
		b := hBlock(x.Index, crypto.HashFromBytes([]byte(x.Id)), 1000+uint64(i), uint64(1000+i))
		b.MajorVersion = 1
		if x.Id == "g" {
			g, err := NewBlockChain(config.MainNet(), NewMemoryStorage(), hLogger()).GenesisBlock()
			if err != nil {
				panic(err)
			}
			b = hFresh(g)
		}
		for _, n := range x.Txs {
			b.TransactionsHashes = append(b.TransactionsHashes, stTx(n))
		}
		w.blks[x.Id], w.blocks[x.Id] = x, b
		w.names[*b.Hash()] = x.Id
	}
	return w
}

func (w *stWorld) push(s Storage, id, claim string) (bool, string) {
	b := hFresh(w.blocks[id])
	x := w.blks[id]
	info := NewBlockInfo(x.Index, 5)
	info.Hash = *b.Hash()
	switch claim {
	case "index":
		info.Index++
	case "far":
		info.Index ^= 0x10000
	case "hash0":
		info.Hash[0] ^= 0x80
	case "hash":
		info.Hash[31] ^= 1
	}
	info.Size, info.CumulativeDifficulty = 7, 8
	var err error
	p := vTry(func() { err = s.PushBlock(b, info, TransactionsDetails{}) })
	return err == nil && p == "", p
}

func (w *stWorld) name(h *crypto.Hash) string {
	if h == nil {
		return ""
	}
	if n, ok := w.names[*h]; ok {
		return n
	}
	return "another block"
}

func (w *stWorld) nameOf(b *Block) string {
	if b == nil {
		return ""
	}
	return w.name(b.Hash())
}

// observe asks for everything.
func (w *stWorld) observe(s Storage, on map[string]bool, top string, txs map[int]bool) (why string) {
	if p := vTry(func() {
		at := map[uint32]string{}
		for id, x := range w.blks {
			h := *w.blocks[id].Hash()
			if s.HaveBlock(&h) != on[id] {
				why = fmt.Sprintf("block %s is stored: %v, expected %v", id, !on[id], on[id])
			}
			b := s.GetBlock(&h)
			if (b != nil) != on[id] || (b != nil && (w.nameOf(b) != id || b.Index() != x.Index)) {
				why = fmt.Sprintf("asked for block %s, got %q", id, w.nameOf(b))
			}
			if on[id] {
				at[x.Index] = id
			}
		}
		for _, i := range w.indexes {
			h, err := s.HashAtIndex(i)
			if err != nil && at[i] == "" {
				h = nil
			}
			if w.name(h) != at[i] {
				why = fmt.Sprintf("at index %d is %q, expected %q", i, w.name(h), at[i])
			}
			if stInfo != nil {
				h, k, ok := stInfo(s, i)
				if ok != (at[i] != "") || (ok && (w.name(&h) != at[i] || k != i)) {
					why = fmt.Sprintf("the information at index %d is of %q, expected %q", i, w.name(&h), at[i])
				}
			}
		}
		none := crypto.HashFromBytes([]byte("no block"))
		if s.HaveBlock(&none) || s.GetBlock(&none) != nil {
			why = "a block that was never pushed is stored"
		}
		if top != "" {
			b, err := s.TopBlock()
			i, err2 := s.TopIndex()
			if err != nil || err2 != nil || w.nameOf(b) != top || i != w.blks[top].Index {
				why = fmt.Sprintf("the top block is %q at index %d, expected %s", w.nameOf(b), i, top)
			}
		}
		if stHaveTx != nil {
			for n := 0; n < 6; n++ {
				h := stTx(n)
				if stHaveTx(s, &h) != txs[n] {
					why = fmt.Sprintf("transaction %d is confirmed: %v, expected %v", n, !txs[n], txs[n])
				}
			}
		}
	}); p != "" {
		return "a question panics: " + p
	}
	return why
}

func TestVerifStorage(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Blocks  []gBlk   `json:"blocks"`
		Indexes []uint32 `json:"indexes"`
	}
	vParams(&par)
	w := stNew(par.Blocks, par.Indexes)
	vCases(t, func(line []byte) {
		var c struct {
			Steps []struct {
				Op, B, C string
				Ok       bool
				O        struct {
					Ids []string
					Top string
					Txs []int
				}
			}
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		vCur(json.RawMessage(line))
		rep.trace()
		s := NewMemoryStorage()
		if why := w.observe(s, nil, "", nil); why != "" {
			rep.violation("empty", c, "an empty storage: %s", why)
		}
		for i, x := range c.Steps {
			var ok bool
			var p string
			if x.Op == "init" {
				var err error
				p = vTry(func() { err = s.Init(hFresh(w.blocks["g"])) })
				ok = err == nil && p == ""
			} else {
				ok, p = w.push(s, x.B, x.C)
			}
			rep.eval(fmt.Sprint(x, i))
			c.Steps = c.Steps[:len(c.Steps)]
			if p != "" {
				rep.violation("panic", c.Steps[:i+1], "%s of %s panics: %s", x.Op, x.B, p)
				return
			}
			if ok != x.Ok {
				rep.violation("verdict", c.Steps[:i+1], "%s of %s (%s) succeeds: %v, expected %v", x.Op, x.B, x.C, ok, x.Ok)
				return
			}
			on, txs := map[string]bool{}, map[int]bool{}
			for _, id := range x.O.Ids {
				on[id] = true
			}
			for _, n := range x.O.Txs {
				txs[n] = true
			}
			if why := w.observe(s, on, x.O.Top, txs); why != "" {
				rep.violation("state", c.Steps[:i+1], "after %s of %s (%s): %s", x.Op, x.B, x.C, why)
				return
			}
		}
		if p := vTry(func() { _ = s.Close() }); p != "" {
			rep.violation("close", c, "closing panics: %s", p)
		}
		rep.sample(c)
	})
}

type stCall struct {
	Op  string `json:"op"`
	B   string `json:"b"`
	C   string `json:"c"`
	Ok  bool   `json:"ok"`
	Res string `json:"res"`
	Inv int64  `json:"inv"`
	Ret int64  `json:"ret"`
}

// TestVerifStorageLin records histories of concurrent calls.
func TestVerifStorageLin(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Blocks     []gBlk   `json:"blocks"`
		Indexes    []uint32 `json:"indexes"`
		Histories  int      `json:"histories"`
		Goroutines int      `json:"goroutines"`
		Calls      int      `json:"calls"`
	}
	vParams(&par)
	w := stNew(par.Blocks, par.Indexes)
	rng := vRand()
	var ids []string
	for id := range w.blks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	ops := []string{"push", "push", "push", "top", "topindex", "have", "get", "at"}
	if stHaveTx != nil {
		ops = append(ops, "tx")
	}
	var histories [][]stCall
	for n := 0; n < par.Histories && !rep.full(); n++ {
		s := NewMemoryStorage()
		if err := s.Init(hFresh(w.blocks["g"])); err != nil {
			rep.violation("setup", nil, "%v", err)
			return
		}
		var clock int64
		var wg sync.WaitGroup
		start := make(chan bool)
		calls := make([][]stCall, par.Goroutines)
		for g := range calls {
			for k := 0; k < par.Calls; k++ {
				c := stCall{Op: ops[rng.Intn(len(ops))], B: ids[rng.Intn(len(ids))], C: "right"}
				if c.Op == "push" && rng.Intn(8) == 0 {
					c.C = []string{"index", "far", "hash", "hash0"}[rng.Intn(4)]
				}
				if c.Op == "tx" {
					c.B = "a1"
				}
				calls[g] = append(calls[g], c)
			}
			wg.Add(1)
			go func(cs []stCall, r *rand.Rand) {
				defer wg.Done()
				<-start
				for i := range cs {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					w.do(s, &cs[i], &clock)
				}
			}(calls[g], rand.New(rand.NewSource(rng.Int63())))
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			rep.violation("hang", nil, "calls do not return")
			return
		}
		var hist []stCall
		for _, cs := range calls {
			hist = append(hist, cs...)
		}
		for _, c := range hist {
			if len(c.Res) > 5 && c.Res[:5] == "panic" {
				rep.violation("panic", hist, "%s panics: %s", c.Op, c.Res)
			}
			rep.eval(fmt.Sprint(n, c))
		}
		histories = append(histories, hist)
	}
	rep.Extra["histories"] = histories
}

func (w *stWorld) do(s Storage, c *stCall, clock *int64) {
	h := *w.blocks[c.B].Hash()
	x := stTx(1)
	c.Inv = atomic.AddInt64(clock, 1)
	p := vTry(func() {
		switch c.Op {
		case "push":
			c.Ok, c.Res = w.push(s, c.B, c.C)
		case "top":
			b, _ := s.TopBlock()
			c.Res = w.nameOf(b)
		case "topindex":
			i, err := s.TopIndex()
			c.Res = fmt.Sprint("index ", i, err)
			if err == nil {
				// told apart by the block at the index: an index is never taken by another block
				g, _ := s.HashAtIndex(i)
				c.Res = w.name(g)
			}
		case "have":
			if s.HaveBlock(&h) {
				c.Res = c.B
			}
		case "get":
			c.Res = w.nameOf(s.GetBlock(&h))
		case "at":
			g, err := s.HashAtIndex(w.blks[c.B].Index)
			if err == nil {
				c.Res = w.name(g)
			}
		case "tx":
			if stHaveTx(s, &x) {
				c.Res = "yes"
			}
		}
	})
	c.Ret = atomic.AddInt64(clock, 1)
	if p != "" {
		c.Res = "panic " + p
	}
}
