package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

type uBlock struct {
	Id  string `json:"id"`
	Par string `json:"par"`
	Rel int    `json:"rel"`
	Txs []int  `json:"txs"`
	Why string `json:"why"`
}

type uStep struct {
	B string   `json:"b"`
	M string   `json:"m"`
	V string   `json:"v"`
	T []string `json:"t"`
}

type uCase struct {
	Net   string  `json:"net"`
	Base  uint32  `json:"base"`
	Fault bool    `json:"fault"`
	Steps []uStep `json:"steps"`
}

// uWorld is the universe of blocks of Chain.tla on top of one base block.
type uWorld struct {
	net    *config.Network
	base   uint32
	seed   hSeed
	anc    []*Block
	byId   map[string]uBlock
	blocks map[string]*Block
	bodies map[string][][]byte
	coins  []uint64 // generated coins at rel 0, 1, ...
	cp     string
	zone   bool
	t0     crypto.Hash
}

const uFee = uint64(200000000000)

func uTx(n int) *Transaction {
	s := hTxSpec{Key: 10 + n, In: 5000000000000 + uFee, Outs: []uint64{5000000000000}, Unlock: uint64(n)}
	switch n {
	case 6: // key image of transaction 1
		s.Key = 11
		s.Outs = []uint64{3000000000000, 2000000000000}
	case 5: // no fee
		s.In = 5000000000000
	}
	return hTx(s)
}

// uTs gives timestamps which go up and down, and repeat: within the rules a block may be older than its parent.
func uTs(index uint32) uint64 { return uTsOf(index, "") }

func uTsOf(index uint32, id string) uint64 {
	h := crypto.Keccak([]byte(fmt.Sprint(vSeed(), index, id)))
	// at most 480 s off the regular time, so never older than the median of the last eleven
	return hTs0 + uint64(index)*240 + uint64(h[0]%5)*240 - 480
}

func uNewWorld(net *config.Network, base uint32, universe []uBlock, cp string, zone bool) (*uWorld, error) {
	w := &uWorld{net: net, base: base, byId: map[string]uBlock{}, blocks: map[string]*Block{}, bodies: map[string][][]byte{}, cp: cp, zone: zone}
	coins := hCoins
	if base == 0 {
		coins = 38146972656250
	}
	w.seed = hSeed{Top: base, Count: 375, Coins: coins, Ts: uTs, Net: net}
	w.anc = hAncestors(w.seed)
	w.coins = []uint64{coins}
	for i := 0; i < 8; i++ {
		coins += hBaseReward(coins)
		w.coins = append(w.coins, coins)
	}
	if base == 0 {
		bc := NewBlockChain(net, NewMemoryStorage(), hLogger())
		g, err := bc.GenesisBlock()
		if err != nil {
			return nil, err
		}
		w.t0 = *g.Hash()
	} else {
		w.t0 = *w.anc[len(w.anc)-1].Hash()
	}
	for _, u := range universe {
		w.byId[u.Id] = u
	}
	for _, u := range universe {
		w.build(u.Id)
	}
	return w, nil
}

func (w *uWorld) depth(id string) int {
	if id == "T0" || id == "??" {
		return 0
	}
	return w.depth(w.byId[id].Par) + 1
}

func (w *uWorld) hash(id string) crypto.Hash {
	switch id {
	case "T0":
		return w.t0
	case "??":
		return crypto.HashFromBytes([]byte("a block nobody has"))
	}
	return *w.build(id).Hash()
}

func (w *uWorld) build(id string) *Block {
	if b, ok := w.blocks[id]; ok {
		return b
	}
	u := w.byId[id]
	index := w.base + uint32(u.Rel)
	reward := hBaseReward(w.coins[w.depth(id)-1])
	at := index
	if u.Rel > 100 {
		at = w.base + uint32(w.depth(id))
	}
	b := hBlock(index, w.hash(u.Par), uTsOf(at, id), 0)
	for _, n := range u.Txs {
		t := uTx(n)
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
		w.bodies[id] = append(w.bodies[id], uTx(n).Serialize())
		if n != 5 {
			reward += uFee
		}
	}
	switch u.Why {
	case "reward":
		reward++
	case "version":
		b.MajorVersion = b.MajorVersion%5 + 1
	case "future":
		b.Timestamp = 1 << 40
	case "unlock":
		b.BaseTransaction.UnlockHeight--
	}
	b.Nonce = uint32(id[0])<<8 | uint32(id[1])
	b.BaseTransaction.Outputs[0].Amount = reward
	w.blocks[id] = hSeal(b)
	return b
}

// fresh returns an object for the block that was never offered, as built or as decoded from its bytes.
func (w *uWorld) fresh(id string, rng *rand.Rand) *Block {
	b := hFresh(w.blocks[id])
	if rng.Intn(2) == 0 {
		c := &Block{}
		if err := c.Deserialize(bytes.NewReader(b.Serialize())); err == nil {
			return c
		}
	}
	return b
}

func (w *uWorld) deliver(id, mode string) [][]byte {
	var res [][]byte
	for _, x := range w.bodies[id] {
		res = append(res, append([]byte(nil), x...))
	}
	n := len(res) - 1
	switch mode {
	case "extra":
		res = append(res, uTx(9).Serialize())
	case "missing":
		res = res[:n]
	case "garbage":
		res[n] = []byte{1, 0, 0xfe, 3}
	case "other":
		res[n] = uTx(8).Serialize()
	case "swap":
		res[0], res[1] = res[1], res[0]
	}
	return res
}

func (w *uWorld) chain(wrap func(Storage) Storage) (*BlockChain, error) {
	bc, err := hNewChain(w.net, w.seed, w.anc, wrap)
	if err != nil {
		return nil, err
	}
	if w.zone {
		hZone(bc)
	}
	if w.cp != "" {
		if err := bc.Checkpoints.AddCheckpoint(w.base+uint32(w.byId[w.cp].Rel), w.hash(w.cp)); err != nil {
			return nil, err
		}
	}
	return bc, nil
}

// observe compares everything a caller can see with the chain of the specification.
func (w *uWorld) observe(bc *BlockChain, chain []string) string {
	tip := "T0"
	on := map[string]bool{"T0": true}
	for _, id := range chain {
		on[id] = true
		tip = id
	}
	index := w.base + uint32(len(chain))
	top := bc.TopBlock()
	if *top.Hash() != w.hash(tip) {
		return fmt.Sprintf("top block is not %s", tip)
	}
	if top.Index() != index {
		return fmt.Sprintf("top index %d, expected %d", top.Index(), index)
	}
	if bc.Height() != index+1 {
		return fmt.Sprintf("height %d, expected %d", bc.Height(), index+1)
	}
	for id := range w.byId {
		h := w.hash(id)
		if bc.HaveBlock(&h) != on[id] {
			return fmt.Sprintf("block %s known: %v, expected %v", id, !on[id], on[id])
		}
	}
	t0 := w.t0
	if !bc.HaveBlock(&t0) {
		return "the base block is not known any more"
	}
	if unknown := w.hash("??"); bc.HaveBlock(&unknown) {
		return "a block nobody has is known"
	}
	if w.base == 0 {
		sp, err := bc.BuildSparseChain()
		if err != nil {
			return "sparse chain: " + err.Error()
		}
		var exp []crypto.Hash
		at := func(i int) crypto.Hash {
			if i == 0 {
				return w.t0
			}
			return w.hash(chain[i-1])
		}
		n := len(chain)
		exp = append(exp, at(n))
		for k := 1; k < n; k *= 2 {
			exp = append(exp, at(n-k))
		}
		if n > 0 {
			exp = append(exp, at(0))
		}
		if fmt.Sprint(exp) != fmt.Sprint(sp) {
			return fmt.Sprintf("sparse chain %v, expected %v", sp, exp)
		}
	}
	return ""
}

func TestVerifChain(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Universe   []uBlock `json:"universe"`
		Checkpoint string   `json:"checkpoint"`
		Zone       bool     `json:"zone"`
	}
	vParams(&par)
	rng := vRand()
	worlds := map[string]*uWorld{}
	var mu sync.Mutex
	vCases(t, func(line []byte) {
		if rep.full() {
			return
		}
		var c uCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		mu.Lock()
		key := fmt.Sprint(c.Net, c.Base)
		w := worlds[key]
		if w == nil {
			net := config.MainNet()
			if c.Net == "test" {
				net = config.TestNet()
			}
			var err error
			if w, err = uNewWorld(net, c.Base, par.Universe, par.Checkpoint, par.Zone); err != nil {
				rep.violation("setup", c, "the base chain cannot be set up: %v", err)
				mu.Unlock()
				return
			}
			worlds[key] = w
		}
		mu.Unlock()
		if c.Fault && uFaulty == nil {
			return
		}
		w.run(rep, rng, c)
	})
}

// uFaulty wraps a storage so that the armed push fails; nil when not available.
var uFaulty func(Storage) (Storage, func())

func (w *uWorld) run(rep *vRep, rng *rand.Rand, c uCase) {
	var wrap func(Storage) Storage
	arm := func() {}
	if c.Fault {
		wrap = func(s Storage) Storage {
			f, a := uFaulty(s)
			arm = a
			return f
		}
	}
	bc, err := w.chain(wrap)
	if err != nil {
		rep.violation("setup", c, "the base chain cannot be set up: %v", err)
		return
	}
	pool := map[string]*Block{}
	if why := w.observe(bc, nil); why != "" {
		rep.violation("setup", c, "before any block: %s", why)
		return
	}
	var before []string
	for i, s := range c.Steps {
		b := pool[s.B]
		if b == nil || rng.Intn(2) == 0 {
			b = w.fresh(s.B, rng)
			pool[s.B] = b
		}
		if c.Fault && s.V == "accepted" {
			// the storage refuses once: the block is refused and nothing changes
			arm()
			ok, err, p := hAdd(bc, b, w.deliver(s.B, s.M))
			if p != "" {
				rep.violation("panic", c, "step %d: AddBlock panics: %s", i, p)
				return
			}
			if ok {
				rep.violation("fault", c, "step %d: block %s reported as accepted although the storage refused it", i, s.B)
				return
			}
			_ = err
			if why := w.observe(bc, before); why != "" {
				rep.violation("fault", c, "step %d: after a failed push of %s: %s", i, s.B, why)
				return
			}
			rep.count("storage_faults", 1)
		}
		ok, err, p := hAdd(bc, b, w.deliver(s.B, s.M))
		rep.eval(fmt.Sprint(w.base, s.B, s.M, s.V, before))
		if p != "" {
			rep.violation("panic", c, "base %d step %d: AddBlock(%s, %s) panics: %s", c.Base, i, s.B, s.M, p)
			return
		}
		if ok != (s.V == "accepted") {
			rep.violation("verdict:"+s.V, c, "base %d step %d: AddBlock(%s, bodies %s) on %v gives %v, the specification says %s", c.Base, i, s.B, s.M, before, err, s.V)
			return
		}
		if why := w.observe(bc, s.T); why != "" {
			rep.violation("state:"+s.V, c, "base %d step %d: after AddBlock(%s, bodies %s) on %v (%s): %s", c.Base, i, s.B, s.M, before, s.V, why)
			return
		}
		before = s.T
	}
	rep.trace()
	rep.sample(c)
}
