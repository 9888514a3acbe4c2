package p2p

import (
	"encoding/binary"
	"fmt"
	"io"
	"sync"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/sirupsen/logrus"
	"go.uber.org/zap"
)

// ---- keys, blocks and chains ----------------------------------------------

func xLogger() *logrus.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.PanicLevel)
	return l
}

func xSecret(i int) crypto.SecretKey {
	h := crypto.HashFromBytes([]byte(fmt.Sprintf("verif key %d", i)))
	h[31] &= 0x0f
	return crypto.SecretKey(h)
}

func xPublic(i int) crypto.PublicKey {
	sec := xSecret(i)
	pub, err := crypto.PublicFromSecret(&sec)
	if err != nil {
		panic(err)
	}
	return *pub
}

// xTx spends inside the checkpoint zone.
func xTx(i int) *cryptonote.Transaction {
	sec, pub := xSecret(1000+i), xPublic(1000+i)
	ki, err := crypto.GenerateKeyImage(&pub, &sec)
	if err != nil {
		panic(err)
	}
	t := &cryptonote.Transaction{}
	t.Version = 1
	t.Inputs = []cryptonote.TransactionInput{cryptonote.InputKey{Amount: 5000000000000 + xFee, OutputIndexes: []uint32{1}, KeyImage: *ki}}
	t.TransactionSignatures = cryptonote.TransactionSignatures{[]crypto.Signature{{}}}
	t.Outputs = []cryptonote.TransactionOutput{{Amount: 5000000000000, Target: cryptonote.OutputKey{PublicKey: xPublic(1)}}}
	return t
}

const xFee = uint64(200000000000)
const xTs0 = uint64(900000000) // before the virtual clock of the bubbles

// xWorld is the universe of blocks of Peer.tla.
type xWorld struct {
	mu     sync.Mutex
	net    *config.Network
	salt   int
	plain  bool // blocks without transactions: nothing is spent outside the checkpoint zone
	main   []crypto.Hash
	reward []uint64
	blocks map[int]*cryptonote.Block
	raw    map[int][]byte
	bodies map[int][][]byte
}

func xNewWorld(salt int) *xWorld {
	w := &xWorld{net: config.MainNet(), salt: salt, blocks: map[int]*cryptonote.Block{}, raw: map[int][]byte{}, bodies: map[int][][]byte{}}
	g, err := cryptonote.NewBlockChain(w.net, cryptonote.NewMemoryStorage(), xLogger()).GenesisBlock()
	if err != nil {
		panic(err)
	}
	w.main = []crypto.Hash{*g.Hash()}
	w.blocks[0], w.raw[0] = g, g.Serialize()
	w.reward = []uint64{38146972656250}
	coins := w.reward[0]
	for i := 1; i < 1000; i++ {
		r := (10000000000000000000 - coins) >> 18
		coins += r
		w.reward = append(w.reward, r)
	}
	return w
}

func xTxs(id int) int {
	if id < 9 {
		return id % 3
	}
	if id%100 == 1 {
		return 1
	}
	return 0
}

// block builds a block of the universe, the main chain below it included.
func (w *xWorld) block(id int) *cryptonote.Block {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.build(id)
}

func (w *xWorld) build(id int) *cryptonote.Block {
	if b, ok := w.blocks[id]; ok {
		return b
	}
	i := id % 1000
	prev := *w.build(i - 1).Hash()
	b := &cryptonote.Block{}
	b.MajorVersion = 1
	b.Timestamp = xTs0 + uint64(i)*240
	b.PreviousBlockHash = prev
	b.Nonce = uint32(id)
	reward := w.reward[i]
	unlock := uint64(i) + 10
	for k := 0; k < xTxs(id) && !w.plain; k++ {
		t := xTx(id*3 + k)
		b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
		w.bodies[id] = append(w.bodies[id], t.Serialize())
		reward += xFee
	}
	if id >= 1000 && id < 2000 { // invalid, in some way
		switch (w.salt + id) % 4 {
		case 0:
			reward++
		case 1:
			reward--
		case 2:
			b.Timestamp = 1 << 40
		case 3:
			unlock--
		}
	}
	pub := xPublic(0)
	b.BaseTransaction.Version = 1
	b.BaseTransaction.UnlockHeight = unlock
	b.BaseTransaction.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: uint32(i)}}
	b.BaseTransaction.Outputs = []cryptonote.TransactionOutput{{Amount: reward, Target: cryptonote.OutputKey{PublicKey: pub}}}
	b.BaseTransaction.Extra = append([]byte{1}, pub[:]...)
	_ = b.Hash()
	w.blocks[id] = b
	w.raw[id] = b.Serialize()
	return b
}

func (w *xWorld) hash(id int) crypto.Hash {
	if id == 3000 {
		return crypto.HashFromBytes([]byte("a hash of no block"))
	}
	return *w.block(id).Hash()
}

func (w *xWorld) hashes(ids []int) []crypto.Hash {
	res := []crypto.Hash{}
	for _, id := range ids {
		res = append(res, w.hash(id))
	}
	return res
}

// add offers block id to the chain, as another connection would.
func (w *xWorld) add(bc *cryptonote.BlockChain, id int) error {
	w.block(id)
	w.mu.Lock()
	raw, bodies := w.raw[id], w.bodies[id]
	w.mu.Unlock()
	rb := RawBlock{Block: raw}
	b, err := rb.ToBlock()
	if err != nil {
		return err
	}
	return bc.AddBlock(b, bodies)
}

// chain makes a chain of the first n blocks of the main chain.
func (w *xWorld) chain(n int, zone uint32) (*cryptonote.BlockChain, error) {
	bc := cryptonote.NewBlockChain(w.net, cryptonote.NewMemoryStorage(), xLogger())
	if err := bc.Init(); err != nil {
		return nil, err
	}
	if zone > 0 {
		h := crypto.HashFromBytes([]byte("far checkpoint"))
		if int(zone) < 1000 {
			h = w.hash(int(zone))
		}
		if err := bc.Checkpoints.AddCheckpoint(zone, h); err != nil {
			return nil, err
		}
	}
	for i := 1; i <= n; i++ {
		if err := w.add(bc, i); err != nil {
			return nil, fmt.Errorf("block %d: %s", i, err)
		}
	}
	return bc, nil
}

// ids reads the chain back as blocks of the universe.
func (w *xWorld) ids(bc *cryptonote.BlockChain) []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	by := map[crypto.Hash]int{}
	for id, b := range w.blocks {
		by[*b.Hash()] = id
	}
	top := bc.TopBlock()
	n := int(top.Index())
	res := make([]int, 0, n)
	id, ok := by[*top.Hash()]
	for i := n; i > 0; i-- {
		if !ok || id%1000 != i {
			return []int{-1}
		}
		res = append(res, id)
		id = i - 1 // every block of the universe follows the main chain
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	for _, id := range res {
		h := *w.blocks[id].Hash()
		if !bc.HaveBlock(&h) {
			return []int{-2}
		}
	}
	return res
}

func (w *xWorld) node(bc *cryptonote.BlockChain, addr string) *Node {
	n := NewNode(bc, HostConfig{Network: w.net, BindAddr: addr}, zap.NewNop())
	return &n
}

// xHeight maps the heights of the specification.
func xHeight(h int) uint32 {
	if h > 950000 {
		return uint32(4294967295 - (1000000 - h))
	}
	return uint32(h)
}

// ---- packets ----------------------------------------------------------------

type xFrame struct {
	Cmd     uint32
	Expects bool
	Code    int32
	Flags   uint32
	Version uint32
	Body    []byte
}

func (f xFrame) bytes() []byte {
	b := make([]byte, 33, 33+len(f.Body))
	binary.LittleEndian.PutUint64(b, 0x0101010101012101)
	binary.LittleEndian.PutUint64(b[8:], uint64(len(f.Body)))
	if f.Expects {
		b[16] = 1
	}
	binary.LittleEndian.PutUint32(b[17:], f.Cmd)
	binary.LittleEndian.PutUint32(b[21:], uint32(f.Code))
	binary.LittleEndian.PutUint32(b[25:], f.Flags)
	binary.LittleEndian.PutUint32(b[29:], f.Version)
	return append(b, f.Body...)
}

func xReadFrame(r io.Reader) (*xFrame, error) {
	var h [33]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	if s := binary.LittleEndian.Uint64(h[:]); s != 0x0101010101012101 {
		return nil, fmt.Errorf("the node writes a wrong signature %x", s)
	}
	n := binary.LittleEndian.Uint64(h[8:])
	if n > 100000000 {
		return nil, fmt.Errorf("the node writes a packet of %d bytes", n)
	}
	f := &xFrame{Cmd: binary.LittleEndian.Uint32(h[17:]), Expects: h[16] != 0, Code: int32(binary.LittleEndian.Uint32(h[21:])),
		Flags: binary.LittleEndian.Uint32(h[25:]), Version: binary.LittleEndian.Uint32(h[29:]), Body: make([]byte, n)}
	_, err := io.ReadFull(r, f.Body)
	return f, err
}

func xMarshal(v interface{}) []byte {
	b, err := kvcodec.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func xNotify(id uint32, v interface{}) []byte {
	return xFrame{Cmd: id, Flags: 1, Version: 1, Body: xMarshal(v)}.bytes()
}

func xInvoke(id uint32, v interface{}) []byte {
	return xFrame{Cmd: id, Expects: true, Flags: 1, Version: 1, Body: xMarshal(v)}.bytes()
}

func (w *xWorld) rawBlock(id int) RawBlock {
	w.block(id)
	w.mu.Lock()
	defer w.mu.Unlock()
	return RawBlock{Block: append([]byte(nil), w.raw[id]...), Transactions: append([][]byte(nil), w.bodies[id]...)}
}
