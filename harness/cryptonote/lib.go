package harness

import (
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

// ---- keys -------------------------------------------------------------

var hKeyMu sync.Mutex
var hKeys = map[int][2][32]byte{}

// hKey returns the i-th deterministic key pair.
func hKey(i int) (crypto.SecretKey, crypto.PublicKey) {
	hKeyMu.Lock()
	defer hKeyMu.Unlock()
	if k, ok := hKeys[i]; ok {
		return k[0], k[1]
	}
	h := crypto.HashFromBytes([]byte(fmt.Sprintf("verif key %d", i)))
	h[31] &= 0x0f // below the group order
	sec := crypto.SecretKey(h)
	pub, err := crypto.PublicFromSecret(&sec)
	if err != nil {
		panic(err)
	}
	hKeys[i] = [2][32]byte{sec, *pub}
	return sec, *pub
}

var hKIs = map[int]crypto.KeyImage{}

// hKeyImage returns the key image of the i-th key.
func hKeyImage(i int) crypto.KeyImage {
	sec, pub := hKey(i)
	hKeyMu.Lock()
	defer hKeyMu.Unlock()
	if k, ok := hKIs[i]; ok {
		return k
	}
	ki, err := crypto.GenerateKeyImage(&pub, &sec)
	if err != nil {
		panic(err)
	}
	hKIs[i] = *ki
	return *ki
}

// hBadKey is not the encoding of a curve point.
func hBadKey() crypto.PublicKey {
	for i := 0; ; i++ {
		p := crypto.PublicKey(crypto.HashFromBytes([]byte(fmt.Sprintf("verif bad key %d", i))))
		if !hOnCurve(p) {
			return p
		}
	}
}

var hP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

// hOnCurve decides with its own arithmetic whether the bytes encode a point
// of the curve -x^2 + y^2 = 1 + d x^2 y^2.
func hOnCurve(p [32]byte) bool {
	var be [32]byte
	for i := range p {
		be[31-i] = p[i]
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be[:])
	one := big.NewInt(1)
	d := new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), hP))
	d.Mod(d, hP)
	yy := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(yy, one)
	u.Mod(u, hP)
	v := new(big.Int).Mul(d, yy)
	v.Add(v, one).Mod(v, hP)
	xx := new(big.Int).Mul(u, new(big.Int).ModInverse(v, hP))
	xx.Mod(xx, hP)
	if xx.Sign() == 0 {
		return p[31]&0x80 == 0
	}
	e := new(big.Int).Rsh(new(big.Int).Sub(hP, one), 1)
	return new(big.Int).Exp(xx, e, hP).Cmp(one) == 0
}

// ---- chains -----------------------------------------------------------

func hLogger() *log.Logger {
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	return l
}

// The base reward of a chain with these coins is exactly 10^13.
const hCoins = uint64(7378560000000000000)
const hReward = uint64(10000000000000)

// hBaseReward is (money supply - coins) / 2^18, valid until the tail emission.
func hBaseReward(coins uint64) uint64 {
	return (10000000000000000000 - coins) >> 18
}

// hVersion is the fork schedule of the main network.
func hVersion(index uint32) byte {
	switch {
	case index > 700000:
		return 5
	case index > 266000:
		return 4
	case index > 216000:
		return 3
	case index > 60000:
		return 2
	}
	return 1
}

// hSeed describes the ancestors a chain starts with.
type hSeed struct {
	Top   uint32              // index of the last ancestor; 0: genesis only
	Count uint32              // how many ancestors are stored (besides genesis)
	Coins uint64              // generated coins at the last ancestor
	Ts    func(uint32) uint64 // timestamp of an ancestor
	Size  func(uint32) uint64 // recorded size
	Cum   func(uint32) uint64 // cumulative difficulty
	Salt  int
	Net   *config.Network // nil: the main network
}

const hTs0 = uint64(1000000)

// hAncestors builds the blocks of the seed, the last of which is at Top.
func hAncestors(s hSeed) []*Block {
	var res []*Block
	var prev crypto.Hash
	first := uint32(1)
	if s.Top > s.Count {
		first = s.Top - s.Count + 1
	}
	prev = crypto.HashFromBytes([]byte(fmt.Sprintf("before %d %d", first, s.Salt)))
	if first == 1 {
		net := s.Net
		if net == nil {
			net = config.MainNet()
		}
		g, err := NewBlockChain(net, NewMemoryStorage(), hLogger()).GenesisBlock()
		if err != nil {
			panic(err)
		}
		prev = *g.Hash()
	}
	for i := first; i <= s.Top; i++ {
		b := &Block{}
		b.MajorVersion = 1
		b.Timestamp = hTs0
		if s.Ts != nil {
			b.Timestamp = s.Ts(i)
		}
		b.PreviousBlockHash = prev
		b.Nonce = uint32(s.Salt)
		b.BaseTransaction.Version = 1
		b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: i}}
		prev = *b.Hash()
		res = append(res, b)
	}
	return res
}

// hNewChain makes a chain with the ancestors of the seed; wrap may replace
// the storage the chain gets.
func hNewChain(net *config.Network, s hSeed, anc []*Block, wrap func(Storage) Storage) (*BlockChain, error) {
	st := NewMemoryStorage()
	for _, b := range anc {
		info := NewBlockInfo(b.Index(), s.Coins)
		info.Hash = *b.Hash()
		info.Timestamp = b.Timestamp
		info.Size = 100
		if s.Size != nil {
			info.Size = s.Size(b.Index())
		}
		info.CumulativeDifficulty = uint64(b.Index()) * 1000000
		if s.Cum != nil {
			info.CumulativeDifficulty = s.Cum(b.Index())
		}
		if err := st.PushBlock(b, info, TransactionsDetails{}); err != nil {
			return nil, err
		}
	}
	if wrap != nil {
		st = wrap(st)
	}
	bc := NewBlockChain(net, st, hLogger())
	if err := bc.Init(); err != nil {
		return nil, err
	}
	return bc, nil
}

// hZone extends the checkpoint zone far above every height used here.
func hZone(bc *BlockChain) {
	_ = bc.Checkpoints.AddCheckpoint(900000, crypto.HashFromBytes([]byte("far checkpoint")))
}

// ---- transactions and blocks --------------------------------------------

type hTxSpec struct {
	Key    int    // key image
	In     uint64 // input amount
	Outs   []uint64
	Extra  int
	Unlock uint64
	Ring   int
}

// hTx builds a transaction that follows every rule of the checkpoint zone.
func hTx(s hTxSpec) *Transaction {
	t := &Transaction{}
	t.Version = 1
	t.UnlockHeight = s.Unlock
	if s.Ring == 0 {
		s.Ring = 1
	}
	var idx []uint32
	var sigs []crypto.Signature
	for i := 0; i < s.Ring; i++ {
		idx = append(idx, uint32(i+1))
		sigs = append(sigs, crypto.Signature{})
	}
	t.Inputs = []TransactionInput{InputKey{Amount: s.In, OutputIndexes: idx, KeyImage: hKeyImage(s.Key)}}
	t.TransactionSignatures = TransactionSignatures{sigs}
	for i, a := range s.Outs {
		_, pub := hKey(1000 + i)
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: a, Target: OutputKey{pub}})
	}
	t.Extra = make([]byte, s.Extra)
	return t
}

// hBlock builds a valid block on top of prev; seal must follow any change.
func hBlock(index uint32, prev crypto.Hash, ts uint64, reward uint64) *Block {
	b := &Block{}
	b.MajorVersion = hVersion(index)
	b.Timestamp = ts
	b.PreviousBlockHash = prev
	_, pub := hKey(0)
	b.BaseTransaction.Version = 1
	b.BaseTransaction.UnlockHeight = uint64(index) + 10
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: index}}
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: reward, Target: OutputKey{pub}}}
	b.BaseTransaction.Extra = append([]byte{1}, pub[:]...)
	return b
}

// hSeal adds what the version of the block demands (parent block, signature).
func hSeal(b *Block) *Block {
	if (b.MajorVersion == 2 || b.MajorVersion == 3) && b.Parent == nil {
		b.Parent = hParent(b.Timestamp, b.Nonce)
	}
	if b.MajorVersion >= 5 && b.Signature == nil {
		sec, _ := hKey(0)
		h := crypto.HashFromBytes(b.HashingBytes())
		sig, err := h.Sign(&sec)
		if err != nil {
			panic(err)
		}
		b.Signature = sig
	}
	return b
}

// hParent is a minimal parent block of a merge mined block.
func hParent(ts uint64, nonce uint32) *ParentBlock {
	extra := append([]byte{3, 33, 0}, make([]byte, 32)...)
	p := &ParentBlock{MajorVersion: 1, Timestamp: ts, Nonce: nonce, TransactionsCount: 1}
	p.BaseTransaction = BaseTransaction{TransactionPrefix: &TransactionPrefix{
		Version: 1, UnlockHeight: 10,
		Inputs: []TransactionInput{InputCoinbase{BlockIndex: 5}}, Extra: extra,
	}}
	return p
}

// hFresh returns an equal block without any cached hash.
func hFresh(b *Block) *Block {
	c := &Block{}
	c.BlockHeader = b.BlockHeader
	c.BaseTransaction.TransactionPrefix.Version = b.BaseTransaction.Version
	c.BaseTransaction.UnlockHeight = b.BaseTransaction.UnlockHeight
	c.BaseTransaction.Inputs = append([]TransactionInput(nil), b.BaseTransaction.Inputs...)
	c.BaseTransaction.Outputs = append([]TransactionOutput(nil), b.BaseTransaction.Outputs...)
	c.BaseTransaction.Extra = append([]byte(nil), b.BaseTransaction.Extra...)
	c.BaseTransaction.TransactionSignatures = b.BaseTransaction.TransactionSignatures
	c.TransactionsHashes = append([]crypto.Hash(nil), b.TransactionsHashes...)
	c.Parent = b.Parent
	c.Signature = b.Signature
	return c
}

// hAdd offers the block and reports whether it was accepted; a panic counts as its own verdict.
func hAdd(bc *BlockChain, b *Block, bodies [][]byte) (accepted bool, err error, panicked string) {
	panicked = vTry(func() { err = bc.AddBlock(b, bodies) })
	return err == nil && panicked == "", err, panicked
}
