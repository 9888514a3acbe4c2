package p2p

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/crypto/base58"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/utils"
)

func oJson(xs ...interface{}) string {
	for i, x := range xs {
		if e, ok := x.(error); ok {
			xs[i] = e.Error()
		}
	}
	b, err := json.Marshal(xs)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// oBlock is a block of the version.
func oBlock(version byte, a int) *cryptonote.Block {
	pub := xPublic(3)
	b := &cryptonote.Block{}
	b.MajorVersion = version
	b.MinorVersion = byte(a)
	b.Timestamp = 1500000000 + uint64(a)
	b.Nonce = uint32(a) << 20
	b.PreviousBlockHash = crypto.HashFromBytes([]byte{byte(a)})
	b.BaseTransaction.Version = 1
	b.BaseTransaction.UnlockHeight = uint64(a) * 1000
	b.BaseTransaction.Inputs = []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: uint32(a) * 990}}
	b.BaseTransaction.Outputs = []cryptonote.TransactionOutput{{Amount: 5000, Target: cryptonote.OutputKey{PublicKey: pub}}}
	b.BaseTransaction.Extra = append([]byte{1}, pub[:]...)
	for i := 0; i < a*2; i++ {
		b.TransactionsHashes = append(b.TransactionsHashes, crypto.Hash{byte(i), byte(a)})
	}
	switch version {
	case 2, 3:
		p := &cryptonote.ParentBlock{MajorVersion: 1, Timestamp: b.Timestamp, Nonce: b.Nonce, TransactionsCount: 5, BaseTransactionBranch: crypto.HashList{{1}, {byte(a)}}}
		p.BaseTransaction = cryptonote.BaseTransaction{TransactionPrefix: &cryptonote.TransactionPrefix{Version: 1, Inputs: []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: 7}}, Outputs: []cryptonote.TransactionOutput{}, Extra: append([]byte{3, 33, 0}, make([]byte, 32)...)}}
		b.Parent = p
	case 5:
		sec := xSecret(3)
		h := crypto.HashFromBytes([]byte{9})
		s, err := h.Sign(&sec)
		if err != nil {
			panic(err)
		}
		b.Signature = s
	}
	return b
}

func oBlockOp(version byte) pureOp {
	raws := map[int][]byte{}
	for a := 1; a <= 3; a++ {
		raws[a] = oBlock(version, a).Serialize()
	}
	return pureOp{fmt.Sprintf("block of version %d", version), func(a int) string {
		raw := append([]byte(nil), raws[a]...)
		var b, c cryptonote.Block
		r := bytes.NewReader(raw)
		err := b.Deserialize(r)
		cut := c.Deserialize(bytes.NewReader(raw[:len(raw)-5]))
		if err != nil {
			return err.Error()
		}
		return oJson(r.Len(), cut != nil, b.Hash(), b.HashingBytes(), b.Serialize(), b.Index(), b.TransactionsHashes, b.Timestamp, raw)
	}}
}

func TestVerifPureNode(t *testing.T) {
	w := xNewWorld(0)
	shared := config.MainNet() // a network is never changed
	test := config.TestNet()
	txRaw := map[int][]byte{}
	var entries []PeerEntry
	for i := 1; i <= 3; i++ {
		txRaw[i] = xTx(i).Serialize()
		entries = append(entries, PeerEntry{Address: NetworkAddress{IP: uint32(i) << 8, Port: 100}, ID: uint64(i) << 40, LastSeen: uint64(i)})
		for id := 1; id <= 4; id++ {
			w.block(id)
		}
	}
	response := func(a int) HandshakeResponse {
		r := HandshakeResponse{Peers: append([]PeerEntry(nil), entries[:a]...)}
		r.NodeData.NetworkID = shared.NetworkID
		r.NodeData.PeerID = uint64(a) << 50
		r.NodeData.Version = byte(a)
		r.PayloadData.CurrentHeight = uint32(a) << 20
		r.PayloadData.TopBlockHash = crypto.HashFromBytes([]byte{byte(a)})
		return r
	}
	entry := func(a int) NotificationResponseChainEntry {
		n := NotificationResponseChainEntry{StartHeight: uint32(a), TotalHeight: 1000}
		for i := 0; i < a*40; i++ {
			n.BlocksHashes = append(n.BlocksHashes, crypto.Hash{byte(i), byte(a)})
		}
		return n
	}
	objects := func(a int) NotificationResponseGetObjects {
		n := NotificationResponseGetObjects{CurrentBlockchainHeight: uint32(a)}
		for id := 1; id <= a+1; id++ {
			n.Blocks = append(n.Blocks, w.rawBlock(id))
		}
		return n
	}
	raw := map[string][]byte{}
	for a := 1; a <= 3; a++ {
		raw[fmt.Sprint("r", a)], raw[fmt.Sprint("e", a)], raw[fmt.Sprint("o", a)] = xMarshal(response(a)), xMarshal(entry(a)), xMarshal(objects(a))
	}
	at := func(k string, a int) []byte { return append([]byte(nil), raw[fmt.Sprint(k, a)]...) }
	pureRun(t, []pureOp{
		{"transaction bytes", func(a int) string {
			b := append([]byte(nil), txRaw[a]...)
			var t, u cryptonote.Transaction
			err := t.Deserialize(bytes.NewReader(b))
			cut := u.Deserialize(bytes.NewReader(b[:len(b)-1]))
			return oJson(err, cut != nil, t.Hash(), t.TransactionPrefix.Hash(), t.Size(), t.Serialize(), b)
		}},
		{"a transaction", func(a int) string { t := xTx(a); return oJson(t.Hash(), t.Serialize(), t.Size()) }},
		oBlockOp(1), oBlockOp(2), oBlockOp(3), oBlockOp(5),
		{"extra", func(a int) string {
			pub := xPublic(a)
			b := append([]byte{1}, pub[:]...)
			b = append(b, 2, byte(a))
			b = append(b, pub[:a]...)
			f, err := cryptonote.TxExtraFromBytes(b)
			_, e := cryptonote.TxExtraFromBytes(b[:len(b)-1])
			return oJson(f, err, e != nil, b)
		}},
		{"Address.Base58", func(a int) string {
			x := cryptonote.NewAddress(uint64(a)*100, xPublic(a), xPublic(a+1))
			return oJson(x.Base58(), x)
		}},
		{"Address.FromString", func(a int) string {
			x := cryptonote.NewAddress(111, xPublic(a), xPublic(a+1))
			s := x.Base58()
			var y, z cryptonote.Address
			return oJson(y.FromString(s), y, z.FromString(s[:len(s)-1]+"1") != nil)
		}},
		{"base58", func(a int) string {
			b := bytes.Repeat([]byte{0xff, byte(a), 0}, a*4)
			s := base58.Encode(b)
			d, err := base58.Decode(s)
			_, e := base58.Decode(s[:len(s)-1] + "0")
			return oJson(s, d, err, e != nil, b)
		}},
		{"Marshal a handshake", func(a int) string { r := response(a); b, err := kvcodec.Marshal(r); return oJson(b, err, r) }},
		{"Unmarshal a handshake", func(a int) string {
			var r, c HandshakeResponse
			b := at("r", a)
			return oJson(kvcodec.Unmarshal(b, &r), r, kvcodec.Unmarshal(b[:len(b)-3], &c) != nil, b)
		}},
		{"Marshal an announcement", func(a int) string { r := entry(a); b, err := kvcodec.Marshal(r); return oJson(b, err, r) }},
		{"Unmarshal an announcement", func(a int) string {
			var r NotificationResponseChainEntry
			b := at("e", a)
			return oJson(kvcodec.Unmarshal(b, &r), r, b)
		}},
		{"Marshal a delivery", func(a int) string { r := objects(a); b, err := kvcodec.Marshal(r); return oJson(b, err, r) }},
		{"Unmarshal a delivery", func(a int) string {
			var r NotificationResponseGetObjects
			b := at("o", a)
			return oJson(kvcodec.Unmarshal(b, &r), r, b)
		}},
		{"packets", func(a int) string { return oPackets(a, at("e", a)) }},
		{"NextDifficulty", func(a int) string {
			var res []interface{}
			for v := byte(1); v <= 5; v++ {
				k := int(shared.DifficultyBlocksCountByBlockVersion(v))
				ts, cd := []uint64{}, []uint64{}
				for i := 0; i < k; i++ {
					ts = append(ts, 1500000000+uint64(i*240+(i*i*7)%100))
					cd = append(cd, uint64(i+1)*uint64(a)*123456)
				}
				d, err := shared.NextDifficulty(650000, v, ts, cd)
				e, erre := test.NextDifficulty(650000, v, append([]uint64(nil), ts...), cd)
				res = append(res, d, err, e, erre)
			}
			return oJson(res...)
		}},
		{"the parameters of the network", func(a int) string {
			var res []interface{}
			for _, h := range []uint32{0, 60000, 60001, 216000, 266001, 700000, 700001} {
				h += uint32(a)
				v := shared.GetBlockMajorVersion(h)
				r, e, err := shared.GetBlockReward(v, 1000, uint64(100000*a), uint64(h)*1000000000000, 77)
				res = append(res, v, r, e, err, shared.MaxBlockSize(uint64(h)), shared.MinimalFee(h), shared.MinimalFeeValidator(h), shared.MaxTransactionSize(h),
					shared.BlockTimestampCheckWindow(v), shared.BlockFutureTimeLimit(v), shared.BlockGrantedFullRewardZoneByBlockVersion(v),
					shared.IsValidDecomposedAmount(uint64(a)*1000000+uint64(h%2)))
			}
			return oJson(res...)
		}},
		{"a network", func(a int) string {
			n, m := config.MainNet(), config.TestNet()
			return oJson(n.NetworkID, n.GenesisNonce, m.GenesisNonce, n.SeedNodes, n.GetBlockMajorVersion(uint32(a)*100000))
		}},
		{"amounts", func(a int) string {
			c, d := cryptonote.DecomposeAmountIntoDigits(uint64(a)*1234567890123, 100000*uint64(a))
			x := []uint64{9, uint64(a), 1, 5}
			lo, hi := utils.Mul128(1<<63+uint64(a), 12345678901)
			q, r := utils.Div128p32(5, uint64(a), 3)
			return oJson(c, d, utils.MedianSlice(append([]uint64(nil), x...)), utils.SliceReverse(append([]uint64(nil), x...)), lo, hi, q, r)
		}},
		{"a chain", func(a int) string {
			bc, err := w.chain(1+a, 50)
			if err != nil {
				return err.Error()
			}
			s, err := bc.BuildSparseChain()
			h, no := w.hash(a), w.hash(4+a)
			g, e := bc.GenesisBlock()
			return oJson(s, err, bc.Height(), bc.HaveBlock(&h), bc.HaveBlock(&no), g.Hash(), e, w.add(bc, 1001+a%2) != nil, bc.TopBlock().Hash())
		}},
		{"checkpoints", func(a int) string {
			cp := config.NewCheckpoints(xLogger())
			h := crypto.Hash{byte(a)}
			for i := 3; i > 0; i-- {
				_ = cp.AddCheckpoint(uint32(i*a*10), h)
			}
			return oJson(cp.AddCheckpoint(uint32(a*10), crypto.Hash{}) != nil, cp.IsInCheckpointZone(uint32(31)), cp.CheckBlock(uint32(a*10), &crypto.Hash{}) != nil,
				cp.AlternativeBlockAllowed(uint32(a*20), uint32(a*20-1)) != nil, cp.AlternativeBlockAllowed(uint32(a*20), uint32(a*20+1)) != nil)
		}},
		{"peer lists", oPeerLists},
	}, 3)
}
