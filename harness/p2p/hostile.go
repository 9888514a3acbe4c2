package p2p

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"syscall"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"go.uber.org/zap"
)

type hStep struct {
	K     string   `json:"k"`
	Where string   `json:"where"`
	Cls   string   `json:"cls"`
	How   string   `json:"how"`
	May   []string `json:"may"`
	Chain string   `json:"chain"`
	Mute  bool     `json:"mute"`
}

type hCase struct {
	Goal  string  `json:"goal"`
	Steps []hStep `json:"steps"`
}

// ---- corruption -------------------------------------------------------------

// hTok is a part of a packet.
type hTok struct {
	cls      string
	off, len int
	varint   bool
	end      int // of the value, for types
}

// hVar encodes the sizes of the payload format.
func hVar(v uint64, width int) []byte {
	b := make([]byte, 8)
	switch {
	case width <= 1 && v < 1<<6:
		return []byte{byte(v << 2)}
	case width <= 2 && v < 1<<14:
		binary.LittleEndian.PutUint16(b, uint16(v<<2|1))
		return b[:2]
	case width <= 4 && v < 1<<30:
		binary.LittleEndian.PutUint32(b, uint32(v<<2|2))
		return b[:4]
	}
	binary.LittleEndian.PutUint64(b, v<<2|3)
	return b
}

// hTokens takes a payload to pieces.
func hTokens(b []byte) (toks []hTok) {
	at := 0
	add := func(cls string, n int, varint bool) {
		if at+n > len(b) {
			panic("payload")
		}
		toks = append(toks, hTok{cls, at, n, varint, 0})
		at += n
	}
	num := func(cls string) int {
		n := 1 << uint(b[at]&3)
		v := uint64(0)
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[at+i])
		}
		add(cls, n, true)
		return int(v >> 2)
	}
	var section func()
	var value func(t byte)
	value = func(t byte) {
		if t&0x80 != 0 {
			for n := num("items"); n > 0; n-- {
				value(t & 0x7f)
			}
			return
		}
		switch t {
		case 1, 5, 9:
			add("number", 8, false)
		case 2, 6:
			add("number", 4, false)
		case 3, 7:
			add("number", 2, false)
		case 4, 8, 11:
			add("number", 1, false)
		case 10:
			if n := num("size"); n > 0 {
				add("blob", n, false)
			}
		case 12:
			section()
		default:
			panic(fmt.Sprint("type ", t))
		}
	}
	section = func() {
		for n := num("count"); n > 0; n-- {
			k := int(b[at])
			add("namelen", 1, false)
			add("name", k, false)
			t := b[at]
			add("type", 1, false)
			i := len(toks) - 1
			value(t)
			toks[i].end = at
		}
	}
	add("head", 9, false)
	section()
	return
}

// hNum changes a number.
func hNum(r *rand.Rand, how string, v uint64, bits int) uint64 {
	max := uint64(1)<<uint(bits) - 1
	switch how {
	case "zero":
		v = 0
	case "one":
		v = 1
	case "less":
		v--
	case "more":
		v++
	case "huge":
		v = uint64(1) << uint(bits/2-1+r.Intn(bits/2))
	case "max":
		v = max
	case "flip":
		v ^= 1 << uint(r.Intn(bits))
	default:
		v = r.Uint64()
	}
	return v & max
}

// hDamage changes b[off:off+n].
func hDamage(r *rand.Rand, b []byte, t hTok, how string) []byte {
	old := b[t.off : t.off+t.len]
	head, tail := b[:t.off], b[t.off+t.len:]
	var mid []byte
	switch how {
	case "retype":
		x := byte(1 + r.Intn(12))
		if r.Intn(3) == 0 {
			x |= 0x80
		}
		mid = append(mid, x)
		if r.Intn(2) == 0 { // the value of the old type stays
			break
		}
		tail = b[t.end:]
		n := 1
		if x&0x80 != 0 {
			n = r.Intn(4)
			mid = append(mid, hVar(uint64(n), 1)...)
		}
		for ; n > 0; n-- {
			switch x & 0x7f {
			case 10:
				k := []int{0, 1, 31, 32, 33, 64}[r.Intn(6)]
				v := make([]byte, k)
				r.Read(v)
				mid = append(append(mid, hVar(uint64(k), 1)...), v...)
			case 12:
				mid = append(mid, 0)
			default:
				v := make([]byte, map[byte]int{1: 8, 5: 8, 9: 8, 2: 4, 6: 4, 3: 2, 7: 2, 4: 1, 8: 1, 11: 1}[x&0x7f])
				r.Read(v)
				mid = append(mid, v...)
			}
		}
	case "cut":
		tail = nil
	case "cutin":
		tail = nil
		if t.len > 0 {
			mid = old[:r.Intn(t.len)]
		}
	case "twice":
		mid = append(append(mid, old...), old...)
	case "gone":
	case "insert":
		x := make([]byte, 1+r.Intn(9))
		r.Read(x)
		if r.Intn(3) == 0 {
			x = bytes.Repeat([]byte{255}, len(x))
		}
		mid = append(x, old...)
	case "varint":
		mid = [][]byte{{255, 255, 255, 255, 15}, {255, 255, 255, 255, 255, 255, 255, 255, 255, 1}, {128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128}, {255, 255, 255, 127}}[r.Intn(4)]
	case "none":
		mid = old
	default:
		if t.varint {
			v := uint64(0)
			for i := t.len - 1; i >= 0; i-- {
				v = v<<8 | uint64(old[i])
			}
			v >>= 2
			if how == "wide" {
				mid = hVar(v, 8)
			} else {
				mid = hVar(hNum(r, how, v, 62), 1)
			}
		} else if t.len <= 8 {
			v := uint64(0)
			for i := t.len - 1; i >= 0; i-- {
				v = v<<8 | uint64(old[i])
			}
			if t.len > 0 {
				w := hNum(r, how, v, 8*t.len)
				mid = make([]byte, 8)
				binary.LittleEndian.PutUint64(mid, w)
				mid = mid[:t.len]
			}
		} else {
			mid = append(mid, old...)
			switch how {
			case "zero", "one", "max":
				x := map[string]byte{"zero": 0, "one": 1, "max": 255}[how]
				for i := range mid {
					mid[i] = x
				}
			case "flip":
				mid[r.Intn(len(mid))] ^= 1 << uint(r.Intn(8))
			case "less":
				mid = mid[:len(mid)-1]
			case "more":
				mid = append(mid, 0)
			case "huge":
				mid = bytes.Repeat(mid, 1+20000/len(mid))
			default:
				r.Read(mid)
			}
		}
	}
	res := append([]byte(nil), head...)
	res = append(res, mid...)
	return append(res, tail...)
}

var hFrameToks = []hTok{{"signature", 0, 8, false, 0}, {"length", 8, 8, false, 0}, {"expects", 16, 1, false, 0}, {"command", 17, 4, false, 0},
	{"code", 21, 4, false, 0}, {"flags", 25, 4, false, 0}, {"version", 29, 4, false, 0}}

// hAny is a part of b anywhere.
func hAny(r *rand.Rand, b []byte) hTok {
	if len(b) == 0 {
		return hTok{"any", 0, 0, false, 0}
	}
	return hTok{"any", r.Intn(len(b)), 1, false, 0}
}

// hCorrupt corrupts one packet. cut tells that nothing can follow.
func hCorrupt(r *rand.Rand, f xFrame, st *hStep) (b []byte, cut bool, ok bool) {
	switch st.Where {
	case "frame":
		b = f.bytes()
		if st.Cls == "any" {
			t := hTok{"any", 1 + r.Intn(len(b)-1), 1, false, 0}
			if st.How == "twice" {
				return append(b, b...), false, true
			}
			return hDamage(r, b, t, st.How), true, true
		}
		for _, t := range hFrameToks {
			if t.cls == st.Cls {
				was := string(b)
				for i := 0; i < 9; i++ {
					if b = hDamage(r, b, t, st.How); string(b) != was {
						break
					}
				}
				if string(b) == was {
					return b, false, false
				}
			}
		}
		return b, false, true
	case "fields":
		var of []hTok
		for _, t := range hTokens(f.Body) {
			if t.cls == st.Cls {
				of = append(of, t)
			}
		}
		if len(of) == 0 {
			return nil, false, false
		}
		f.Body = hDamage(r, f.Body, of[r.Intn(len(of))], st.How)
		return f.bytes(), false, true
	case "bytes":
		f.Body = hDamage(r, f.Body, hAny(r, f.Body), st.How)
		return f.bytes(), false, true
	}
	return nil, false, false
}

// ---- packets ----------------------------------------------------------------

func hInvoke(id uint32, v interface{}) xFrame {
	return xFrame{Cmd: id, Expects: true, Flags: 1, Version: 1, Body: xMarshal(v)}
}

func hNotify(id uint32, v interface{}) xFrame {
	return xFrame{Cmd: id, Flags: 1, Version: 1, Body: xMarshal(v)}
}

const hOwn = 3

func hRange(a, b int) (res []int) {
	for ; a <= b; a++ {
		res = append(res, a)
	}
	return
}

func (w *xWorld) frame(kind string, r *rand.Rand) xFrame {
	switch kind {
	case "handshake":
		return hInvoke(CommandHandshake, HandshakeRequest{NodeData: w.nodeData("ours", 0, 99), PayloadData: SyncData{CurrentHeight: hOwn + 1, TopBlockHash: w.hash(hOwn)}})
	case "timedsync":
		return hInvoke(CommandTimedSync, TimedSyncRequest{PayloadData: SyncData{CurrentHeight: hOwn + 1, TopBlockHash: w.hash(hOwn)}})
	case "newblock":
		return hNotify(NotificationNewBlockID, NotificationNewBlock{Block: w.rawBlock(4), CurrentBlockchainHeight: 5, Hop: 1})
	case "newtxs":
		return hNotify(NotificationNewTransactionsID, NotificationNewTransactions{Stem: true, Transactions: w.hashes([]int{1, 2})})
	case "ask":
		return hNotify(NotificationRequestGetObjectsID, NotificationRequestGetObjects{Transactions: w.hashes([]int{4}), Blocks: w.hashes([]int{1, 2, 3000})})
	case "objects":
		n := NotificationResponseGetObjects{CurrentBlockchainHeight: 10, MissedIds: w.hashes([]int{3000})}
		for _, id := range hRange(hOwn+1, 9) {
			n.Blocks = append(n.Blocks, w.rawBlock(id))
		}
		return hNotify(NotificationResponseGetObjectsID, n)
	case "chain":
		return hNotify(NotificationRequestChainID, NotificationRequestChain{Blocks: w.hashes([]int{3, 2, 1, 0})})
	case "entry":
		return hNotify(NotificationResponseChainEntryID, NotificationResponseChainEntry{StartHeight: hOwn, TotalHeight: 10, BlocksHashes: w.hashes(hRange(hOwn, 9))})
	case "pool":
		return hNotify(NotificationTxPoolID, NotificationTxPool{})
	case "lite":
		return hNotify(NotificationNewLiteBlockID, NotificationNewLiteBlock{CurrentBlockchainHeight: 5, Hop: 1, Block: w.rawBlock(4).Block})
	}
	panic(kind)
}

// merged is a block with a parent block.
func (w *xWorld) merged(r *rand.Rand, version byte) *cryptonote.Block {
	w.block(hOwn + 1)
	rb := w.rawBlock(hOwn + 1)
	b, err := rb.ToBlock()
	if err != nil {
		panic(err)
	}
	b.MajorVersion = version
	pub := xPublic(1)
	base := cryptonote.TransactionPrefix{Version: 1, UnlockHeight: 20, Extra: append(append([]byte{1}, pub[:]...), 2, 3, 9, 9, 9, 3, 33, byte(r.Intn(3))),
		Inputs:  []cryptonote.TransactionInput{cryptonote.InputCoinbase{BlockIndex: 77}},
		Outputs: []cryptonote.TransactionOutput{{Amount: 5, Target: cryptonote.OutputKey{PublicKey: pub}}}}
	base.Extra = append(base.Extra, make([]byte, 32)...)
	p := cryptonote.ParentBlock{MajorVersion: 1, Timestamp: 44, Nonce: 5, TransactionsCount: uint16(1 + r.Intn(5)), BaseTransaction: cryptonote.BaseTransaction{TransactionPrefix: &base}}
	for n := p.TransactionsCount; n > 1; n /= 2 {
		p.BaseTransactionBranch = append(p.BaseTransactionBranch, w.hash(int(n)))
	}
	b.Parent = &p
	return b
}

// inner is a corrupted block with what announces it.
func (w *xWorld) inner(r *rand.Rand, st *hStep, known map[crypto.Hash]*cryptonote.Block) (entry, objects xFrame) {
	rb := w.rawBlock(hOwn + 1)
	hurt := func(b []byte) []byte {
		for n := 1 + r.Intn(4)/3; n > 0; n-- {
			t := hAny(r, b)
			if t.off+4 < len(b) {
				t.len = 1 + r.Intn(4)
			}
			b = hDamage(r, b, t, st.How)
		}
		return b
	}
	switch st.K {
	case "body":
		rb = w.rawBlock(5)
		b, _ := rb.ToBlock()
		b.PreviousBlockHash = w.hash(hOwn)
		rb = w.rawBlock(hOwn + 1)
		nb, err := rb.ToBlock()
		if err != nil {
			panic(err)
		}
		nb.TransactionsHashes = nil
		rb.Transactions = nil
		for i := 0; i < 1+r.Intn(2); i++ {
			src := w.rawBlock([]int{1, 2, 4, 5}[r.Intn(4)]).Transactions
			body := hurt(src[r.Intn(len(src))])
			h := crypto.HashFromBytes(body)
			t := cryptonote.Transaction{}
			if err := t.Deserialize(bytes.NewReader(body)); err == nil {
				h = *t.Hash()
			}
			nb.TransactionsHashes = append(nb.TransactionsHashes, h)
			rb.Transactions = append(rb.Transactions, body)
		}
		rb.Block = nb.Serialize()
	case "block4":
		rb.Block = hurt(w.merged(r, byte(2+r.Intn(3))).Serialize())
		rb.Transactions = w.rawBlock(hOwn + 1).Transactions
	default:
		rb.Block = hurt(rb.Block)
	}
	h := crypto.HashFromBytes(rb.Block)
	if b, err := rb.ToBlock(); err == nil {
		h = *b.Hash()
		known[h] = b
		if st.K != "body" && len(b.TransactionsHashes) < 20 {
			for len(rb.Transactions) < len(b.TransactionsHashes) {
				rb.Transactions = append(rb.Transactions, []byte{1})
			}
			rb.Transactions = rb.Transactions[:len(b.TransactionsHashes)]
		}
	}
	return hNotify(NotificationResponseChainEntryID, NotificationResponseChainEntry{StartHeight: hOwn, TotalHeight: hOwn + 2, BlocksHashes: []crypto.Hash{w.hash(hOwn), h}}),
		hNotify(NotificationResponseGetObjectsID, NotificationResponseGetObjects{CurrentBlockchainHeight: hOwn + 2, Blocks: []RawBlock{rb}})
}

func (w *xWorld) stream(r *rand.Rand, how string) []byte {
	f := xFrame{Expects: r.Intn(2) == 0, Flags: uint32(1 + r.Intn(2)), Version: 1}
	junk := make([]byte, r.Intn(300))
	r.Read(junk)
	ids := []uint32{1001, 1002, 1003, 1004, 2001, 2002, 2003, 2004, 2006, 2007, 2008, 2009, 2010}
	f.Cmd = ids[r.Intn(len(ids))]
	switch how {
	case "random":
		return append([]byte{7}, junk...)
	case "signed":
		f.Body = junk
		if r.Intn(2) == 0 {
			f.Body = append(append([]byte(nil), w.frame("pool", r).Body[:9]...), junk...)
		}
	case "unknown":
		f.Cmd = r.Uint32()
		f.Body = w.frame("entry", r).Body
	case "response":
		f.Flags, f.Expects = 2, false
		f.Body = w.frame([]string{"entry", "handshake", "objects"}[r.Intn(3)], r).Body
	case "empty":
		if r.Intn(2) == 0 {
			f.Body = append([]byte(nil), w.frame("pool", r).Body[:9]...)
			f.Body = append(f.Body, 0)
		}
	case "headers":
		b := f.bytes()
		binary.LittleEndian.PutUint64(b[8:], uint64(r.Intn(100000001)))
		return b
	}
	return f.bytes()
}

// hClock is the real time.
func hClock() time.Duration {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

// ---- the run ----------------------------------------------------------------

// chainOK reads the chain back.
func hChain(bc *cryptonote.BlockChain, w *xWorld, known map[crypto.Hash]*cryptonote.Block) (string, int) {
	top := bc.TopBlock()
	if bc.Height() != top.Index()+1 {
		return fmt.Sprintf("height %d and top block %d", bc.Height(), top.Index()), 0
	}
	all := map[crypto.Hash]*cryptonote.Block{}
	for h, b := range known {
		all[h] = b
	}
	for i := 0; i < 10; i++ {
		all[w.hash(i)] = w.block(i)
	}
	n := int(top.Index())
	h := *top.Hash()
	for i := n; i >= 0; i-- {
		b, ok := all[h]
		if !ok {
			return fmt.Sprintf("block %d is none that was sent", i), n
		}
		if int(b.Index()) != i {
			return fmt.Sprintf("block %d is at height %d", b.Index(), i), n
		}
		if !bc.HaveBlock(&h) {
			return fmt.Sprintf("block %d is lost", i), n
		}
		h = b.PreviousBlockHash
	}
	return "", n
}

// TestVerifHostile replays the histories of Hostile.tla.
func TestVerifHostile(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	var prm struct {
		Rounds int `json:"rounds"`
	}
	vParams(&prm)
	w := xNewWorld(rnd.Intn(1000))
	w.block(9)
	peak := uint64(0)
	vCases(t, func(line []byte) {
		var c hCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		k := prm.Rounds
		for _, st := range c.Steps {
			if st.Where == "inner" || st.How == "retype" {
				k = prm.Rounds * 20
			}
		}
		for i := 0; i < k && !rep.full(); i++ {
			vCur(json.RawMessage(line))
			hRun(t, rep, rand.New(rand.NewSource(rnd.Int63())), w, &c, &peak)
		}
	})
	rep.count("peak_bytes_per_packet", int(peak))
}

func hRun(t *testing.T, rep *vRep, r *rand.Rand, w *xWorld, c *hCase, peak *uint64) {
	rep.trace()
	xBubble(t, func(t *testing.T) {
		bc, err := w.chain(hOwn, 900000)
		if err != nil {
			rep.fail("chain: %s", err)
			return
		}
		n := w.node(bc, "")
		ctx, cancel := context.WithCancel(context.Background())
		n.context = ctx
		var ends []chan struct{}
		connect := func(id uint32) (*xPeer, chan struct{}) {
			a, b := net.Pipe()
			p := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{a}, NetworkAddress{IP: 16777343, Port: id}, true)
			released := make(chan struct{})
			ends = append(ends, released)
			go func() {
				defer close(released)
				n.connectionHandler(p)
			}()
			return xNewPeer(b), released
		}
		other, _ := connect(6)
		p, released := connect(5)
		sent := []string{}
		var log [][]byte
		bad := false
		fail := func(format string, args ...interface{}) {
			if bad {
				return
			}
			bad = true
			hex := []string{}
			for _, b := range log {
				if len(b) > 700 {
					b = b[:700]
				}
				hex = append(hex, fmt.Sprintf("%x", b))
			}
			rep.violation("hostile", map[string]interface{}{"goal": c.Goal, "steps": c.Steps, "sent": hex}, "%v in state %q: %s", sent, c.Goal, fmt.Sprintf(format, args...))
		}
		defer func() {
			_ = p.conn.Close()
			_ = other.conn.Close()
			cancel()
			xSettle(nil)
			for _, e := range ends {
				select {
				case <-e:
				default:
					fail("the connection is not released")
					rep.save(t)
					os.Exit(0)
				}
			}
		}()
		send := func(q *xPeer, b []byte) {
			if q.send(b, nil) {
				fail("the node does not read")
			}
		}
		send(other, w.frame("handshake", r).bytes())
		other.take()
		// the state to start in
		if c.Goal != "before" {
			f := w.frame("handshake", r)
			if c.Goal != "normal" {
				f = hInvoke(CommandHandshake, HandshakeRequest{NodeData: w.nodeData("ours", 0, 99), PayloadData: SyncData{CurrentHeight: 10, TopBlockHash: w.hash(9)}})
			}
			send(p, f.bytes())
			if c.Goal == "fetching" {
				send(p, w.frame("entry", r).bytes())
			}
		}
		fs, closed, _ := p.take()
		if closed || len(fs) != map[string]int{"before": 0, "normal": 1, "syncing": 2, "fetching": 3}[c.Goal] {
			fail("%d packets are sent", len(fs))
			return
		}
		known := map[crypto.Hash]*cryptonote.Block{}
		key := c.Goal
		for i := range c.Steps {
			st := &c.Steps[i]
			var parts [][]byte
			cut := false
			switch st.K {
			case "stream":
				parts = [][]byte{w.stream(r, st.How)}
			case "block", "block4", "body":
				e, o := w.inner(r, st, known)
				parts = [][]byte{e.bytes(), o.bytes()}
			default:
				b, end, ok := hCorrupt(r, w.frame(st.K, r), st)
				if !ok {
					return
				}
				parts, cut = [][]byte{b}, end
			}
			sent = append(sent, fmt.Sprintf("%s/%s/%s/%s", st.K, st.Where, st.Cls, st.How))
			key += sent[len(sent)-1]
			size := 0
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			real := hClock()
			for _, b := range parts {
				log = append(log, b)
				size += len(b)
				send(p, b)
			}
			if d := hClock() - real; d > 20*time.Second {
				fail("the packet takes %s", d)
			}
			runtime.ReadMemStats(&m1)
			if used := m1.TotalAlloc - m0.TotalAlloc; used > 24<<20+uint64(size)*1000 {
				fail("%d bytes make the node allocate %d bytes", size, used)
			} else if used > *peak {
				*peak = used
			}
			fs, closed, err := p.take()
			rep.eval(key)
			if err != nil {
				fail("%s", err)
				return
			}
			may := map[string]bool{}
			for _, s := range st.May {
				may[s] = true
			}
			if !closed && len(may) == 1 && may["closed"] {
				fail("the connection is not closed")
				return
			}
			if closed && !may["closed"] {
				fail("the connection is closed")
				return
			}
			if st.Mute && len(fs) > 0 {
				fail("%d packets are sent", len(fs))
				return
			}
			// the chain
			s, h := hChain(bc, w, known)
			if s != "" {
				fail("chain: %s", s)
				return
			}
			if h != hOwn && st.Chain == "same" {
				fail("the chain changed to height %d", h)
				return
			}
			// the others
			send(other, w.frame("timedsync", r).bytes())
			fs, closed, err = other.take()
			if err != nil || closed || len(fs) == 0 || fs[0].Cmd != CommandTimedSync {
				fail("the other connection gets %d packets (closed: %v)", len(fs), closed)
				return
			}
			if closed {
				break
			}
			if cut {
				break
			}
			select {
			case <-released:
				i = len(c.Steps)
			default:
			}
			if i >= len(c.Steps) || h != hOwn {
				break
			}
		}
	})
}

// TestVerifHold measures what a node keeps of what a peer sends again and
// again, and of peers that left.
func TestVerifHold(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	w := xNewWorld(rnd.Intn(1000))
	w.block(9)
	live := func() uint64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	vCases(t, func(line []byte) {
		var c struct {
			K     string `json:"k"`
			Stays bool   `json:"stays"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		rep.trace()
		vCur(json.RawMessage(line))
		// about 1 MB
		many := make([]crypto.Hash, 32000)
		for i := range many {
			rnd.Read(many[i][:])
		}
		many[0] = w.hash(hOwn)
		var f xFrame
		switch c.K {
		case "entry":
			f = hNotify(NotificationResponseChainEntryID, NotificationResponseChainEntry{StartHeight: hOwn, TotalHeight: hOwn + 32000, BlocksHashes: many})
		case "chain":
			f = hNotify(NotificationRequestChainID, NotificationRequestChain{Blocks: append(many[1:], w.hash(0))})
		case "ask":
			f = hNotify(NotificationRequestGetObjectsID, NotificationRequestGetObjects{Blocks: many})
		case "newtxs":
			f = hNotify(NotificationNewTransactionsID, NotificationNewTransactions{Transactions: many})
		case "newblock", "lite":
			f = w.frame(c.K, rnd)
			x := make([]byte, 1000000)
			rnd.Read(x)
			if c.K == "lite" {
				f = hNotify(NotificationNewLiteBlockID, NotificationNewLiteBlock{Block: x})
			} else {
				f = hNotify(NotificationNewBlockID, NotificationNewBlock{Block: RawBlock{Block: x}})
			}
		default: // a payload that is not understood
			f = w.frame("pool", rnd)
			f.Body = append(f.Body, make([]byte, 1000000)...)
			f.Cmd = uint32(2000 + rnd.Intn(12))
		}
		xBubble(t, func(t *testing.T) {
			bc, err := w.chain(hOwn, 900000)
			if err != nil {
				rep.fail("chain: %s", err)
				return
			}
			n := w.node(bc, "")
			ctx, cancel := context.WithCancel(context.Background())
			n.context = ctx
			var p *xPeer
			connect := func(i int) {
				a, b := net.Pipe()
				q := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{a}, NetworkAddress{IP: 16777343, Port: uint32(i)}, true)
				go func() {
					n.connectionHandler(q)
					_ = n.ps.toGrey(q)
				}()
				p = xNewPeer(b)
				h := HandshakeRequest{NodeData: w.nodeData("ours", 0, uint64(1000+i)), PayloadData: SyncData{CurrentHeight: 32003, TopBlockHash: w.hash(9)}}
				p.send(hInvoke(CommandHandshake, h).bytes(), nil)
			}
			defer func() {
				_ = p.conn.Close()
				cancel()
				xSettle(nil)
			}()
			connect(0)
			var first uint64
			const rounds = 40
			for i := 0; i < rounds; i++ {
				if i > 0 && !c.Stays {
					_ = p.conn.Close()
					xSettle(nil)
					connect(i)
				}
				p.send(f.bytes(), nil)
				p.take()
				rep.eval(fmt.Sprint(c.K, c.Stays, i))
				if i == 4 {
					first = live()
				}
			}
			if now := live(); now > first+8<<20 {
				rep.violation("hold", c, "%d packets %q of 1 MB each (one connection: %v) and the node holds %d bytes more than after 5 of them", rounds, c.K, c.Stays, now-first)
			}
		})
	})
}
