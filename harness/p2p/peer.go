package p2p

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/r3volut1oner/go-karbo/crypto"
	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
)

// xIds is a sequence of blocks; <<-1, a, b>> stands for a..b.
type xIds []int

func (x *xIds) UnmarshalJSON(d []byte) error {
	var v []int
	if err := json.Unmarshal(d, &v); err != nil {
		return err
	}
	if len(v) == 3 && v[0] == -1 {
		a, b := v[1], v[2]
		v = nil
		for i := a; i <= b; i++ {
			v = append(v, i)
		}
	}
	*x = v
	return nil
}

type xMsg struct {
	K     string `json:"k"`
	Sub   string `json:"sub"`
	Net   string `json:"net"`
	Id    uint64 `json:"id"`
	Top   int    `json:"top"`
	H     int    `json:"h"`
	Ids   xIds   `json:"ids"`
	Start int    `json:"start"`
	Total int    `json:"total"`
	To    int    `json:"to"`
	Bl    []struct {
		B   int    `json:"b"`
		N   int    `json:"n"`
		Bod string `json:"bod"`
	} `json:"bl"`
	Cmd  string `json:"cmd"`
	Resp bool   `json:"resp"`
	Body string `json:"body"`
	Ver  int    `json:"ver"`
}

type xOut struct {
	K   string `json:"k"`
	Ids xIds   `json:"ids"`
	H   int    `json:"h"`
}

type xStep struct {
	M    xMsg   `json:"m"`
	Out  []xOut `json:"out"`
	Free bool   `json:"free"`
	T    struct {
		Chain xIds   `json:"chain"`
		St    string `json:"st"`
	} `json:"t"`
}

type xCase struct {
	Own   int     `json:"own"`
	Zone  uint32  `json:"zone"`
	Role  string  `json:"role"`
	Steps []xStep `json:"steps"`
}

var xPanicMu sync.Mutex
var xPanics []string

func xPanicked(s string) {
	xPanicMu.Lock()
	xPanics = append(xPanics, s)
	xPanicMu.Unlock()
}

func xTakePanic() string {
	xPanicMu.Lock()
	defer xPanicMu.Unlock()
	s := strings.Join(xPanics, "; ")
	xPanics = nil
	return s
}

// xPeer is the peer's end of a connection.
type xPeer struct {
	mu     sync.Mutex
	conn   net.Conn
	frames []*xFrame
	closed bool
	bad    error
}

func xNewPeer(conn net.Conn) *xPeer {
	p := &xPeer{conn: conn}
	go func() {
		for {
			f, err := xReadFrame(conn)
			p.mu.Lock()
			if err != nil {
				p.closed = true
				if strings.Contains(err.Error(), "node writes") {
					p.bad = err
				}
				p.mu.Unlock()
				return
			}
			p.frames = append(p.frames, f)
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *xPeer) take() (fs []*xFrame, closed bool, bad error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	fs = p.frames
	p.frames = nil
	return fs, p.closed, p.bad
}

func (p *xPeer) count() (int, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.frames), p.closed
}

// send writes what the node must be willing to read.
func (p *xPeer) send(b []byte, enough func() bool) (stuck bool) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		_, _ = p.conn.Write(b)
	}()
	xSettle(func() bool {
		select {
		case <-done:
			return enough()
		default:
			return false
		}
	})
	select {
	case <-done:
		return false
	default:
		return true
	}
}

func (w *xWorld) nodeData(net string, ver int, id uint64) BasicNodeData {
	d := BasicNodeData{NetworkID: w.net.NetworkID, Version: uint8(int(w.net.P2PMinimumVersion) + ver), PeerID: id, LocalTime: 5, MyPort: 32347}
	if net != "ours" {
		d.NetworkID[w.salt%16] ^= 1 << uint(w.salt%8)
	}
	return d
}

// bytes builds what the peer sends. hangup tells that it leaves afterwards.
func (w *xWorld) bytes(m *xMsg) (b []byte, hangup bool) {
	sync := SyncData{CurrentHeight: xHeight(m.H)}
	if m.K == "handshake" || m.K == "timedsync" || m.K == "answer" {
		sync.TopBlockHash = w.hash(m.Top)
	}
	genesis := []crypto.Hash{w.hash(0)}
	switch m.K {
	case "handshake":
		return xInvoke(CommandHandshake, HandshakeRequest{NodeData: w.nodeData(m.Net, 0, m.Id), PayloadData: sync}), false
	case "timedsync":
		return xInvoke(CommandTimedSync, TimedSyncRequest{PayloadData: sync}), false
	case "announce":
		return xNotify(NotificationResponseChainEntryID, NotificationResponseChainEntry{
			StartHeight: xHeight(m.Start), TotalHeight: xHeight(m.Total), BlocksHashes: w.hashes(m.Ids)}), false
	case "deliver":
		n := NotificationResponseGetObjects{CurrentBlockchainHeight: xHeight(m.H)}
		for _, e := range m.Bl {
			for k := 0; k < e.N; k++ {
				id := e.B + k
				rb := w.rawBlock(id)
				switch e.Bod {
				case "cut":
					rb.Block = rb.Block[:(w.salt*7+id)%len(rb.Block)]
				case "less":
					rb.Transactions = rb.Transactions[:len(rb.Transactions)-1]
				case "more":
					rb.Transactions = append(rb.Transactions, xTx(7777).Serialize())
				case "other":
					i := (w.salt + id) % len(rb.Transactions)
					rb.Transactions[i] = xTx(7777).Serialize()
				}
				n.Blocks = append(n.Blocks, rb)
			}
		}
		return xNotify(NotificationResponseGetObjectsID, n), false
	case "askchain":
		switch m.Sub {
		case "none":
			return xNotify(NotificationRequestChainID, NotificationRequestChain{}), false
		case "foreign":
			return xNotify(NotificationRequestChainID, NotificationRequestChain{append(append([]crypto.Hash{}, genesis...), w.hash(3000))}), false
		}
		return xNotify(NotificationRequestChainID, NotificationRequestChain{w.hashes([]int{1, 0})}), false
	case "note":
		switch m.Sub {
		case "unknown":
			return xNotify(2099, NotificationRequestChain{genesis}), false
		case "malformed":
			b := xMarshal(NotificationResponseChainEntry{StartHeight: 0, TotalHeight: 5, BlocksHashes: genesis})
			return xFrame{Cmd: NotificationResponseChainEntryID, Flags: 1, Version: 1, Body: b[:len(b)-1]}.bytes(), false
		}
		switch w.salt % 4 {
		case 0:
			return xNotify(NotificationNewLiteBlockID, NotificationNewLiteBlock{CurrentBlockchainHeight: 9, Block: w.rawBlock(1).Block}), false
		case 1:
			return xNotify(NotificationRequestGetObjectsID, NotificationRequestGetObjects{Blocks: genesis}), false
		case 2:
			return xNotify(NotificationNewTransactionsID, NotificationNewTransactions{Transactions: genesis}), false
		}
		return xNotify(NotificationNewBlockID, NotificationNewBlock{Block: w.rawBlock(1), CurrentBlockchainHeight: 9}), false
	case "command":
		hs := HandshakeRequest{NodeData: w.nodeData("ours", 0, 3), PayloadData: SyncData{CurrentHeight: 7, TopBlockHash: w.hash(3000)}}
		switch m.Sub {
		case "ping":
			return xInvoke(CommandPing, PingRequest{}), false
		case "notification":
			return xInvoke(NotificationResponseChainEntryID, NotificationResponseChainEntry{StartHeight: 0, TotalHeight: 5,
				BlocksHashes: w.hashes([]int{0, 1, 2})}), false
		case "malformed":
			b := xMarshal(hs)
			return xFrame{Cmd: CommandHandshake, Expects: true, Flags: 1, Version: 1, Body: b[:len(b)-1]}.bytes(), false
		case "response":
			return xFrame{Cmd: CommandTimedSync + 20, Expects: true, Flags: 2, Version: 1, Body: xMarshal(hs)}.bytes(), false
		}
		return xInvoke(1099, hs), false
	case "junk":
		b := xNotify(NotificationTxPoolID, NotificationNewTransactions{Transactions: genesis})
		switch m.Sub {
		case "signature":
			b[w.salt%8] ^= 1 << uint(w.salt%7)
		case "oversize":
			copy(b[8:16], []byte{1, 225, 245, 5, 0, 0, 0, 0}) // 100000001
			if w.salt%2 == 1 {
				copy(b[8:16], []byte{0, 0, 0, 0, 1, 0, 0, 0})
			}
		case "header":
			return b[:1+w.salt%32], true
		case "body":
			return b[:33+w.salt%(len(b)-33)], true
		}
		return b, false
	case "answer":
		f := xFrame{Cmd: CommandHandshake, Flags: 2, Code: 1, Version: 1}
		if m.Cmd != "handshake" {
			f.Cmd = CommandTimedSync
		}
		if !m.Resp {
			f.Flags = 1
		}
		b := xMarshal(HandshakeResponse{NodeData: w.nodeData(m.Net, m.Ver, m.Id), PayloadData: sync})
		switch m.Body {
		case "good":
			f.Body = b
		case "cut":
			f.Body = b[:9+w.salt%(len(b)-9)]
		}
		return f.bytes(), false
	}
	panic("unknown message " + m.K)
}

// check compares one packet with what the specification demands.
func (w *xWorld) check(f *xFrame, o *xOut) string {
	head := func(cmd uint32, expects bool, flags uint32) string {
		if f.Cmd != cmd || f.Expects != expects || f.Flags != flags || f.Version != 1 {
			return fmt.Sprintf("packet (command %d, expects answer %v, flags %d, version %d) instead of (%d, %v, %d, 1)",
				f.Cmd, f.Expects, f.Flags, f.Version, cmd, expects, flags)
		}
		return ""
	}
	decode := func(v interface{}) string {
		if err := kvcodec.Unmarshal(f.Body, v); err != nil {
			return fmt.Sprintf("payload of packet %d is not decodable: %s", f.Cmd, err)
		}
		return ""
	}
	first := func(ss ...string) string {
		for _, s := range ss {
			if s != "" {
				return s
			}
		}
		return ""
	}
	sync := func(s SyncData) string {
		if s.CurrentHeight != uint32(o.H) || s.TopBlockHash != w.hash(o.Ids[0]) {
			return fmt.Sprintf("height %d top %s are sent instead of %d, block %d", s.CurrentHeight, s.TopBlockHash.String(), o.H, o.Ids[0])
		}
		return ""
	}
	node := func(d BasicNodeData) string {
		if d.NetworkID != w.net.NetworkID || d.Version != w.net.P2PCurrentVersion {
			return fmt.Sprintf("network %s version %d are sent", d.NetworkID, d.Version)
		}
		return ""
	}
	code := func() string {
		if f.Code != 1 {
			return fmt.Sprintf("return code %d", f.Code)
		}
		return ""
	}
	list := func(got []crypto.Hash) string {
		want := w.hashes(o.Ids)
		if len(got) != len(want) {
			return fmt.Sprintf("%s request for %d blocks instead of %d", o.K, len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] {
				return fmt.Sprintf("%s request: hash %d is not that of block %d", o.K, i, o.Ids[i])
			}
		}
		return ""
	}
	switch o.K {
	case "handshake":
		var r HandshakeResponse
		return first(head(CommandHandshake, false, 2), code(), decode(&r), node(r.NodeData), sync(r.PayloadData))
	case "hello":
		var r HandshakeRequest
		return first(head(CommandHandshake, true, 1), decode(&r), node(r.NodeData), sync(r.PayloadData))
	case "timedsync":
		var r TimedSyncResponse
		return first(head(CommandTimedSync, false, 2), code(), decode(&r), sync(r.PayloadData))
	case "chain":
		var r NotificationRequestChain
		return first(head(NotificationRequestChainID, false, 1), decode(&r), list(r.Blocks))
	case "blocks":
		var r NotificationRequestGetObjects
		s := first(head(NotificationRequestGetObjectsID, false, 1), decode(&r))
		if s == "" && len(r.Transactions) != 0 {
			s = "transactions are requested"
		}
		return first(s, list(r.Blocks))
	}
	return "unknown output " + o.K
}

// step sends one message and compares everything that follows.
func (w *xWorld) step(n *Node, p *xPeer, st *xStep) (verdict string, closed bool) {
	if st.M.K == "grows" {
		return "", false
	}
	if st.M.K == "meanwhile" {
		for i := len(w.ids(n.Blockchain)) + 1; i <= st.M.To; i++ {
			if err := w.add(n.Blockchain, i); err != nil {
				return fmt.Sprintf("block %d is refused: %s", i, err), false
			}
		}
	} else {
		b, hangup := w.bytes(&st.M)
		enough := func() bool {
			k, c := p.count()
			return c || (k >= len(st.Out) && (k > 0 || !xVirtual && st.T.St != "closed"))
		}
		stuck := p.send(b, enough)
		if stuck {
			return "the node does not read the message", false
		}
		if hangup {
			_ = p.conn.Close()
			xSettle(enough)
		}
	}
	fs, closed, bad := p.take()
	if bad != nil {
		return bad.Error(), closed
	}
	if s := xTakePanic(); s != "" {
		return "panic: " + s, closed
	}
	for i := range st.Out {
		if i >= len(fs) {
			return fmt.Sprintf("the node does not send: %s", st.Out[i].K), closed
		}
		if s := w.check(fs[i], &st.Out[i]); s != "" {
			return s, closed
		}
	}
	if len(fs) > len(st.Out) {
		return fmt.Sprintf("the node sends %d packets instead of %d, the first one too many has command %d", len(fs), len(st.Out), fs[len(st.Out)].Cmd), closed
	}
	want := st.T.St == "closed"
	if closed != want && !st.Free {
		return fmt.Sprintf("connection closed: %v instead of %v", closed, want), closed
	}
	if ids := w.ids(n.Blockchain); !reflect.DeepEqual(ids, []int(st.T.Chain)) && (len(ids) > 0 || len(st.T.Chain) > 0) {
		return fmt.Sprintf("chain %v instead of %v", xShort(ids), xShort(st.T.Chain)), closed
	}
	return "", closed
}

func xShort(ids []int) string {
	s := fmt.Sprint(ids)
	if len(s) > 200 {
		s = s[:100] + ".." + s[len(s)-90:]
	}
	return s
}

// TestVerifPeer replays histories of Peer.tla on connections of a node.
func TestVerifPeer(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	base := rnd.Intn(1000)
	worlds := map[int]*xWorld{}
	for i := 0; i < 32; i++ {
		worlds[i] = xNewWorld(base + i*3)
		worlds[i].plain = i >= 16
	}
	var wg sync.WaitGroup
	k := 0
	vCases(t, func(line []byte) {
		var c xCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		k++
		w := worlds[k%16]
		if c.Zone == 0 {
			w = worlds[16+k%16]
		}
		if rep.full() || (!xVirtual && (k > 150 || c.Role != "incoming" || len(c.Steps) > 14)) {
			return
		}
		if xVirtual {
			vCur(json.RawMessage(line))
			xRunCase(t, rep, w, &c)
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			xRunCase(t, rep, w, &c)
		}()
	})
	wg.Wait()
}

var xAddrs int64

// xFreeAddr is an address of the loopback network nobody else uses.
func xFreeAddr() string {
	for {
		k := int(atomic.AddInt64(&xAddrs, 1))
		addr := fmt.Sprintf("127.%d.%d.%d:32347", 10+os.Getpid()%240, 1+k/200%250, 1+k%200)
		if l, err := net.Listen("tcp", addr); err == nil {
			_ = l.Close()
			return addr
		}
	}
}

func xRunCase(t *testing.T, rep *vRep, w *xWorld, c *xCase) {
	rep.trace()
	key := ""
	xBubble(t, func(t *testing.T) {
		bc, err := w.chain(c.Own, c.Zone)
		if err != nil {
			rep.fail("chain: %s", err)
			return
		}
		addr := ""
		if !xVirtual {
			addr = xFreeAddr()
		}
		n := w.node(bc, addr)
		conn, released, stop, err := xConnect(n, c.Role == "incoming")
		if err != nil {
			rep.fail("connect: %s", err)
			return
		}
		defer func() {
			_ = conn.Close()
			stop()
			xSettle(func() bool { return true })
			if xVirtual {
				select {
				case <-released:
				default:
					rep.violation("not-released", c, "the connection is not released after the peer left and the node stopped")
					rep.save(t)
					os.Exit(0)
				}
			}
		}()
		p := xNewPeer(conn)
		fail := func(i int, s string) {
			st := c.Steps[i]
			rep.violation("step", map[string]interface{}{"own": c.Own, "zone": c.Zone, "role": c.Role, "at": i, "message": st.M, "steps": xBrief(c.Steps[:i+1])},
				"own chain of %d blocks, after %d messages, message %s: %s", c.Own, i, xDescribe(&st.M), s)
		}
		for i := range c.Steps {
			st := &c.Steps[i]
			key += xDescribe(&st.M) + ";"
			s, closed := w.step(n, p, st)
			rep.eval(fmt.Sprintf("%d/%d/%s", c.Own, c.Zone, key))
			if s != "" {
				fail(i, s)
				return
			}
			if closed {
				return
			}
		}
	})
}

// xAwait waits until the condition holds.
func xAwait(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

func xDescribe(m *xMsg) string {
	b, _ := json.Marshal(m)
	var v map[string]interface{}
	_ = json.Unmarshal(b, &v)
	for k, x := range v {
		if x == nil || x == "" || x == float64(0) || x == false {
			delete(v, k)
		}
	}
	b, _ = json.Marshal(v)
	if len(b) > 160 {
		b = append(b[:100], append([]byte(".."), b[len(b)-50:]...)...)
	}
	return string(b)
}

func xBrief(steps []xStep) (res []string) {
	for i := range steps {
		res = append(res, xDescribe(&steps[i].M))
	}
	return
}

var _ = bytes.Equal
var _ = time.Second
