package p2p

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"regexp"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type lStep struct {
	Op     string `json:"op"`
	C      int    `json:"c"`
	Served []int  `json:"served"`
	Empty  bool   `json:"empty"`
}

type lCase struct {
	Steps []lStep `json:"steps"`
}

// TestVerifLife replays the histories of NodeLife.tla on nodes that run.
func TestVerifLife(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	w := xNewWorld(rnd.Intn(1000))
	w.block(0)
	sem := make(chan struct{}, 120)
	heavy := make(chan struct{}, 6)
	var wg sync.WaitGroup
	k := 0
	vCases(t, func(line []byte) {
		c := &lCase{}
		if err := json.Unmarshal(line, c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		k++
		s := lSem(c, sem, heavy)
		wg.Add(1)
		s <- struct{}{}
		l := &lNode{rep: rep, w: w, c: c, k: k, rnd: rand.New(rand.NewSource(rnd.Int63())), conns: map[int]*lConn{}}
		go func() {
			defer wg.Done()
			defer func() { <-s }()
			l.run()
		}()
	})
	wg.Wait()
}

func (c *lCase) unread() bool {
	for _, s := range c.Steps {
		if s.Op == "noread" {
			return true
		}
	}
	return false
}

// empties tells whether the node is without connections again.
func (c *lCase) empties() bool {
	for _, s := range c.Steps {
		if s.Empty && (s.Op == "bad" || s.Op == "leave" || s.Op == "reset") {
			return true
		}
	}
	return false
}

func lSem(c *lCase, light, heavy chan struct{}) chan struct{} {
	if c.unread() {
		return heavy
	}
	return light
}

type lConn struct {
	conn  net.Conn
	p     *xPeer
	rest  []byte
	dial  chan struct{} // closed when an outgoing connection ended
	hello bool
}

// reader starts to read what the node writes.
func (c *lConn) reader() {
	if c.p == nil {
		c.p = xNewPeer(c.conn)
	}
}

type lNode struct {
	rep   *vRep
	w     *xWorld
	c     *lCase
	k     int
	rnd   *rand.Rand
	n     *Node
	addr  string
	conns map[int]*lConn
	at    int
	small bool
	base  int // goroutines of a node without connections
	bad   bool
}

var lLabel = regexp.MustCompile(`"verif-case":"(\d+)"`)

// lCount counts the goroutines that work for the node.
func (l *lNode) count() int {
	var b bytes.Buffer
	_ = pprof.Lookup("goroutine").WriteTo(&b, 1)
	n := 0
	k := 0
	for _, s := range strings.Split(b.String(), "\n") {
		if f := strings.SplitN(s, " @ ", 2); len(f) == 2 {
			k, _ = strconv.Atoi(f[0])
		} else if m := lLabel.FindStringSubmatch(s); m != nil && m[1] == strconv.Itoa(l.k) {
			n += k
		}
	}
	return n
}

func (l *lNode) work(f func()) {
	go pprof.Do(context.Background(), pprof.Labels("verif-case", strconv.Itoa(l.k)), func(context.Context) { f() })
}

func (l *lNode) fail(format string, args ...interface{}) {
	if l.bad {
		return
	}
	l.bad = true
	ops := []string{}
	for i := 0; i <= l.at && i < len(l.c.Steps); i++ {
		ops = append(ops, fmt.Sprintf("%s(%d)", l.c.Steps[i].Op, l.c.Steps[i].C))
	}
	l.rep.violation("life", map[string]interface{}{"steps": ops}, "after %s: %s", strings.Join(ops, " "), fmt.Sprintf(format, args...))
}

var lFill struct {
	sync.Once
	peers []*Peer
}

// lFillers makes the answer to a handshake longer than what the system buffers.
func lFillers() []*Peer {
	lFill.Do(func() {
		for i := 0; i < 350000; i++ {
			lFill.peers = append(lFill.peers, &Peer{ID: uint64(1000000 + i), address: NetworkAddress{IP: uint32(i), Port: 1}})
		}
	})
	return lFill.peers
}

func (l *lNode) dialer() *net.Dialer {
	d := &net.Dialer{Timeout: 10 * time.Second}
	if l.small {
		d.Control = func(network, address string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}
	}
	return d
}

// start runs the node.
func (l *lNode) start() (stop func(), returned chan error, ok bool) {
	ctx, cancel := context.WithCancel(context.Background())
	returned = make(chan error, 1)
	l.work(func() { returned <- l.n.Run(ctx) })
	var conn net.Conn
	var err error
	for i := 0; i < 500; i++ {
		if conn, err = net.DialTimeout("tcp", l.addr, time.Second); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		l.fail("the node does not accept connections: %s", err)
		cancel()
		return cancel, returned, false
	}
	_ = conn.Close()
	if l.base == 0 && l.c.empties() {
		// the listener and what runs the node
		time.Sleep(2500 * time.Millisecond)
		l.base = l.count()
		for i := 0; i < 8; i++ {
			time.Sleep(150 * time.Millisecond)
			if c := l.count(); c < l.base {
				l.base = c
			}
		}
	}
	return cancel, returned, true
}

func (l *lNode) run() {
	l.rep.trace()
	l.small = l.c.unread()
	bc, err := l.w.chain(3, 900000)
	if err != nil {
		l.rep.fail("chain: %s", err)
		return
	}
	l.addr = xFreeAddr()
	l.n = l.w.node(bc, l.addr)
	if l.small {
		for _, p := range lFillers() {
			_ = l.n.ps.toGrey(p)
		}
	}
	stop, returned, ok := l.start()
	defer stop()
	if !ok {
		return
	}
	key := ""
	stopped := false
	for i := range l.c.Steps {
		l.at = i
		st := &l.c.Steps[i]
		key += fmt.Sprint(st.Op, st.C, " ")
		if st.Op == "stop" {
			stopped = true
			break
		}
		l.step(st)
		l.rep.eval(key)
		if l.bad {
			break
		}
	}
	if !stopped {
		l.at = len(l.c.Steps)
	}
	l.stop(stop, returned)
	if l.bad || l.rnd.Intn(8) > 0 {
		return
	}
	// and again
	l.conns = map[int]*lConn{}
	stop, returned, ok = l.start()
	defer stop()
	if !ok {
		return
	}
	l.step(&lStep{Op: "connect", C: 1})
	l.step(&lStep{Op: "hello", C: 1})
	l.stop(stop, returned)
}

// stop stops the node, in the middle of whatever the connections do.
func (l *lNode) stop(stop func(), returned chan error) {
	time.Sleep(time.Duration(l.rnd.Intn(1200)) * time.Millisecond)
	stop()
	// connections that come too late, if any
	for i := l.rnd.Intn(3); i > 0; i-- {
		if conn, err := net.DialTimeout("tcp", l.addr, 5*time.Second); err == nil {
			c := &lConn{conn: conn}
			c.reader()
			l.conns[-i] = c
			time.Sleep(time.Duration(l.rnd.Intn(100)) * time.Millisecond)
		}
	}
	select {
	case err := <-returned:
		if err != nil {
			l.fail("the node stops with the error %s", err)
		}
	case <-time.After(40 * time.Second):
		l.fail("stopped, the node does not return")
		return
	}
	for c, x := range l.conns {
		x.reader()
		if !xAwait(10*time.Second, func() bool { _, closed := x.p.count(); return closed }) {
			l.fail("the node has stopped and connection %d is still open", c)
		}
		_ = x.conn.Close()
		if x.dial != nil {
			select {
			case <-x.dial:
			case <-time.After(10 * time.Second):
				l.fail("the node has stopped and still works on its own connection %d", c)
			}
		}
	}
	if conn, err := net.DialTimeout("tcp", l.addr, time.Second); err == nil {
		_ = conn.Close()
		l.fail("the node has stopped and still accepts connections")
	}
	if !xAwait(10*time.Second, func() bool { return l.count() == 0 }) {
		l.fail("the node has stopped and %d goroutines still work for it", l.count())
	}
}

// gone waits until the node has closed the connection.
func (l *lNode) gone(c int, x *lConn) {
	x.reader()
	if !xAwait(20*time.Second, func() bool { _, closed := x.p.count(); return closed }) {
		l.fail("connection %d is not closed", c)
	}
	_ = x.conn.Close()
	if x.dial != nil {
		select {
		case <-x.dial:
		case <-time.After(20 * time.Second):
			l.fail("the node still works on its connection %d", c)
		}
	}
	delete(l.conns, c)
}

// answered waits for packets of the node.
func (l *lNode) answered(c int, x *lConn, cmds ...uint32) {
	x.reader()
	if !xAwait(30*time.Second, func() bool { k, closed := x.p.count(); return k >= len(cmds) || closed }) {
		l.fail("connection %d is not served", c)
		return
	}
	fs, closed, bad := x.p.take()
	if closed || bad != nil {
		l.fail("connection %d is closed %v", c, bad)
		return
	}
	for i := range cmds {
		if i >= len(fs) || fs[i].Cmd != cmds[i] || len(fs) > len(cmds) {
			l.fail("connection %d gets %d packets, not the commands %v", c, len(fs), cmds)
			return
		}
	}
}

func (l *lNode) write(c int, x *lConn, b []byte) {
	_ = x.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	if _, err := x.conn.Write(b); err != nil {
		l.fail("connection %d: %s", c, err)
	}
}

func (l *lNode) hello(top, h int) []byte {
	return xInvoke(CommandHandshake, HandshakeRequest{NodeData: l.w.nodeData("ours", 0, uint64(50+l.rnd.Intn(1000))),
		PayloadData: SyncData{CurrentHeight: uint32(h), TopBlockHash: l.w.hash(top)}})
}

func (l *lNode) probe(c int, x *lConn) {
	l.write(c, x, xInvoke(CommandTimedSync, TimedSyncRequest{PayloadData: SyncData{CurrentHeight: 4, TopBlockHash: l.w.hash(3)}}))
}

func (l *lNode) step(st *lStep) {
	x := l.conns[st.C]
	left := false
	switch st.Op {
	case "connect":
		conn, err := l.dialer().Dial("tcp", l.addr)
		if err != nil {
			l.fail("connection %d is not accepted: %s", st.C, err)
			return
		}
		l.conns[st.C] = &lConn{conn: conn}
	case "dial":
		ln, err := net.Listen("tcp4", strings.TrimSuffix(l.addr, "32347")+"0")
		if err != nil {
			l.rep.fail("listen: %s", err)
			return
		}
		defer ln.Close()
		for try := 0; try < 5 && l.conns[st.C] == nil; try++ {
			x := &lConn{dial: make(chan struct{})}
			l.work(func() {
				defer close(x.dial)
				l.n.syncWithAddr(ln.Addr().String())
			})
			_ = ln.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Second))
			if x.conn, err = ln.Accept(); err == nil {
				l.conns[st.C] = x
			}
		}
		if x = l.conns[st.C]; x == nil {
			l.fail("the node does not connect")
			return
		}
		l.answered(st.C, x, CommandHandshake)
	case "hello":
		l.write(st.C, x, l.hello(3, 4))
		l.answered(st.C, x, CommandHandshake)
		x.hello = true
	case "ahead":
		l.write(st.C, x, l.hello(9, 10))
		l.answered(st.C, x, CommandHandshake, NotificationRequestChainID)
		x.hello = true
	case "noread":
		l.write(st.C, x, l.hello(3, 4))
		x.hello = true
		time.Sleep(time.Duration(2000+l.rnd.Intn(1000)) * time.Millisecond)
	case "read":
		l.answered(st.C, x, CommandHandshake)
	case "part":
		b := l.hello(3, 4)
		n := 1 + l.rnd.Intn(32)
		if x.hello {
			b = xInvoke(CommandTimedSync, TimedSyncRequest{PayloadData: SyncData{CurrentHeight: 4, TopBlockHash: l.w.hash(3)}})
			n = 33 + l.rnd.Intn(len(b)-33)
		}
		l.write(st.C, x, b[:n])
		x.rest = b[n:]
		time.Sleep(time.Duration(l.rnd.Intn(1300)) * time.Millisecond)
	case "rest":
		l.write(st.C, x, x.rest)
		if x.hello {
			l.answered(st.C, x, CommandTimedSync)
		} else {
			l.answered(st.C, x, CommandHandshake)
		}
		x.hello = true
	case "answer":
		b := xMarshal(HandshakeResponse{NodeData: l.w.nodeData("ours", 0, uint64(2000+st.C)), PayloadData: SyncData{CurrentHeight: 4, TopBlockHash: l.w.hash(3)}})
		l.write(st.C, x, xFrame{Cmd: CommandHandshake, Flags: 2, Code: 1, Version: 1, Body: b}.bytes())
		x.hello = true
		if !xAwait(10*time.Second, func() bool {
			for _, e := range l.n.ps.toPeerEntries() {
				if e.ID == uint64(2000+st.C) {
					return true
				}
			}
			return false
		}) {
			l.fail("the peer of connection %d is not stored", st.C)
		}
	case "bad":
		l.write(st.C, x, l.misbehave(x))
		l.gone(st.C, x)
		left = true
	case "leave":
		if l.rnd.Intn(2) == 0 {
			_ = x.conn.Close()
			delete(l.conns, st.C)
		} else {
			_ = x.conn.(*net.TCPConn).CloseWrite()
			l.gone(st.C, x)
		}
		left = true
	case "reset":
		_ = x.conn.(*net.TCPConn).SetLinger(0)
		_ = x.conn.Close()
		delete(l.conns, st.C)
		left = true
	default:
		l.rep.fail("unknown step %s", st.Op)
	}
	if l.bad {
		return
	}
	if left && st.Empty && len(l.conns) == 0 && !xAwait(20*time.Second, func() bool { return l.count() <= l.base }) {
		l.fail("all connections ended and %d goroutines work for the node instead of %d", l.count(), l.base)
		return
	}
	// all others are served as before
	for _, c := range st.Served {
		if c != st.C {
			l.probe(c, l.conns[c])
		}
	}
	for _, c := range st.Served {
		if c != st.C && !l.bad {
			l.answered(c, l.conns[c], CommandTimedSync)
		}
	}
}

func (l *lNode) misbehave(x *lConn) []byte {
	junk := make([]byte, 33+l.rnd.Intn(60))
	l.rnd.Read(junk)
	if x.dial != nil && !x.hello {
		b := xMarshal(HandshakeResponse{NodeData: l.w.nodeData("other", 0, 7), PayloadData: SyncData{CurrentHeight: 4, TopBlockHash: l.w.hash(3)}})
		if l.rnd.Intn(2) == 0 {
			return xFrame{Cmd: CommandHandshake, Flags: 2, Code: 1, Version: 1, Body: b}.bytes()
		}
		return junk
	}
	big := xFrame{Cmd: 1002, Expects: true, Flags: 1, Version: 1}.bytes()
	big[12] = 1
	empty := xNotify(NotificationResponseChainEntryID, NotificationResponseChainEntry{StartHeight: 1, TotalHeight: 5})
	return [][]byte{junk, big, empty}[l.rnd.Intn(3)]
}

var _ = io.EOF
