package p2p

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
)

// TestVerifDial replays the histories of Peer.tla that start with an outgoing
// connection, over TCP.
func TestVerifDial(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	base := rnd.Intn(1000)
	worlds := []*xWorld{}
	for i := 0; i < 32; i++ {
		worlds = append(worlds, xNewWorld(base+i*3))
		worlds[i].plain = i >= 16
	}
	sem := make(chan struct{}, 150)
	var wg sync.WaitGroup
	k := 0
	vCases(t, func(line []byte) {
		c := &xCase{}
		if err := json.Unmarshal(line, c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		k++
		w := worlds[k%16]
		if c.Zone == 0 {
			w = worlds[16+k%16]
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			xDial(rep, w, c)
		}()
	})
	wg.Wait()
}

func xDial(rep *vRep, w *xWorld, c *xCase) {
	rep.trace()
	bc, err := w.chain(c.Own, c.Zone)
	if err != nil {
		rep.fail("chain: %s", err)
		return
	}
	n := w.node(bc, "")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n.context = ctx
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		rep.fail("listen: %s", err)
		return
	}
	defer l.Close()
	var conn net.Conn
	released := make(chan struct{})
	for try := 0; ; try++ {
		acc := make(chan net.Conn, 1)
		go func() {
			if conn, err := l.Accept(); err == nil {
				acc <- conn
			}
		}()
		rel := make(chan struct{})
		go func() {
			defer close(rel)
			defer func() {
				if r := recover(); r != nil {
					xPanicked(fmt.Sprint(r))
				}
			}()
			n.syncWithAddr(l.Addr().String())
		}()
		select {
		case conn = <-acc:
			released = rel
		case <-time.After(10 * time.Second):
		}
		if conn != nil {
			break
		}
		if try == 3 { // dialling gives up after a second, on a loaded machine perhaps too early
			rep.violation("dial", c, "the node does not connect")
			return
		}
	}
	defer conn.Close()
	p := xNewPeer(conn)
	at := -1
	fail := func(format string, args ...interface{}) {
		s := "connected"
		if at >= 0 {
			s = xDescribe(&c.Steps[at].M)
		}
		rep.violation("dial", map[string]interface{}{"own": c.Own, "zone": c.Zone, "steps": xBrief(c.Steps)},
			"own chain of %d blocks, zone %d, %s: %s", c.Own, c.Zone, s, fmt.Sprintf(format, args...))
	}
	// the handshake request
	if !xAwait(20*time.Second, func() bool { k, closed := p.count(); return k > 0 || closed }) {
		fail("no handshake request")
		return
	}
	time.Sleep(50 * time.Millisecond)
	fs, closed, bad := p.take()
	hello := &xOut{K: "hello", Ids: xIds{c.Own}, H: c.Own + 1}
	if bad != nil || closed || len(fs) != 1 {
		fail("%d packets instead of the handshake request (closed: %v) %v", len(fs), closed, bad)
		return
	}
	if s := w.check(fs[0], hello); s != "" {
		fail("%s", s)
		return
	}
	if len(n.ps.toPeerEntries()) != 0 {
		fail("the peer is stored before it answered")
		return
	}
	key := fmt.Sprintf("%d/%d", c.Own, c.Zone)
	id := uint64(0)
	for i := range c.Steps {
		at = i
		st := &c.Steps[i]
		if st.M.K == "grows" || st.M.K == "meanwhile" {
			if s, _ := w.step(n, p, st); s != "" {
				fail("%s", s)
				return
			}
			continue
		}
		b, hangup := w.bytes(&st.M)
		_ = conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, err := conn.Write(b); err != nil {
			fail("the node does not read: %s", err)
			return
		}
		if hangup {
			_ = conn.(*net.TCPConn).CloseWrite()
		}
		want := st.T.St == "closed"
		quiet := func() bool {
			k, closed := p.count()
			return closed || (!want && !st.Free && k >= len(st.Out) && fmt.Sprint(w.ids(n.Blockchain)) == fmt.Sprint([]int(st.T.Chain)))
		}
		d := 30 * time.Second
		if st.Free {
			d = 1500 * time.Millisecond
		}
		xAwait(d, quiet)
		if !want && len(st.Out) == 0 {
			// a message that has no visible effect is read after a second at the latest
			time.Sleep(1300 * time.Millisecond)
		} else {
			time.Sleep(100 * time.Millisecond)
		}
		fs, closed, bad := p.take()
		key += xDescribe(&st.M)
		rep.eval(key)
		if s := xTakePanic(); s != "" {
			fail("panic: %s", s)
			return
		}
		if bad != nil {
			fail("%s", bad)
			return
		}
		if len(fs) != len(st.Out) {
			fail("%d packets are sent instead of %d", len(fs), len(st.Out))
			return
		}
		for j := range fs {
			if s := w.check(fs[j], &st.Out[j]); s != "" {
				fail("%s", s)
				return
			}
		}
		if closed != want && !st.Free {
			fail("connection closed: %v instead of %v", closed, want)
			return
		}
		if ids := w.ids(bc); fmt.Sprint(ids) != fmt.Sprint([]int(st.T.Chain)) {
			fail("chain %s instead of %s", xShort(ids), xShort(st.T.Chain))
			return
		}
		if i == 0 {
			if want {
				select {
				case <-released:
				case <-time.After(20 * time.Second):
					fail("the connection is not released")
					return
				}
				if len(n.ps.toPeerEntries()) != 0 {
					fail("a peer that is refused is stored")
				}
				return
			}
			id = st.M.Id
			if !n.ps.white.Has(id) || n.ps.grey.Has(id) {
				fail("the peer is not stored as a good peer")
				return
			}
		}
		if closed {
			break
		}
	}
	// what is left when the peer leaves
	_ = conn.Close()
	select {
	case <-released:
	case <-time.After(20 * time.Second):
		fail("the connection is not released after the peer left")
		return
	}
	if es := n.ps.toPeerEntries(); len(es) != 1 || es[0].ID != id || n.ps.white.Has(id) {
		fail("after the peer left the store advertises %v", es)
	}
}
