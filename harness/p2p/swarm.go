package p2p

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"reflect"
	"sync"
	"testing"
	"time"

	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
	"go.uber.org/zap"
)

// Several connections to one node at once, see Swarm.tla.

type zStep struct {
	C   int    `json:"c"`
	Op  string `json:"op"`
	M   xMsg   `json:"m"`
	Out []xOut `json:"out"`
	T   struct {
		Chain xIds `json:"chain"`
		C     []struct {
			S struct {
				St string `json:"st"`
			} `json:"s"`
		} `json:"c"`
	} `json:"t"`
}

type zCase struct {
	Scene string  `json:"scene"`
	N     int     `json:"n"`
	Own   int     `json:"own"`
	Zone  uint32  `json:"zone"`
	Steps []zStep `json:"steps"`
}

type zLink struct {
	p        *xPeer
	conn     net.Conn
	released chan struct{}
}

// zConnect adds a connection; the context of the node is set already.
func zConnect(n *Node, port int) *zLink {
	a, b := net.Pipe()
	p := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{a}, NetworkAddress{IP: 16777343, Port: uint32(port)}, true)
	l := &zLink{conn: b, released: make(chan struct{})}
	go func() {
		defer close(l.released)
		defer func() {
			if r := recover(); r != nil {
				xPanicked(fmt.Sprint(r))
			}
		}()
		n.connectionHandler(p)
	}()
	l.p = xNewPeer(b)
	return l
}

// TestVerifSwarm replays histories of Swarm.tla.
func TestVerifSwarm(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	base := vRand().Intn(1000)
	worlds := []*xWorld{}
	for i := 0; i < 8; i++ {
		worlds = append(worlds, xNewWorld(base+i*3))
	}
	k := 0
	vCases(t, func(line []byte) {
		var c zCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		k++
		if rep.full() {
			return
		}
		vCur(json.RawMessage(line))
		zRunCase(t, rep, worlds[k%8], &c)
	})
}

func zRunCase(t *testing.T, rep *vRep, w *xWorld, c *zCase) {
	rep.trace()
	xBubble(t, func(t *testing.T) {
		bc, err := w.chain(c.Own, c.Zone)
		if err != nil {
			rep.fail("chain: %s", err)
			return
		}
		n := w.node(bc, "")
		ctx, cancel := context.WithCancel(context.Background())
		n.context = ctx
		links := make([]*zLink, c.N)
		all := []*zLink{}
		for i := range links {
			links[i] = zConnect(n, len(all)+1)
			all = append(all, links[i])
		}
		defer func() {
			cancel()
			for _, l := range all {
				_ = l.conn.Close()
			}
			xSettle(nil)
			for _, l := range all {
				select {
				case <-l.released:
				default:
					rep.violation("not-released", c, "a connection is not released after the peer left and the node stopped")
					rep.save(t)
					os.Exit(0)
				}
			}
		}()
		key := fmt.Sprintf("%s/%d/", c.Scene, c.Own)
		for i := range c.Steps {
			st := &c.Steps[i]
			l := links[st.C-1]
			key += fmt.Sprintf("%d%s%s;", st.C, st.Op, xDescribe(&st.M))
			fail := func(s string) {
				rep.violation("step", map[string]interface{}{"scene": c.Scene, "own": c.Own, "at": i, "steps": zBrief(c.Steps[:i+1])},
					"%d peers, own chain of %d blocks, after %d messages, peer %d %s %s: %s", c.N, c.Own, i, st.C, st.Op, xDescribe(&st.M), s)
			}
			switch st.Op {
			case "grows":
				continue
			case "join":
				_ = l.conn.Close()
				xSettle(nil)
				if s := xTakePanic(); s != "" {
					fail("panic: " + s)
					return
				}
				links[st.C-1] = zConnect(n, len(all)+1)
				all = append(all, links[st.C-1])
			case "send":
				xs := xStep{M: st.M, Out: st.Out}
				xs.T.Chain, xs.T.St = st.T.Chain, st.T.C[st.C-1].S.St
				s, _ := w.step(n, l.p, &xs)
				if s != "" {
					fail(s)
					return
				}
			}
			rep.eval(key)
			// the others see nothing of it
			for j, o := range links {
				if j == st.C-1 {
					continue
				}
				k, closed := o.p.count()
				if k > 0 {
					fail(fmt.Sprintf("peer %d gets a packet", j+1))
					return
				}
				if want := st.T.C[j].S.St == "closed"; closed != want {
					fail(fmt.Sprintf("connection of peer %d closed: %v instead of %v", j+1, closed, want))
					return
				}
			}
		}
	})
}

func zBrief(steps []zStep) (res []string) {
	for i := range steps {
		res = append(res, fmt.Sprintf("%d %s %s", steps[i].C, steps[i].Op, xDescribe(&steps[i].M)))
	}
	return
}

// ---- rounds in which every peer sends at the same time -----------------------

type zOut struct {
	K   string `json:"k"`
	Ids []int  `json:"ids"`
	H   int    `json:"h"`
}

type zSent struct {
	M      map[string]interface{} `json:"m"`
	Out    []zOut                 `json:"out"`
	Closed bool                   `json:"closed"`
}

type zRound struct {
	A    int     `json:"a"` // length of the chain before and after
	B    int     `json:"b"`
	Sent []zSent `json:"sent"`
}

// zEnv is a peer as Swarm.tla has it.
type zEnv struct {
	rc          int
	kind        string
	ask         string // the request that waits for its answer
	ids         []int
	ready, gone bool
}

func (e *zEnv) choose(r interface{ Intn(int) int }) (m xMsg, doc map[string]interface{}) {
	seq := func(a, b int) (q []int) {
		for i := a; i <= b; i++ {
			q = append(q, i)
		}
		return
	}
	type bl = struct {
		B   int    `json:"b"`
		N   int    `json:"n"`
		Bod string `json:"bod"`
	}
	deliver := func(bs []bl, h int) (xMsg, map[string]interface{}) {
		l := []map[string]interface{}{}
		for _, b := range bs {
			l = append(l, map[string]interface{}{"b": b.B, "bod": b.Bod})
		}
		return xMsg{K: "deliver", Bl: bs, H: h}, map[string]interface{}{"k": "deliver", "bl": l, "h": h}
	}
	announce := func(ids []int, total int) (xMsg, map[string]interface{}) {
		return xMsg{K: "announce", Ids: ids, Start: ids[0], Total: total}, map[string]interface{}{"k": "announce", "ids": ids, "start": ids[0], "total": total}
	}
	bad := e.kind == "sly" && r.Intn(5) == 0
	if !e.ready {
		e.ready = true
		return xMsg{K: "handshake", Net: "ours", Id: 7, Top: e.rc, H: e.rc + 1}, map[string]interface{}{"k": "handshake", "net": "ours", "id": 7, "top": e.rc, "h": e.rc + 1}
	}
	switch e.ask {
	case "chain":
		from := 0
		for _, id := range e.ids {
			if id <= e.rc {
				from = id
				break
			}
		}
		to := from + r.Intn(9)
		if to > e.rc || r.Intn(3) == 0 {
			to = e.rc
		}
		if bad {
			return announce(seq(from, e.rc), e.rc-1)
		}
		return announce(seq(from, to), e.rc+1)
	case "blocks":
		bs := []bl{}
		for _, id := range e.ids {
			bs = append(bs, bl{id, 1, "right"})
		}
		if bad {
			i := r.Intn(len(bs))
			switch r.Intn(5) {
			case 0:
				bs[i].Bod = "cut"
			case 1:
				bs[i].Bod = "more"
			case 2:
				if xTxs(bs[i].B) > 0 {
					bs[i].Bod = "other"
				} else {
					bs[i].Bod = "more"
				}
			case 3:
				bs = bs[1:]
			case 4:
				j := r.Intn(len(bs))
				bs[i], bs[j] = bs[j], bs[i]
			}
		}
		return deliver(bs, e.rc+1)
	}
	if r.Intn(4) == 0 {
		e.rc += 1 + r.Intn(3)
	}
	return xMsg{K: "timedsync", Top: e.rc, H: e.rc + 1}, map[string]interface{}{"k": "timedsync", "top": e.rc, "h": e.rc + 1}
}

// decode reads a packet of the node.
func (w *xWorld) zDecode(f *xFrame, ids map[[32]byte]int) (zOut, string) {
	names := func(hs [][32]byte) []int {
		res := []int{}
		for _, h := range hs {
			id, ok := ids[h]
			if !ok {
				id = -1
			}
			res = append(res, id)
		}
		return res
	}
	switch f.Cmd {
	case CommandHandshake:
		var r HandshakeResponse
		if err := kvcodec.Unmarshal(f.Body, &r); err != nil {
			return zOut{}, err.Error()
		}
		seen := map[uint64]bool{}
		for _, e := range r.Peers {
			if e.ID != 7 || seen[e.ID] {
				return zOut{}, fmt.Sprintf("the peer with id %d is advertised (or twice)", e.ID)
			}
			seen[e.ID] = true
		}
		return zOut{"handshake", names([][32]byte{r.PayloadData.TopBlockHash}), int(r.PayloadData.CurrentHeight)}, ""
	case CommandTimedSync:
		var r TimedSyncResponse
		if err := kvcodec.Unmarshal(f.Body, &r); err != nil {
			return zOut{}, err.Error()
		}
		return zOut{"timedsync", names([][32]byte{r.PayloadData.TopBlockHash}), int(r.PayloadData.CurrentHeight)}, ""
	case NotificationRequestChainID:
		var r NotificationRequestChain
		if err := kvcodec.Unmarshal(f.Body, &r); err != nil {
			return zOut{}, err.Error()
		}
		hs := [][32]byte{}
		for _, h := range r.Blocks {
			hs = append(hs, h)
		}
		return zOut{"chain", names(hs), 0}, ""
	case NotificationRequestGetObjectsID:
		var r NotificationRequestGetObjects
		if err := kvcodec.Unmarshal(f.Body, &r); err != nil {
			return zOut{}, err.Error()
		}
		hs := [][32]byte{}
		for _, h := range r.Blocks {
			hs = append(hs, h)
		}
		return zOut{"blocks", names(hs), 0}, ""
	}
	return zOut{}, fmt.Sprintf("packet with command %d", f.Cmd)
}

// TestVerifTogether lets several peers send at the same instant, round by round, and
// records what happens. The recordings are judged by SwarmTrace.tla.
func TestVerifTogether(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Histories int `json:"histories"`
		Rounds    int `json:"rounds"`
	}
	vParams(&par)
	w := xNewWorld(1)
	rnd := vRand()
	ids := map[[32]byte]int{}
	for i := 0; i < 200; i++ {
		ids[w.hash(i)] = i
	}
	recs := []map[string]interface{}{}
	vCases(t, func(line []byte) {
		for h := 0; h < par.Histories && !rep.full(); h++ {
			vCur(map[string]int{"history": h})
			if r := zTogether(t, rep, w, rnd, ids, par.Rounds); r != nil {
				recs = append(recs, r)
			}
		}
	})
	rep.Extra["histories"] = recs
}

func zTogether(t *testing.T, rep *vRep, w *xWorld, rnd interface{ Intn(int) int }, ids map[[32]byte]int, rounds int) (rec map[string]interface{}) {
	rep.trace()
	xBubble(t, func(t *testing.T) {
		own := rnd.Intn(3)
		bc, err := w.chain(own, 900000)
		if err != nil {
			rep.fail("chain: %s", err)
			return
		}
		n := w.node(bc, "")
		ctx, cancel := context.WithCancel(context.Background())
		n.context = ctx
		np := 2 + rnd.Intn(4)
		var links []*zLink
		var envs []*zEnv
		for i := 0; i < np; i++ {
			links = append(links, zConnect(n, i+1))
			e := &zEnv{rc: own + rnd.Intn(12), kind: "honest"}
			if i > 0 && rnd.Intn(3) == 0 {
				e.kind = "sly"
			}
			envs = append(envs, e)
		}
		defer func() {
			cancel()
			for _, l := range links {
				_ = l.conn.Close()
			}
			xSettle(nil)
		}()
		rs := []zRound{}
		kinds := []string{}
		for _, e := range envs {
			kinds = append(kinds, e.kind)
		}
		for r := 0; r < rounds; r++ {
			rd := zRound{A: int(n.Blockchain.TopBlock().Index()), Sent: make([]zSent, np)}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range links {
				rd.Sent[i] = zSent{M: map[string]interface{}{"k": "nothing"}, Out: []zOut{}, Closed: envs[i].gone}
				if envs[i].gone || (r > 0 && rnd.Intn(6) == 0) {
					continue
				}
				m, doc := envs[i].choose(rnd)
				rd.Sent[i].M = doc
				b, _ := w.bytes(&m)
				wg.Add(1)
				go func(c net.Conn) {
					defer wg.Done()
					<-start
					_, _ = c.Write(b)
				}(links[i].conn)
			}
			close(start)
			time.Sleep(3 * time.Second)
			xSettle(nil)
			if s := xTakePanic(); s != "" {
				rep.violation("panic", rd, "panic while %d peers send at once: %s", np, s)
				return
			}
			wg.Wait()
			for i, l := range links {
				fs, closed, bad := l.p.take()
				if bad != nil {
					rep.violation("packet", rd, "peer %d gets %s", i+1, bad)
					return
				}
				rd.Sent[i].Closed = closed
				if closed {
					envs[i].gone = true
				}
				if rd.Sent[i].M["k"] != "nothing" && rd.Sent[i].M["k"] != "timedsync" {
					envs[i].ask, envs[i].ids = "", nil
				}
				for _, f := range fs {
					o, s := w.zDecode(f, ids)
					if s != "" {
						rep.violation("packet", rd, "peer %d gets a packet that is not one of the node's: %s", i+1, s)
						return
					}
					rd.Sent[i].Out = append(rd.Sent[i].Out, o)
					if o.K == "chain" || o.K == "blocks" {
						envs[i].ask, envs[i].ids = o.K, o.Ids
					}
				}
			}
			chain := w.ids(n.Blockchain)
			rd.B = len(chain)
			if rd.B > 0 && (chain[0] < 0 || !reflect.DeepEqual(chain, zSeq(rd.B))) {
				rep.violation("chain", rd, "the chain after a round of %d peers is %v", np, xShort(chain))
				return
			}
			rs = append(rs, rd)
			rep.eval(fmt.Sprintf("%d/%v/%v/%d", np, kinds, rd.Sent, rd.A))
		}
		rec = map[string]interface{}{"own": own, "n": np, "kinds": kinds, "rounds": rs}
	})
	return
}

func zSeq(n int) (q []int) {
	for i := 1; i <= n; i++ {
		q = append(q, i)
	}
	return
}
