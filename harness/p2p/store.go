package p2p

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
	"go.uber.org/zap"
)

var sIds = []uint64{1, 1, 2, 0, 18446744073709551615, 2}

func sPeers() []*Peer {
	res := []*Peer{}
	for i, id := range sIds {
		p := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{}, NetworkAddress{IP: 16777343 + uint32(i+1)<<24, Port: uint32(1000 + i)}, i%2 == 0)
		p.ID = id
		res = append(res, p)
	}
	return res
}

// sListed names the peers that are advertised.
func sListed(es []PeerEntry) ([]int, string) {
	res := []int{}
	for _, e := range es {
		i := int(e.Address.Port) - 1000
		if i < 0 || i >= len(sIds) || e.ID != sIds[i] || e.Address.IP != 16777343+uint32(i+1)<<24 {
			return nil, fmt.Sprintf("entry %v belongs to no peer", e)
		}
		res = append(res, i+1)
	}
	sort.Ints(res)
	return res, ""
}

type sKey struct {
	White []int `json:"white"`
	Grey  []int `json:"grey"`
}

// TestVerifStore replays histories of PeerStore.tla, and looks at the store
// through the answers of the node as well.
func TestVerifStore(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	w := xNewWorld(1)
	vCases(t, func(line []byte) {
		var c struct {
			Steps []struct {
				Op string `json:"op"`
				P  int    `json:"p"`
				Ok bool   `json:"ok"`
				T  sKey   `json:"t"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		rep.trace()
		vCur(json.RawMessage(line))
		xBubble(t, func(t *testing.T) {
			bc, err := w.chain(0, 0)
			if err != nil {
				rep.fail("%s", err)
				return
			}
			n := w.node(bc, "")
			conn, _, stop, err := xConnect(n, true)
			if err != nil {
				rep.fail("%s", err)
				return
			}
			p := xNewPeer(conn)
			defer func() { _ = conn.Close(); stop(); xSettle(func() bool { return true }) }()
			peers := sPeers()
			for i, s := range c.Steps {
				var err error
				if s.Op == "white" {
					err = n.ps.toWhite(peers[s.P-1])
				} else {
					err = n.ps.toGrey(peers[s.P-1])
				}
				bad := func(format string, args ...interface{}) {
					rep.violation("store", map[string]interface{}{"steps": c.Steps[:i+1]}, "after %d moves, to %s of peer %d (id %d): %s", i, s.Op, s.P, sIds[s.P-1],
						fmt.Sprintf(format, args...))
				}
				rep.eval(string(line[:20]) + fmt.Sprint(i, s))
				if (err == nil) != s.Ok {
					bad("error %v, expected success: %v", err, s.Ok)
					return
				}
				want := append(append([]int{}, s.T.White...), s.T.Grey...)
				sort.Ints(want)
				got, e := sListed(n.ps.toPeerEntries())
				if e != "" || fmt.Sprint(got) != fmt.Sprint(want) {
					bad("advertised are %v instead of %v %s", got, want, e)
					return
				}
				for i, p := range peers {
					if p.ID == 0 {
						continue
					}
					inW, inG := false, false
					for _, x := range s.T.White {
						inW = inW || x == i+1
					}
					for _, x := range s.T.Grey {
						inG = inG || x == i+1
					}
					if (n.ps.white.Get(p.ID) == p) != inW || (n.ps.grey.Get(p.ID) == p) != inG {
						bad("peer %d on the good list: %v, expected %v; on the grey list: %v, expected %v", i+1, n.ps.white.Get(p.ID) == p, inW, n.ps.grey.Get(p.ID) == p, inG)
						return
					}
				}
				// what a peer is told
				if i%3 == 2 || i == len(c.Steps)-1 {
					if p.send(xInvoke(CommandTimedSync, TimedSyncRequest{}), func() bool { k, _ := p.count(); return k > 0 }) {
						bad("the node does not read")
						return
					}
					fs, _, _ := p.take()
					var r TimedSyncResponse
					if len(fs) != 1 || kvcodec.Unmarshal(fs[0].Body, &r) != nil {
						bad("no answer to a timed sync request")
						return
					}
					got, e := sListed(r.Peers)
					if e != "" || fmt.Sprint(got) != fmt.Sprint(want) {
						bad("a peer is told about %v instead of %v %s", got, want, e)
						return
					}
				}
			}
		})
	})
}

type sCall struct {
	Op  string `json:"op"`
	P   int    `json:"p"`
	Ok  bool   `json:"ok"`
	Res []int  `json:"res"`
	Inv int64  `json:"inv"`
	Ret int64  `json:"ret"`
}

// TestVerifStoreLin records histories of concurrent calls.
func TestVerifStoreLin(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var par struct {
		Histories  int `json:"histories"`
		Goroutines int `json:"goroutines"`
		Calls      int `json:"calls"`
	}
	vParams(&par)
	rng := vRand()
	var histories [][]sCall
	for h := 0; h < par.Histories && !rep.full(); h++ {
		ps := NewPeerStore()
		peers := sPeers()
		var clock int64
		calls := make([][]sCall, par.Goroutines)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range calls {
			for k := 0; k < par.Calls; k++ {
				calls[g] = append(calls[g], sCall{Op: []string{"white", "grey", "white", "grey", "list"}[rng.Intn(5)], P: 1 + rng.Intn(len(peers)), Res: []int{}})
				// most calls are about the peers that share an id
				if rng.Intn(2) == 0 {
					calls[g][k].P = 1 + rng.Intn(2)
				}
			}
			spin := rng.Intn(200)
			wg.Add(1)
			go func(cs []sCall) {
				defer wg.Done()
				<-start
				for i := 0; i < spin; i++ {
					runtime.Gosched()
				}
				for i := range cs {
					c := &cs[i]
					c.Inv = atomic.AddInt64(&clock, 1)
					var es []PeerEntry
					var err error
					switch c.Op {
					case "white":
						err = ps.toWhite(peers[c.P-1])
					case "grey":
						err = ps.toGrey(peers[c.P-1])
					case "list":
						es = ps.toPeerEntries()
					}
					c.Ret = atomic.AddInt64(&clock, 1)
					c.Ok = err == nil
					if c.Op == "list" {
						var e string
						if c.Res, e = sListed(es); e != "" {
							rep.violation("entry", nil, "%s", e)
						}
					}
				}
			}(calls[g])
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		close(start)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			rep.violation("blocked", nil, "concurrent calls of the peer store do not end")
			return
		}
		var all []sCall
		for _, cs := range calls {
			all = append(all, cs...)
		}
		rep.eval(fmt.Sprint(all))
		histories = append(histories, all)
	}
	rep.Extra["histories"] = histories
	_ = context.Background
}
