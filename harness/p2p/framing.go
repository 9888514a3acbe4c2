package p2p

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	kvcodec "github.com/r3volut1oner/go-karbo/encoding/binary"
)

type fCase struct {
	Pk    []int  `json:"pk"`
	Fault string `json:"fault"`
	Steps []struct {
		At  int    `json:"at"`
		St  string `json:"st"`
		Got int    `json:"got"`
	} `json:"steps"`
}

// TestVerifFraming feeds streams of Framing.tla to a reader of packets.
func TestVerifFraming(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	vCases(t, func(line []byte) {
		var c fCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() {
			return
		}
		rep.trace()
		vCur(json.RawMessage(line))
		synctest.Test(t, func(t *testing.T) { fRun(rep, rnd, &c) })
	})
}

func fFrames(rnd *rand.Rand, c *fCase) (fs []xFrame, stream []byte) {
	for i, n := range c.Pk {
		f := xFrame{Cmd: rnd.Uint32(), Expects: rnd.Intn(2) == 0, Code: int32(rnd.Uint32()), Flags: []uint32{0, 1, 2, 3, 4, 0xfffffffd, 0xffffffff}[rnd.Intn(7)],
			Version: []uint32{0, 1, 2, 1 << 31}[rnd.Intn(4)], Body: make([]byte, n)}
		rnd.Read(f.Body)
		fs = append(fs, f)
		b := f.bytes()
		if f.Expects {
			b[16] = byte(1 + rnd.Intn(255)) // any value but zero
		}
		if i == len(c.Pk)-1 {
			switch c.Fault {
			case "signature":
				b[rnd.Intn(8)] ^= byte(1 + rnd.Intn(255))
			case "oversize":
				binary.LittleEndian.PutUint64(b[8:], []uint64{100000001, 1 << 32, 1<<32 + 5, 1 << 63, 1<<64 - 1, 100000256}[rnd.Intn(6)])
			}
		}
		stream = append(stream, b...)
	}
	return
}

func fRun(rep *vRep, rnd *rand.Rand, c *fCase) {
	fs, stream := fFrames(rnd, c)
	a, b := net.Pipe()
	lp := &LevinProtocol{Conn: a}
	var mu sync.Mutex
	var got []*LevinCommand
	var rerr error
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				mu.Lock()
				rerr = fmt.Errorf("panic: %v", r)
				mu.Unlock()
				xPanicked(fmt.Sprint(r))
			}
		}()
		for {
			cmd, err := lp.read()
			mu.Lock()
			if err != nil {
				rerr = err
				mu.Unlock()
				// what the node does on an error
				_ = a.Close()
				return
			}
			got = append(got, cmd)
			mu.Unlock()
		}
	}()
	at := 0
	bad := func(format string, args ...interface{}) {
		rep.violation("framing", map[string]interface{}{"packets": c.Pk, "fault": c.Fault, "steps": c.Steps, "stream": vHex(stream)},
			"packets with bodies of %v bytes (last header: %s), %d bytes arrived: %s", c.Pk, c.Fault, at, fmt.Sprintf(format, args...))
	}
	defer func() {
		_ = b.Close()
		_ = a.Close()
		<-done
	}()
	for _, s := range c.Steps {
		if s.At > at {
			chunk := stream[at:s.At]
			w := make(chan struct{})
			go func() { _, _ = b.Write(chunk); close(w) }()
			synctest.Wait()
			at = s.At
			select {
			case <-w:
			default:
				// not everything is read: fine only after an error
				if s.St != "error" {
					bad("the reader does not take what arrives")
					_ = b.Close()
					<-w
					return
				}
				_ = b.Close()
				<-w
			}
		} else if s.St == "error" {
			_ = b.Close()
		}
		synctest.Wait()
		mu.Lock()
		n, e := len(got), rerr
		mu.Unlock()
		rep.eval(fmt.Sprint(c.Pk, c.Fault, at, s.St))
		if p := xTakePanic(); p != "" {
			bad("panic: %s", p)
			return
		}
		if n != s.Got {
			bad("%d packets are delivered instead of %d", n, s.Got)
			return
		}
		if (e != nil) != (s.St == "error") {
			bad("error %v, expected: %s", e, s.St)
			return
		}
		for i := 0; i < n; i++ {
			g, f := got[i], fs[i]
			if g.Command != f.Cmd || g.IsNotify == f.Expects || g.IsResponse != (f.Flags&2 != 0) || !bytes.Equal(g.Payload, f.Body) {
				bad("packet %d (command %d, expects answer %v, flags %x, body %x) is delivered as (%d, notification %v, response %v, %x)", i+1,
					f.Cmd, f.Expects, f.Flags, f.Body, g.Command, g.IsNotify, g.IsResponse, g.Payload)
				return
			}
		}
	}
}

// fChunks hands out what was written in small pieces.
type fChunks struct {
	net.Conn
	rnd *rand.Rand
	in  *bytes.Buffer
	out bytes.Buffer
}

func (c *fChunks) Read(b []byte) (int, error) {
	if c.in.Len() == 0 {
		return 0, io.EOF
	}
	n := 1 + c.rnd.Intn(40)
	if n > len(b) {
		n = len(b)
	}
	return c.in.Read(b[:n])
}

func (c *fChunks) Write(b []byte) (int, error) { return c.out.Write(b) }

// TestVerifFrames: what is written, and what one side writes read by the other.
func TestVerifFrames(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	rnd := vRand()
	w := xNewWorld(rnd.Intn(100))
	n := 3000
	if vThorough() {
		n = 30000
	}
	for k := 0; k < n && !rep.full(); k++ {
		rep.trace()
		var want []xFrame
		c := &fChunks{rnd: rnd, in: &bytes.Buffer{}}
		lp := &LevinProtocol{Conn: c}
		for i := 1 + rnd.Intn(4); i > 0; i-- {
			var v interface{} = NotificationRequestGetObjects{Blocks: w.hashes([]int{0, 3000, 0}[:rnd.Intn(4)])}
			switch rnd.Intn(4) {
			case 0:
				v = TimedSyncRequest{PayloadData: SyncData{CurrentHeight: rnd.Uint32()}}
			case 1:
				v = PingResponse{Status: string(make([]byte, rnd.Intn(300))), PeerID: rnd.Uint64()}
			case 2:
				v = NotificationNewLiteBlock{Block: make([]byte, rnd.Intn(70000)), Hop: rnd.Uint32()}
			}
			body, err := kvcodec.Marshal(v)
			if err != nil {
				rep.fail("marshal: %s", err)
				return
			}
			cmd := rnd.Uint32()
			switch rnd.Intn(3) {
			case 0:
				code := int32(rnd.Uint32())
				err = lp.Reply(cmd, v, code)
				want = append(want, xFrame{Cmd: cmd, Code: code, Flags: 2, Version: 1, Body: body})
			case 1:
				err = lp.Notify(cmd, v)
				want = append(want, xFrame{Cmd: cmd, Flags: 1, Version: 1, Body: body})
			case 2:
				// the answer is already there
				ans := xFrame{Cmd: cmd, Flags: 2, Version: 1, Code: 1, Body: body}
				c.in.Write(ans.bytes())
				res := reflect.New(reflect.TypeOf(v))
				err = lp.Invoke(cmd, v, res.Interface())
				if err == nil && !bytes.Equal(xMarshal(res.Elem().Interface()), body) {
					rep.violation("invoke", vHex(body), "Invoke returns another answer than the one that was sent")
				}
				want = append(want, xFrame{Cmd: cmd, Expects: true, Flags: 1, Version: 1, Body: body})
			}
			if err != nil {
				rep.violation("write", nil, "writing fails: %s", err)
				return
			}
		}
		stream := []byte{}
		for _, f := range want {
			stream = append(stream, f.bytes()...)
		}
		rep.eval(fmt.Sprint(k))
		if !bytes.Equal(stream, c.out.Bytes()) {
			i := 0
			for i < len(stream) && i < c.out.Len() && stream[i] == c.out.Bytes()[i] {
				i++
			}
			rep.violation("bytes", nil, "the packets written differ at byte %d of %d (%d written)", i, len(stream), c.out.Len())
			return
		}
		// and back
		c.in = bytes.NewBuffer(append([]byte(nil), stream...))
		for i := range want {
			g, err := lp.read()
			if err != nil || g.Command != want[i].Cmd || g.IsNotify == want[i].Expects || g.IsResponse != (want[i].Flags == 2) || !bytes.Equal(g.Payload, want[i].Body) {
				rep.violation("read", nil, "packet %d of %d is read back differently: %v", i+1, len(want), err)
				return
			}
		}
		if _, err := lp.read(); err == nil {
			rep.violation("read", nil, "a packet is read from an empty stream")
		}
	}
	// the greatest body there may be, and one more
	for _, n := range []int{100000000, 100000001} {
		b := xFrame{Cmd: 5, Body: nil}.bytes()
		binary.LittleEndian.PutUint64(b[8:], uint64(n))
		c := &fBig{head: b, left: n}
		g, err := (&LevinProtocol{Conn: c}).read()
		rep.eval(fmt.Sprint("big ", n))
		if n == 100000000 && (err != nil || len(g.Payload) != n) {
			rep.violation("limit", nil, "a body of %d bytes is refused: %v", n, err)
		}
		if n > 100000000 && (err == nil || c.left != n) {
			rep.violation("limit", nil, "a body of %d bytes is accepted", n)
		}
	}
	_ = time.Second
}

type fBig struct {
	net.Conn
	head []byte
	left int
}

func (c *fBig) Read(b []byte) (int, error) {
	if len(c.head) > 0 {
		n := copy(b, c.head)
		c.head = c.head[n:]
		return n, nil
	}
	if c.left == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if n > c.left {
		n = c.left
	}
	c.left -= n
	return n, nil
}
