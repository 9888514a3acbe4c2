package p2p

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"testing"
	"time"
)

// The program itself, in a process of its own, see Daemon.tla.

type dStep struct {
	C   int    `json:"c"`
	Op  string `json:"op"`
	M   xMsg   `json:"m"`
	Out []xOut `json:"out"`
	T   struct {
		P     string   `json:"p"`
		O     []bool   `json:"o"`
		Chain xIds     `json:"chain"`
		St    []string `json:"st"`
	} `json:"t"`
}

type dCase struct {
	Scene string  `json:"scene"`
	Steps []dStep `json:"steps"`
}

const dAddr = "127.0.0.1:32447"
const dPatience = 30 * time.Second

type dProc struct {
	cmd  *exec.Cmd
	done chan error
	log  string
}

func dStart(bin, dir string, n int) (*dProc, error) {
	p := &dProc{cmd: exec.Command(bin), done: make(chan error, 1), log: filepath.Join(dir, fmt.Sprintf("log%d", n))}
	f, err := os.Create(p.log)
	if err != nil {
		return nil, err
	}
	p.cmd.Dir = dir
	p.cmd.Env = []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH")}
	p.cmd.Stdout, p.cmd.Stderr = f, f
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	_ = f.Close()
	go func() { p.done <- p.cmd.Wait() }()
	return p, nil
}

func (p *dProc) tail() string {
	b, _ := os.ReadFile(p.log)
	if len(b) > 1500 {
		b = b[len(b)-1500:]
	}
	return string(b)
}

func dWait(d time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < d; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// TestVerifDaemon replays histories of Daemon.tla.
func TestVerifDaemon(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var params struct {
		Bin    string `json:"bin"`
		Budget int    `json:"budget"` // no history begins after that many seconds
		Quiet  int    `json:"quiet"`  // how long nothing else may come, in ms
	}
	if err := json.Unmarshal(vReadParamsFile(), &params); err != nil {
		t.Fatal(err)
	}
	begin := time.Now()
	w := xNewWorld(vRand().Intn(1000))
	w.plain = true
	vCases(t, func(line []byte) {
		var c dCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() || time.Since(begin) > time.Duration(params.Budget)*time.Second {
			return
		}
		vCur(json.RawMessage(line))
		dRun(t, rep, w, &c, params.Bin, time.Duration(params.Quiet)*time.Millisecond)
	})
}

func dRun(t *testing.T, rep *vRep, w *xWorld, c *dCase, bin string, quiet time.Duration) {
	rep.trace()
	dir := t.TempDir()
	var proc *dProc
	peers := map[int]*xPeer{}
	started := 0
	defer func() {
		if proc != nil {
			_ = proc.cmd.Process.Kill()
			<-proc.done
		}
		for _, p := range peers {
			_ = p.conn.Close()
		}
	}()
	key := c.Scene + "/"
	for i := range c.Steps {
		st := &c.Steps[i]
		key += fmt.Sprintf("%d%s%s%s;", st.C, st.Op, st.M.Sub, xDescribe(&st.M))
		bad := dDo(w, st, &proc, peers, bin, dir, &started, quiet)
		rep.eval(key)
		if bad != "" {
			brief := []string{}
			for j := 0; j <= i; j++ {
				brief = append(brief, fmt.Sprintf("%d %s %s %s", c.Steps[j].C, c.Steps[j].Op, c.Steps[j].M.Sub, xDescribe(&c.Steps[j].M)))
			}
			log := ""
			if proc != nil {
				log = proc.tail()
			}
			rep.violation("daemon", map[string]interface{}{"scene": c.Scene, "at": i, "steps": brief, "log": log},
				"the program, after %d steps, %s %s of peer %d: %s", i, st.Op, st.M.Sub+xDescribe(&st.M), st.C, bad)
			return
		}
	}
}

func dDo(w *xWorld, st *dStep, pproc **dProc, peers map[int]*xPeer, bin, dir string, started *int, quiet time.Duration) string {
	ended := func() string {
		select {
		case err := <-(*pproc).done:
			(*pproc).done <- err
			return fmt.Sprintf("the process has ended (%v): %s", err, (*pproc).tail())
		default:
			return ""
		}
	}
	switch st.Op {
	case "start":
		*started++
		p, err := dStart(bin, dir, *started)
		if err != nil {
			return "cannot be started: " + err.Error()
		}
		*pproc = p
		var s string
		if !dWait(dPatience, func() bool {
			if s = ended(); s != "" {
				return true
			}
			c, err := net.DialTimeout("tcp", dAddr, time.Second)
			if err == nil {
				_ = c.Close()
			}
			return err == nil
		}) {
			return "does not listen"
		}
		if s != "" {
			return s
		}
	case "connect", "join":
		if old := peers[st.C]; old != nil {
			_ = old.conn.Close()
		}
		c, err := net.DialTimeout("tcp", dAddr, dPatience)
		if err != nil {
			return "cannot connect: " + err.Error()
		}
		peers[st.C] = xNewPeer(c)
	case "second":
		*started++
		p, err := dStart(bin, dir, *started)
		if err != nil {
			return "cannot be started: " + err.Error()
		}
		select {
		case err := <-p.done:
			var x *exec.ExitError
			if err == nil || !errors.As(err, &x) {
				return fmt.Sprintf("a second process cannot have the port and yet ends with %v", err)
			}
		case <-time.After(dPatience):
			_ = p.cmd.Process.Kill()
			<-p.done
			return "a second process cannot have the port and yet does not end"
		}
	case "interrupt":
		switch st.M.Sub {
		case "half":
			b, _ := w.bytes(&xMsg{K: "handshake", Net: "ours", Id: 7, H: 1})
			if c, err := net.DialTimeout("tcp", dAddr, dPatience); err == nil {
				_, _ = c.Write(b[:20+w.salt%(len(b)-20)])
				peers[1000] = xNewPeer(c)
				time.Sleep(20 * time.Millisecond)
			}
		}
		if err := (*pproc).cmd.Process.Signal(os.Interrupt); err != nil {
			return "cannot be interrupted: " + err.Error()
		}
		if st.M.Sub == "twice" {
			// again and again until it has ended, so that some come while it does
			for t := time.Now(); time.Since(t) < 300*time.Millisecond && len((*pproc).done) == 0; time.Sleep(100 * time.Microsecond) {
				_ = (*pproc).cmd.Process.Signal(os.Interrupt)
			}
		}
		return ""
	case "end":
		select {
		case err := <-(*pproc).done:
			(*pproc).done <- err
			if err != nil {
				return "interrupted, the process ends with " + err.Error()
			}
		case <-time.After(dPatience):
			return fmt.Sprintf("interrupted, the process does not end in %s", dPatience)
		}
		*pproc = nil
		for k, p := range peers {
			if !dWait(dPatience, func() bool { _, closed := p.count(); return closed }) {
				return fmt.Sprintf("connection of peer %d outlives the process", k)
			}
			_ = p.conn.Close()
			delete(peers, k)
		}
		return ""
	case "send":
		p := peers[st.C]
		b, hangup := w.bytes(&st.M)
		if _, err := p.conn.Write(b); err != nil {
			return "does not read: " + err.Error()
		}
		if hangup {
			_ = p.conn.(*net.TCPConn).CloseWrite()
		}
		shut := st.T.St[st.C-1] == "closed"
		dWait(dPatience, func() bool {
			k, closed := p.count()
			return closed || k >= len(st.Out) && !shut
		})
		fs, closed, bad := p.take()
		if bad != nil {
			return bad.Error()
		}
		for i := range st.Out {
			if i >= len(fs) {
				return "the node does not send: " + st.Out[i].K
			}
			if s := w.check(fs[i], &st.Out[i]); s != "" {
				return s
			}
		}
		if len(fs) > len(st.Out) {
			return fmt.Sprintf("the node sends %d packets instead of %d, the first one too many has command %d", len(fs), len(st.Out), fs[len(st.Out)].Cmd)
		}
		if closed != shut {
			return fmt.Sprintf("connection closed: %v instead of %v", closed, shut)
		}
	}
	if s := ended(); s != "" {
		return s
	}
	// the chain, as a stranger is told it
	tip := 0
	if n := len(st.T.Chain); n > 0 {
		tip = st.T.Chain[n-1]
	}
	s := ""
	if !dWait(dPatience/6, func() bool {
		s = dProbe(w, &xOut{K: "handshake", Ids: xIds{tip}, H: len(st.T.Chain) + 1})
		return s == ""
	}) {
		return "a stranger: " + s
	}
	time.Sleep(quiet)
	for k, p := range peers {
		n, closed := p.count()
		if n > 0 {
			return fmt.Sprintf("peer %d gets a packet", k)
		}
		if k <= len(st.T.St) && closed != (st.T.St[k-1] == "closed") {
			return fmt.Sprintf("connection of peer %d closed: %v", k, closed)
		}
	}
	return ended()
}

func dProbe(w *xWorld, want *xOut) string {
	c, err := net.DialTimeout("tcp", dAddr, time.Second)
	if err != nil {
		return err.Error()
	}
	defer c.Close()
	b, _ := w.bytes(&xMsg{K: "handshake", Net: "ours", Id: 99, H: 1})
	_ = c.SetDeadline(time.Now().Add(dPatience / 3))
	if _, err := c.Write(b); err != nil {
		return err.Error()
	}
	f, err := xReadFrame(c)
	if err != nil {
		return err.Error()
	}
	return w.check(f, want)
}
