package p2p

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

// The program in a process that may have no more descriptors, see Starve.tla.

type sStep struct {
	C      int    `json:"c"`
	Op     string `json:"op"`
	Served []int  `json:"served"`
	Said   []int  `json:"said"`
	Wait   []int  `json:"wait"`
}

type sCase struct {
	Limit int     `json:"limit"`
	Steps []sStep `json:"steps"`
}

// sTail keeps the end of what is written.
type sTail struct {
	mu sync.Mutex
	b  []byte
}

func (t *sTail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 4000 {
		t.b = append([]byte(nil), t.b[len(t.b)-1500:]...)
	}
	return len(p), nil
}

func (t *sTail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type sPeer struct {
	*xPeer
	said bool // and the answer is still owed
}

type sNode struct {
	rep   *vRep
	w     *xWorld
	cmd   *exec.Cmd
	log   *sTail
	done  chan error
	peers map[int]*sPeer
	hard  uint64
}

func (s *sNode) limit(n uint64) error {
	lim := [2]uint64{n, s.hard}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&lim)), 0, 0, 0); e != 0 {
		return e
	}
	return nil
}

// open tells the descriptors of the process.
func (s *sNode) open() ([]int, error) {
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid))
	r := []int{}
	for _, e := range es {
		n, _ := strconv.Atoi(e.Name())
		r = append(r, n)
	}
	sort.Ints(r)
	return r, err
}

func TestVerifStarve(t *testing.T) {
	rep := vNewRep()
	defer rep.save(t)
	var params struct {
		Bin    string `json:"bin"`
		Budget int    `json:"budget"`
	}
	if err := json.Unmarshal(vReadParamsFile(), &params); err != nil {
		t.Fatal(err)
	}
	begin := time.Now()
	w := xNewWorld(vRand().Intn(1000))
	w.plain = true
	vCases(t, func(line []byte) {
		var c sCase
		if err := json.Unmarshal(line, &c); err != nil {
			t.Fatal(err)
		}
		if rep.full() || time.Since(begin) > time.Duration(params.Budget)*time.Second {
			return
		}
		vCur(json.RawMessage(line))
		sRun(t, rep, w, &c, params.Bin)
	})
}

func sRun(t *testing.T, rep *vRep, w *xWorld, c *sCase, bin string) {
	rep.trace()
	dir := t.TempDir()
	s := &sNode{rep: rep, w: w, cmd: exec.Command(bin), log: &sTail{}, done: make(chan error, 1), peers: map[int]*sPeer{}}
	s.cmd.Dir, s.cmd.Stdout, s.cmd.Stderr = dir, s.log, s.log
	s.cmd.Env = []string{"HOME=" + dir, "PATH=" + os.Getenv("PATH")}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		rep.fail("start: %s", err)
		return
	}
	go func() { s.done <- s.cmd.Wait() }()
	defer func() {
		_ = s.cmd.Process.Kill()
		<-s.done
		for _, p := range s.peers {
			_ = p.conn.Close()
		}
	}()
	brief := []string{}
	fail := func(f string, args ...interface{}) {
		rep.violation("starve", map[string]interface{}{"limit": c.Limit, "steps": brief, "log": s.log.String()}, "the program with descriptors for %d connections, after %v: %s", c.Limit, brief, fmt.Sprintf(f, args...))
	}
	if !dWait(dPatience, func() bool {
		x, err := net.DialTimeout("tcp", dAddr, time.Second)
		if err == nil {
			_ = x.Close()
		}
		return err == nil || s.ended() != ""
	}) || s.ended() != "" {
		fail("it does not listen %s", s.ended())
		return
	}
	// until what was opened for that connection is closed again
	fds, err := s.open()
	if err != nil {
		rep.fail("descriptors: %s", err)
		return
	}
	for same := 0; same < 25; same++ {
		time.Sleep(100 * time.Millisecond)
		if now, _ := s.open(); fmt.Sprint(now) != fmt.Sprint(fds) {
			fds, same = now, 0
		}
	}
	var lim [2]uint64
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), syscall.RLIMIT_NOFILE, 0, uintptr(unsafe.Pointer(&lim)), 0, 0); e != 0 {
		rep.fail("limits: %s", e)
		return
	}
	s.hard = lim[1]
	n, free := 0, 0
	for have := map[int]bool{}; free < c.Limit; n++ {
		for _, f := range fds {
			have[f] = true
		}
		if !have[n] {
			free++
		}
	}
	if err := s.limit(uint64(n)); err != nil {
		rep.fail("limit: %s", err)
		return
	}
	key := fmt.Sprint(c.Limit)
	for i := range c.Steps {
		st := &c.Steps[i]
		brief = append(brief, fmt.Sprintf("%s(%d)", st.Op, st.C))
		key += fmt.Sprintf(" %s%d", st.Op, st.C)
		rep.eval(key)
		if bad := s.do(st); bad != "" {
			fail("%s", bad)
			return
		}
	}
}

func (s *sNode) ended() string {
	select {
	case err := <-s.done:
		s.done <- err
		return fmt.Sprintf("the process has ended (%v)", err)
	default:
		return ""
	}
}

// answers waits for the answers to what the peers have sent.
func (s *sNode) answers(cs []int, cmd uint32) string {
	for _, c := range cs {
		p := s.peers[c]
		dWait(dPatience, func() bool { k, closed := p.count(); return k > 0 || closed })
		fs, closed, bad := p.take()
		if bad != nil {
			return bad.Error()
		}
		if closed {
			return fmt.Sprintf("peer %d is disconnected %s", c, s.ended())
		}
		if len(fs) != 1 || fs[0].Cmd != cmd {
			return fmt.Sprintf("peer %d gets %d packets instead of the answer to command %d %s", c, len(fs), cmd, s.ended())
		}
	}
	return ""
}

func (s *sNode) do(st *sStep) string {
	p := s.peers[st.C]
	switch st.Op {
	case "connect":
		c, err := net.DialTimeout("tcp", dAddr, dPatience)
		if err != nil {
			return "cannot connect: " + err.Error()
		}
		s.peers[st.C] = &sPeer{xPeer: xNewPeer(c)}
	case "hello":
		b, _ := s.w.bytes(&xMsg{K: "handshake", Net: "ours", Id: uint64(70 + st.C), H: 1})
		if _, err := p.conn.Write(b); err != nil {
			return "does not read: " + err.Error()
		}
		p.said = true
	case "leave":
		_ = p.conn.Close()
		delete(s.peers, st.C)
	case "reset":
		_ = p.conn.(*net.TCPConn).SetLinger(0)
		_ = p.conn.Close()
		delete(s.peers, st.C)
	case "bad":
		b, _ := s.w.bytes(&xMsg{K: "junk", Sub: "signature"})
		if _, err := p.conn.Write(b); err != nil {
			return "does not read: " + err.Error()
		}
		if !dWait(dPatience, func() bool { _, closed := p.count(); return closed }) {
			return fmt.Sprintf("peer %d misbehaves and is not disconnected", st.C)
		}
		_ = p.conn.Close()
		delete(s.peers, st.C)
	case "lift":
		if err := s.limit(s.hard); err != nil {
			s.rep.fail("limit: %s", err)
		}
	case "stop":
		if err := s.cmd.Process.Signal(os.Interrupt); err != nil {
			return "cannot be interrupted: " + err.Error()
		}
		select {
		case err := <-s.done:
			s.done <- err
			if err != nil {
				return "interrupted, the process ends with " + err.Error()
			}
		case <-time.After(dPatience):
			return fmt.Sprintf("interrupted, the process does not end in %s", dPatience)
		}
		for k, p := range s.peers {
			if !dWait(dPatience, func() bool { _, closed := p.count(); return closed }) {
				return fmt.Sprintf("connection of peer %d outlives the process", k)
			}
		}
		return ""
	}
	// those that are served and have just said hello get an answer,
	first, again := []int{}, []int{}
	for _, c := range st.Said {
		if s.peers[c].said {
			s.peers[c].said = false
			first = append(first, c)
		} else {
			again = append(again, c)
		}
	}
	b, _ := s.w.bytes(&xMsg{K: "timedsync", H: 1})
	for _, c := range again {
		if _, err := s.peers[c].conn.Write(b); err != nil {
			return fmt.Sprintf("peer %d, which is served, is not read: %s", c, err)
		}
	}
	if bad := s.answers(first, CommandHandshake); bad != "" {
		return bad
	}
	// the others are served as before,
	if bad := s.answers(again, CommandTimedSync); bad != "" {
		return bad
	}
	// and nobody is turned away.
	for c, p := range s.peers {
		if n, closed := p.count(); closed {
			return fmt.Sprintf("peer %d is disconnected %s", c, s.ended())
		} else if n == 0 && p.said {
			s.rep.count("starved", 1)
		}
	}
	return s.ended()
}
