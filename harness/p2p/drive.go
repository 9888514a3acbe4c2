package p2p

import (
	"context"
	"fmt"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
)

// The connections run over pipes, with a virtual clock.
const xVirtual = true

// xBubble runs one history.
func xBubble(t *testing.T, f func(t *testing.T)) {
	synctest.Test(t, f)
}

// xSettle waits until the node has nothing more to do. budget is what this
// takes at most.
func xSettle(enough func() bool) {
	time.Sleep(3 * time.Second)
	synctest.Wait()
}

// xConnect connects a peer to the node; stop ends the node and tells whether
// the connection was released.
func xConnect(n *Node, incoming bool) (conn net.Conn, released chan struct{}, stop func(), err error) {
	ctx, cancel := context.WithCancel(context.Background())
	n.context = ctx
	a, b := net.Pipe()
	p := NewPeer(zap.NewNop().Sugar(), &LevinProtocol{a}, NetworkAddress{IP: 16777343, Port: 5}, incoming)
	released = make(chan struct{})
	go func() {
		defer close(released)
		defer func() {
			if r := recover(); r != nil {
				xPanicked(fmt.Sprint(r))
			}
		}()
		n.connectionHandler(p)
	}()
	return b, released, cancel, nil
}
