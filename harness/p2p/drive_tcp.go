package p2p

import (
	"context"
	"errors"
	"net"
	"testing"
	"time"
)

// The connections run over TCP, in real time: used when the tree does not
// offer what drive.go needs.
const xVirtual = false

func xBubble(t *testing.T, f func(t *testing.T)) {
	f(t)
}

func xSettle(enough func() bool) {
	for i := 0; i < 60 && !enough(); i++ {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(1500 * time.Millisecond)
}

func xConnect(n *Node, incoming bool) (conn net.Conn, released chan struct{}, stop func(), err error) {
	if !incoming {
		return nil, nil, nil, errors.New("outgoing connections need drive.go")
	}
	ctx, cancel := context.WithCancel(context.Background())
	released = make(chan struct{})
	go func() {
		defer close(released)
		_ = n.Run(ctx)
	}()
	for i := 0; i < 100; i++ {
		if conn, err = net.Dial("tcp", n.Config.BindAddr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	return conn, released, cancel, err
}
