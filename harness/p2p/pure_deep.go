package p2p

import (
	"bytes"
	"net"
	"time"
)

// What uses names that are not exported; where they are gone, pure_flat.go takes the place of this file.

// oConn is a connection that answers what was written to it.
type oConn struct{ bytes.Buffer }

func (*oConn) Close() error                     { return nil }
func (*oConn) LocalAddr() net.Addr              { return nil }
func (*oConn) RemoteAddr() net.Addr             { return nil }
func (*oConn) SetDeadline(time.Time) error      { return nil }
func (*oConn) SetReadDeadline(time.Time) error  { return nil }
func (*oConn) SetWriteDeadline(time.Time) error { return nil }

func oPackets(a int, b []byte) string {
	c := &oConn{}
	p := &LevinProtocol{c}
	n, err := p.write(uint32(a), b, a == 2, uint32(a), int32(-a))
	out := append([]byte(nil), c.Bytes()...)
	x, e := p.read()
	return oJson(n, err, out, x, e, b)
}

func oPeerLists(a int) string {
	ps := NewPeerStore()
	for i := 0; i < a+1; i++ {
		p := &Peer{ID: uint64(i + a)}
		_ = ps.toWhite(p)
		if i%2 == 1 {
			_ = ps.toGrey(p)
		}
	}
	return oJson(len(ps.toPeerEntries()))
}
