package server

import (
	"github.com/panjf2000/gnet/v2"

	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C07: cutting the stream

// zvKnown: the commands of each protocol.
func zvKnown(server string, cmd uint32) bool {
	k := cmd
	if k >= 0x80000000 {
		k -= 0x80000000
	}
	switch server {
	case CMPP:
		return k >= 1 && k <= 9 && k != 3
	case SGIP:
		return k >= 1 && k <= 5
	}
	return k >= 1 && k <= 6 && k != 5
}

func zvBE(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// For every content of the connection: a packet is taken exactly when it has arrived as declared; otherwise the connection
// keeps its data, and a declaration outside the protocol closes it.
//
//gov:prop C07
//gov:func DecodeAndCheckHeader
func ZvHeader() {
	zvWorld()
	data := zz.Bytes("data", 0, 20000)
	c := &zvConn{in: data}
	s := &Server{name: zvName()}
	c.ctx = &session{conn: c}
	cmd, seq, buff, action, pass := DecodeAndCheckHeader(s, c)
	if len(data) < 12 {
		zz.Ensures("waits for the header", !pass && action == gnet.None && len(c.in) == len(data))
		return
	}
	n, k := zvBE(data), zvBE(data[4:])
	if n > codec.PacketMax || n < 12 || !zvKnown(s.name, k) {
		zz.Ensures("a header outside the protocol closes the connection", !pass && action == gnet.Close)
		return
	}
	if int(n) > len(data) {
		zz.Ensures("waits for the rest of the packet", !pass && action == gnet.None && len(c.in) == len(data) && c.discards == 0)
		return
	}
	zz.Ensures("a whole packet is handed on", pass && action == gnet.None)
	zz.Ensures("with its command and sequence number", cmd == k && seq == zvBE(data[8:]))
	zz.Ensures("with its own bytes", zz.EqBytes(buff, data[12:n]))
	zz.Ensures("which are removed from the connection, and no others", zz.EqBytes(c.in, data[n:]))
	body := string(buff)
	if n > 12 {
		i := zz.Int("i", 0, 5107)
		zz.Requires(i < int(n)-12)
		data[12+i] ^= 0xff
		zz.Ensures("in memory of its own", string(buff) == body)
	}
}

var (
	zvStream []byte      // all that arrived
	zvPos    int         // how much of it was handed on
	zvAction gnet.Action // what the last handler answered
)

// zvTake is a handler that takes any packet, answering anything.
func zvTake(cmd, seq uint32, buff []byte, c gnet.Conn, s *Server) (bool, gnet.Action) {
	n := len(buff) + 12
	zz.Ensures("no more is handed on than has arrived", zvPos+n <= len(zvStream))
	zz.Ensures("packets are handed on in order, as declared", int(zvBE(zvStream[zvPos:])) == n)
	zz.Ensures("with command and sequence number", zvBE(zvStream[zvPos+4:]) == cmd && zvBE(zvStream[zvPos+8:]) == seq)
	zz.Ensures("with their bytes", zz.EqBytes(buff, zvStream[zvPos+12:zvPos+n]))
	zvPos += n
	if zz.Fork(zz.Bool("close")) {
		zvAction = gnet.Close
	}
	return false, zvAction
}

// For every stream: the packets in it are handed on one after the other until one is incomplete, outside the protocol, or
// its handler closes the connection; what was not handed on stays in the connection.
//
//gov:prop C07
//gov:func Server.OnTraffic
//gov:func ExecuteChain
//gov:func DecodeAndCheckHeader
func ZvOnTraffic() {
	zvWorld()
	take := func() []TrafficHandler { return []TrafficHandler{zvTake} }
	zz.Stub("github.com/hrygo/gosms/msc_server/server.CmppHandlers", take)
	zz.Stub("github.com/hrygo/gosms/msc_server/server.SgipHandlers", take)
	zz.Stub("github.com/hrygo/gosms/msc_server/server.SmgpHandlers", take)
	zvStream = zz.Bytes("data", 0, 1<<30)
	zvPos, zvAction = 0, gnet.None
	c := &zvConn{in: zvStream}
	s := &Server{name: zvName()}
	c.ctx = &session{conn: c}
	zz.Loop("(*github.com/hrygo/gosms/msc_server/server.Server).OnTraffic", 0, func() {
		zvPos = zz.HavocInt("pos")
		zz.Assume(0 <= zvPos && zvPos <= len(zvStream))
		c.in = zvStream[zvPos:]
	}, func() bool {
		return 0 <= zvPos && zvPos <= len(zvStream) && len(c.in) == len(zvStream)-zvPos && zz.EqBytes(c.in, zvStream[zvPos:])
	})
	action := s.OnTraffic(c)
	rest := zvStream[zvPos:]
	if zvAction != gnet.None {
		zz.Ensures("a handler that closes ends it", action == zvAction && zz.EqBytes(c.in, rest))
		return
	}
	whole := len(rest) >= 12
	bad := whole && (zvBE(rest) > codec.PacketMax || zvBE(rest) < 12 || !zvKnown(s.name, zvBE(rest[4:])))
	zz.Ensures("the connection is closed exactly for a header outside the protocol", (action == gnet.Close) == bad)
	if !bad {
		zz.Ensures("it stops only where a packet is incomplete", action == gnet.None && (!whole || int(zvBE(rest)) > len(rest)))
		zz.Ensures("the incomplete packet stays", zz.EqBytes(c.in, rest))
	}
}
