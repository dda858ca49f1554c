package session

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C15: reading from the server

func zvLoginLen(name string, ver byte) int {
	switch name {
	case CMPP:
		if cmpp.V30.MajorMatch(ver) {
			return cmpp.ConnectRspPktLenV3
		}
		return cmpp.ConnectRspPktLenV2
	case SGIP:
		return sgip.BindRspPkgLen
	}
	return smgp.LoginRespLen
}

func zvEnd() error {
	if zz.Fork(zz.Bool("eof")) {
		return io.EOF
	}
	return errors.New("reset by peer")
}

func zvLoginCmd(name string) uint32 {
	switch name {
	case CMPP:
		return uint32(cmpp.CMPP_CONNECT)
	case SGIP:
		return uint32(sgip.SGIP_BIND)
	}
	return uint32(smgp.SMGP_LOGIN)
}

// For every account and every stream the server may send, in reads of any size and ending anywhere: the login succeeds exactly
// when the login request was written and the stream starts with a whole login response with status zero; just that
// response is taken from the stream.
//
//gov:prop C15
//gov:func Session.login
//gov:split 3
func ZvLogin() {
	zvWorld()
	name := zvName()
	data := zz.Bytes("data", 0, 6000)
	c := &zvCon{s: &zz.Stream{Data: data, Fail: zvEnd()}, fail: zz.Fork(zz.Bool("broken"))}
	s := &Session{con: c, authConf: zvConf(name), serverName: name, stat: StatConnect}
	err := s.login()
	n := zvLoginLen(name, s.authConf.Version)
	zz.Ensures("no connection is closed by it", c.closed == 0)
	if c.fail {
		zz.Ensures("a login that cannot be sent fails", err != nil && s.stat == StatConnect && len(c.out) == 0)
		return
	}
	zz.Ensures("one packet is sent", len(c.out) == 1)
	p := c.out[0]
	zz.Ensures("it is a whole packet", len(p) >= 12 && int(zvBE(p)) == len(p))
	zz.Ensures("it is a login request", zvBE(p[4:]) == zvLoginCmd(name))
	good := len(data) >= n && int(zvBE(data)) == n && zvBE(data[4:]) == zvLoginCmd(name)|zvRespBit
	if good {
		var status uint32
		good, status = zvLoginStatus(name, s.authConf.Version, data[12:n])
		good = good && status == 0
	}
	if good {
		zz.Ensures("a login answered with success succeeds", err == nil)
		zz.Ensures("and logs the session in", s.stat == StatLogin)
		zz.Ensures("and leaves what follows the response in the stream", len(c.s.Data) == len(data)-n && zz.EqBytes(c.s.Data, data[n:]))
	} else {
		zz.Ensures("any other login fails", err != nil)
		zz.Ensures("and leaves the session not logged in", s.stat == StatConnect)
	}
}

// What is handed on: exactly the packets of the stream, whole and in order.
//
// The loop of the receiver is verified for one iteration from any state of the stream: for every stream the next iteration
// hands on exactly the next packet and takes exactly its bytes, or ends the session.
//
//gov:prop C15
//gov:func Session.startReceiver
//gov:split 3
func ZvReceive() {
	name := zvName()
	c, s := zvSession(name)
	zvFresh = func() {
		c.s.Data, c.s.Fail = zz.Bytes("arriving", 0, 6000), errBroken
	}
	zvFresh()
	data := c.s.Data
	handed, before, stopped := 0, 0, zz.Fork(zz.Bool("stopped"))
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).HealthCheck", func(s *Session) bool { return s.stat == StatLogin })
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).onTraffic", func(s *Session, cmd, seq uint32, buff []byte) {
		n := int(zvBE(data))
		zz.Ensures("a packet is handed on only when it has arrived whole", len(data) >= 12 && len(data) >= n)
		zz.Ensures("its length is within the limits", n >= 12 && n <= 5120)
		zz.Ensures("with its command and sequence number", cmd == zvBE(data[4:]) && seq == zvBE(data[8:]))
		zz.Ensures("with exactly the bytes of its body", zz.EqBytes(buff, data[12:n]))
		zz.Ensures("and exactly its bytes are taken from the stream", zz.EqBytes(c.s.Data, data[n:]))
		handed++
		if !zz.Symbolic() {
			data, before = c.s.Data, handed
		}
	})
	zz.Loop("startReceiver$1", 0, func() {
		zvFresh()
		data = c.s.Data
		handed = zz.HavocInt("handed")
		before = handed
	}, func() bool {
		if stopped {
			return s.stat == StatClosing && c.closed == 1 && handed == before
		}
		// every iteration hands on one packet
		return s.stat == StatLogin && c.closed == 0 && len(s.cancel) == 0 && (handed == before+1 || handed == before && len(c.s.Data) == len(data))
	})
	if stopped {
		s.Close()
	}
	s.startReceiver()
	zz.RunGo()
	zz.Ensures("the receiver ends only with the session", s.stat == StatClosing && c.closed == 1)
	zz.Ensures("and hands nothing on when it ends", handed == before)
	if !stopped {
		n := 0
		if len(data) >= 4 {
			n = int(zvBE(data))
		}
		zz.Ensures("it ends only when the next packet cannot be read", len(data) < 12 || n < 12 || n > 5120 || len(data) < n)
	}
}

var zvFresh func()

// A new session is logged in and receives, or there is none and the connection is closed.
//
//gov:prop C15
//gov:func NewSession
//gov:func Session.login
//gov:split 3
func ZvNewSession() {
	zvWorld()
	name := zvName()
	c := &zvCon{s: &zz.Stream{Fail: io.EOF}}
	ok := zz.Fork(zz.Bool("accepted"))
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).login", func(s *Session) error {
		// its contract: ZvLogin
		if ok {
			s.stat = StatLogin
			s.activeTime = time.Now()
			return nil
		}
		return errBroken
	})
	s := NewSession(name, zvConf(name), c)
	if !ok {
		zz.Ensures("a failed login gives no session", s == nil)
		zz.Ensures("and no receiver", zz.PendingGo() == 0)
		zz.Ensures("and closes the connection", c.closed == 1)
		return
	}
	zz.Ensures("a login gives a session", s != nil && s.stat == StatLogin && s.con == net.Conn(c))
	zz.Ensures("which receives", zz.PendingGo() == 1)
	zz.Ensures("can be stopped", s.cancel != nil && cap(s.cancel) > 0)
	zz.Ensures("and is healthy", s.HealthCheck())
	zz.DropGo()
}
