package server

import (
	"time"

	"github.com/panjf2000/ants/v2"
	"github.com/panjf2000/gnet/v2"
	"golang.org/x/time/rate"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// zvServe hands one packet to the handlers of the server.
func zvServe(cmd, seq uint32, buff []byte, c gnet.Conn, s *Server) gnet.Action {
	switch s.name {
	case CMPP:
		return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
	case SGIP:
		return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
	}
	return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
}

// zvSession is a connection in any state of its session; a session logged in has a window and a pool.
func zvSession(name string, st stat) (*Server, *zvConn, *session) {
	c := &zvConn{}
	s := &Server{name: name, goPool: &ants.Pool{}, sessionPoolCap: 100, activeSessions: 1}
	sc := &session{id: zz.U64("id"), conn: c, serverName: name, stat: st, nAt: zz.U8("unanswered"), clientId: zz.Str("client", 0, 20),
		ver: zz.U8("version")}
	sc.createTime = time.Now()
	sc.lastUseTime = time.Now()
	sc.mt, sc.dly, sc.report = uint64(zz.U32("mt")), uint64(zz.U32("dly")), uint64(zz.U32("report"))
	if st == StatLogin {
		sc.window = make(chan struct{}, 1)
		sc.pool = &ants.Pool{}
		sc.limiter = &rate.Limiter{}
	}
	c.ctx = sc
	return s, c, sc
}

func zvUnchanged(sc *session, was session) {
	zz.Ensures("the session keeps its state", sc.stat == was.stat && sc.nAt == was.nAt && sc.ver == was.ver && sc.id == was.id)
	zz.Ensures("the session keeps its client", sc.clientId == was.clientId && sc.serverName == was.serverName)
	zz.Ensures("the session keeps its resources", sc.window == was.window && sc.pool == was.pool && sc.limiter == was.limiter)
	zz.Ensures("the session keeps its counts", sc.mt == was.mt && sc.dly == was.dly && sc.report == was.report)
	zz.Ensures("the session keeps its times", sc.lastUseTime == was.lastUseTime && sc.createTime == was.createTime)
}

// zvLogins: the login request of each protocol.
func zvLoginCmd(name string) uint32 {
	return 1
}

// zvHandled: what the server acts upon.
func zvHandled(name string, cmd uint32) bool {
	switch name {
	case CMPP:
		switch cmpp.CommandId(cmd) {
		case cmpp.CMPP_SUBMIT, cmpp.CMPP_ACTIVE_TEST, cmpp.CMPP_ACTIVE_TEST_RESP, cmpp.CMPP_DELIVER_RESP, cmpp.CMPP_TERMINATE, cmpp.CMPP_TERMINATE_RESP:
			return true
		}
	case SGIP:
		switch sgip.CommandId(cmd) {
		case sgip.SGIP_SUBMIT, sgip.SGIP_UNBIND, sgip.SGIP_UNBIND_RESP:
			return true
		}
	case SMGP:
		switch smgp.CommandId(cmd) {
		case smgp.SMGP_SUBMIT, smgp.SMGP_ACTIVE_TEST, smgp.SMGP_ACTIVE_TEST_RESP, smgp.SMGP_DELIVER_RESP, smgp.SMGP_EXIT, smgp.SMGP_EXIT_RESP:
			return true
		}
	}
	return false
}

// ================================================================ C08: the gate

// For every packet other than a login request on a session not logged in: no response, no task, no change; a packet the
// server would act upon closes the connection.
//
//gov:prop C08
//gov:func CmppHandlers
//gov:func SgipHandlers
//gov:func SmgpHandlers
//gov:func ExecuteChain
//gov:func sessionCheck
func ZvGate() {
	zvWorld()
	name := zvName()
	st := StatConnect
	if zz.Fork(zz.Bool("closing")) {
		st = StatClosing
	}
	s, c, sc := zvSession(name, st)
	was := *sc
	cmd := zz.U32("cmd")
	zz.Requires(cmd != zvLoginCmd(name))
	action := zvServe(cmd, zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	zz.Ensures("nothing is submitted", len(zvTasks) == 0)
	zvRun()
	zz.Ensures("nothing is answered", len(c.out) == 0)
	if zvHandled(name, cmd) {
		zz.Ensures("a packet the server would act upon closes the connection", action == gnet.Close)
	}
	zz.Ensures("nothing else is asked of the network", action == gnet.Close || action == gnet.None)
	zvUnchanged(sc, was)
}

// zvAccount is an account and the store that holds it alone.
func zvAccount(name string) *codec.AuthConf {
	a := &auth.Client{
		ISP: name, ClientId: zz.Str("clientId", 1, 20), LoginName: zz.Str("login", 0, 20), SharedSecret: zz.Str("secret", 0, 20),
		Version: zz.U8("accountVersion"), MaxConns: zz.Int("conns", 0, 1000),
		MtWindowSize: zz.Int("windowSize", 1, 1<<20), Throughput: zz.Int("throughput", 0, 1000000),
	}
	auth.Cache = &zvAccounts{name, a.ClientId, a}
	return &codec.AuthConf{ISP: a.ISP, ClientId: a.ClientId, LoginName: a.LoginName, SharedSecret: a.SharedSecret,
		Version: a.Version, MaxConns: a.MaxConns, MtWindowSize: a.MtWindowSize, Throughput: a.Throughput}
}

// zvHonest is the login request of the client for an account.
func zvHonest(name string, ac *codec.AuthConf) []byte {
	switch name {
	case CMPP:
		return cmpp.NewConnect(ac, 1).Encode()[12:]
	case SGIP:
		return sgip.NewBind(ac, 1).Encode()[12:]
	}
	return smgp.NewLogin(ac, 1).Encode()[12:]
}

// zvVerdict decodes a login request and says who asks, and what the check of the protocol says with the account ac.
func zvVerdict(name string, seq uint32, body []byte, ac *codec.AuthConf) (err error, code uint32, resp func(code uint32) []byte) {
	var pdu codec.RequestPdu
	var who string
	var check func(*codec.AuthConf) uint32
	switch name {
	case CMPP:
		p := &cmpp.Connect{}
		err = p.Decode(seq, body)
		pdu, who = p, p.SourceAddr()
		check = func(a *codec.AuthConf) uint32 { return uint32(p.Check(a)) }
	case SGIP:
		p := &sgip.Bind{}
		err = p.Decode(seq, body)
		pdu, who = p, p.LoginName
		check = func(a *codec.AuthConf) uint32 { return uint32(p.Check(a)) }
	default:
		p := &smgp.Login{}
		err = p.Decode(seq, body)
		pdu, who = p, p.ClientID()
		check = func(a *codec.AuthConf) uint32 { return uint32(p.Check(a)) }
	}
	if err != nil {
		return
	}
	if who == ac.ClientId {
		code = check(ac)
	} else {
		code = check(nil)
	}
	return nil, code, func(code uint32) []byte { return pdu.ToResponse(code).Encode() }
}

func zvTooMany(name string) uint32 {
	switch name {
	case CMPP:
		return uint32(cmpp.ConnStatusOthers)
	case SGIP:
		return 3
	}
	return 2
}

// For every login request and account: one response with the verdict of the check; only an accepted login makes the
// session a logged in one, with the client, version and limits of the account; a refused one is closed.
//
//gov:prop C08
//gov:func handleCmppConnect
//gov:func handleSgipBind
//gov:func handleSmgpLogin
//gov:func session.completeLogin
//gov:func session.setupLimiter
//gov:func Server.reserveLogin
//gov:func createSessionSidePool
//gov:split 3
func ZvLogin() { zvLogin(zvName(), 0) }

// zvLogin: with other sessions of the server, which may be of the same client.
func zvLogin(name string, others int) {
	zvWorld()
	s, c, sc := zvSession(name, StatConnect)
	sc.clientId = ""
	s.sessionPool.Store(sc.id, sc)
	ac := zvAccount(name)
	mine := 0
	for _, o := range zvOthers(s, others) {
		zz.Assume(o.id != sc.id)
		if o.clientId == ac.ClientId {
			mine++
		}
	}
	seq, body := zz.U32("seq"), zz.Bytes("body", 0, 5108)
	if !zz.Symbolic() && zz.Bool("honest") {
		body = zvHonest(name, ac) // random bytes are never an accepted login: any body is one of all bodies
	}
	err, code, resp := zvVerdict(name, seq, body, ac)
	if code == 0 && mine >= ac.MaxConns {
		code = zvTooMany(name)
	}
	was := *sc
	action := zvServe(zvLoginCmd(name), seq, body, c, s)
	zz.Ensures("nothing is answered before the check", len(c.out) == 0)
	if err != nil {
		zz.Ensures("a malformed login closes the connection", action == gnet.Close && len(zvTasks) == 0)
		zvUnchanged(sc, was)
		return
	}
	zz.Ensures("a login is looked at", action == gnet.None && len(zvTasks) == 1 && zvTasks[0].p == s.goPool)
	zvRun()
	zz.Ensures("one response", len(c.out) == 1)
	zz.Ensures("not logged in before the response is out", sc.stat == StatConnect)
	zz.Ensures("the response is the verdict", zz.EqBytes(c.out[0], resp(code)))
	zvHead(name, c.out[0], zvLoginCmd(name)+zvRespBit, seq, body)
	c.zvFlush()
	if code != 0 {
		zz.Ensures("a refused login is closed", c.closed > 0 && sc.stat == StatClosing)
		zz.Ensures("and gets no resources", sc.window == nil && sc.pool == nil)
		return
	}
	zz.Ensures("an accepted login is logged in", sc.stat == StatLogin && c.closed == 0)
	zz.Ensures("as the client of the account", sc.clientId == ac.ClientId)
	zz.Ensures("with the version of the account", sc.ver == ac.Version)
	zz.Ensures("with the window of the account", cap(sc.window) == ac.MtWindowSize && len(sc.window) == 0)
	zz.Ensures("with a pool that fits the window", sc.pool != nil && len(zvPools) == 1 && zvPools[0] >= ac.MtWindowSize)
	zz.Ensures("with the rate of the account", sc.limiter != nil && zvBurst == ac.MtWindowSize)
	if ac.Throughput != 0 {
		zz.Ensures("with the interval of the account", zvEvery == time.Duration(1000000/ac.Throughput)*time.Microsecond)
	} else {
		zz.Ensures("with the default interval", zvEvery == 10*time.Millisecond)
	}
	v, ok := s.sessionPool.Load(sc.id)
	zz.Ensures("and is in the pool", ok && v.(*session) == sc)
}

// A login whose response cannot be sent, or which cannot be looked at, is no login.
//
//gov:prop C08
//gov:func handleCmppConnect
//gov:func handleSgipBind
//gov:func handleSmgpLogin
//gov:split 3
func ZvLoginUnsent() {
	zvWorld()
	name := zvName()
	s, c, sc := zvSession(name, StatConnect)
	zvAccount(name)
	was := *sc
	if zz.Fork(zz.Bool("busy")) {
		zvFull = true
	} else {
		c.refuse = true
	}
	action := zvServe(zvLoginCmd(name), zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	if zvFull {
		zz.Ensures("a login that cannot be looked at closes the connection", action == gnet.Close && len(zvTasks) == 0)
	}
	zvRun()
	c.zvFlush()
	zz.Ensures("nothing is written", len(c.out) == 0)
	zz.Ensures("not logged in", sc.stat != StatLogin && sc.window == nil && sc.pool == nil)
	zz.Ensures("counts nothing", sc.mt == was.mt && sc.dly == was.dly && sc.report == was.report)
}
