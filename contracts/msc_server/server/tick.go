package server

import (
	"time"

	"github.com/panjf2000/ants/v2"
	"github.com/panjf2000/gnet/v2"

	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/smgp"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C20: ticks

// zvIdler is a session of any state, last used at any moment before now, with any number of unanswered tests.
func zvIdler(s *Server) (*zvConn, *session) {
	c, sc := zvAnySession(s)
	sc.createTime = time.Now()
	sc.lastUseTime = time.Now()
	return c, sc
}

// zvPlainIdler has its resources when it is logged in.
func zvPlainIdler(s *Server) (*zvConn, *session) {
	_, c, sc := zvSession(s.name, StatConnect)
	sc.stat = stat(zz.U8("stat"))
	zz.Requires(sc.stat <= StatClosing)
	sc.window, sc.pool = make(chan struct{}, 1), &ants.Pool{}
	s.sessionPool.Store(sc.id, sc)
	return c, sc
}

func zvTickServer() *Server {
	zvWorld()
	s := &Server{name: zvName(), goPool: &ants.Pool{}, sessionPoolCap: 100, activeSessions: 2}
	zvAccount(s.name)
	zvConfTime = time.Duration(zz.Int("forceCloseSeconds", 0, 1000000)) * time.Second
	zvConfTick = time.Duration(zz.Int("tickSeconds", 1, 1000000)) * time.Second
	return s
}

// zvTicked: what a tick between the moments t0 and t1 did with one session.
func zvTicked(s *Server, c *zvConn, sc *session, was session, t0, t1 time.Time) {
	idle, used := was.lastUseTime.Add(zvConfTime).Before(t0), !was.lastUseTime.Add(zvConfTime).Before(t1)
	quiet, recent := was.lastUseTime.Add(time.Minute).Before(t0), !was.lastUseTime.Add(time.Minute).Before(t1)
	zz.Ensures("at most one packet is sent", len(c.out) <= 1)
	term, test := false, false
	if len(c.out) == 1 {
		p := c.out[0]
		zz.Ensures("it is a whole packet", len(p) >= 12 && int(zvBE(p)) == len(p))
		term = zvBE(p[4:]) == zvTermCmd(s.name)
		test = s.name == CMPP && zvBE(p[4:]) == uint32(cmpp.CMPP_ACTIVE_TEST) || s.name == SMGP && zvBE(p[4:]) == uint32(smgp.SMGP_ACTIVE_TEST)
		zz.Ensures("it is a termination or an active test", term || test)
	}
	if idle {
		zz.Ensures("an idle session is sent a termination", term)
	}
	if was.nAt > 2 {
		zz.Ensures("a session with more than two unanswered tests is sent a termination", term)
	}
	if used && was.nAt <= 2 {
		zz.Ensures("no other session is", !term)
		if was.stat == StatLogin && quiet && s.name != SGIP {
			zz.Ensures("a logged-in session idle for a minute is sent an active test", test)
		}
	}
	if was.stat != StatLogin {
		zz.Ensures("a session not logged in is sent no active test", !test)
	}
	if recent {
		zz.Ensures("a session used within the minute is sent no active test", !test)
	}
	zz.Ensures("no connection is closed before the termination is out", c.closed == 0)
	c.zvFlush()
	zz.Ensures("the connection is closed after a termination, and otherwise not", (c.closed > 0) == term)
	zz.Ensures("nothing else is sent", len(c.out) <= 1)
	if test {
		zz.Ensures("an active test counts as unanswered", sc.nAt == was.nAt+1)
	} else {
		zz.Ensures("without one the count stays", sc.nAt == was.nAt)
	}
	sc.nAt = was.nAt
	zvUnchanged(sc, was)
}

// A tick, for every state of a session, clock and configuration.
//
//gov:prop C20
//gov:func Server.OnTick
//gov:func closeCheck
//gov:func activeTestNoneResponseCheck
//gov:func activeTest
//gov:func sendTerminate
//gov:split 3
func ZvTick() {
	s := zvTickServer()
	c, sc := zvIdler(s)
	was := *sc
	t0 := time.Now()
	delay, action := s.OnTick()
	zz.Ensures("the next tick is after the configured time", delay == zvConfTick && action == gnet.None)
	zz.Ensures("nothing is sent by the tick itself", len(c.out) == 0)
	zvRun()
	zvTicked(s, c, sc, was, t0, time.Now())
}

// Every session gets its tick.
//
//gov:prop C20
//gov:func Server.OnTick
//gov:split 3
//gov:bounded two sessions
func ZvTickBoth() {
	s := zvTickServer()
	c1, sc1 := zvPlainIdler(s)
	c2, sc2 := zvPlainIdler(s)
	zz.Requires(sc1.id != sc2.id)
	w1, w2 := *sc1, *sc2
	t0 := time.Now()
	s.OnTick()
	zvRun()
	t1 := time.Now()
	zvTicked(s, c1, sc1, w1, t0, t1)
	zvTicked(s, c2, sc2, w2, t0, t1)
}

// The packets of a tick on a connection that breaks or is closed meanwhile: nothing panics, and the session is gone.
//
//gov:prop C20
//gov:func activeTest
//gov:func sendTerminate
//gov:split 3
func ZvTickBroken() {
	s := zvTickServer()
	c, sc := zvIdler(s)
	if zz.Fork(zz.Bool("breaks")) {
		c.fails = s
	}
	s.OnTick()
	if c.fails == nil {
		c.zvClose(s)
	}
	zvRun()
	wrote := len(c.out) > 0
	c.zvFlush()
	zz.Ensures("nothing is sent", len(c.out) == 0)
	_, pooled := s.sessionPool.Load(sc.id)
	if c.fails == nil || wrote {
		zz.Ensures("the session is gone", !pooled && s.zvActive() == 1)
	} else {
		zz.Ensures("the session stays", pooled && s.zvActive() == 2)
	}
}

// A response to an active test resets the count of unanswered ones and marks the session as used.
//
//gov:prop C20
//gov:func handleCmppActiveResp
//gov:func handleSmgpActiveResp
func ZvTestAnswered() {
	name := CMPP
	if zz.Fork(zz.Bool("smgp")) {
		name = SMGP
	}
	s, c, sc := zvLoggedIn(name)
	was := *sc
	t0 := time.Now()
	action := zvServe(zvTestCmd(name)+zvRespBit, zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	zvRun()
	c.zvFlush()
	if action == gnet.None {
		zz.Ensures("the count is reset", sc.nAt == 0)
		zz.Ensures("the session has been used", !sc.lastUseTime.Before(t0))
	} else {
		zz.Ensures("a malformed response changes nothing", sc.nAt == was.nAt && sc.lastUseTime == was.lastUseTime)
	}
}

// What a peer does marks its session as used, so that the next ticks do not drop it: an accepted submit, an active test, the
// response to a delivery.
//
//gov:prop C20
//gov:func session.CounterAddMt
//gov:func sendSubmitResponse
//gov:func handleCmppActive
//gov:func handleSmgpActive
//gov:func handleCmppDeliveryResp
//gov:func handleSmgpDeliveryResp
//gov:split 5
func ZvUsed() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	zvQuiet()
	zvAllow = true
	cmd := zvSubmitCmd(name)
	if name != SGIP {
		if zz.Fork(zz.Bool("test")) {
			cmd = zvTestCmd(name)
		} else if zz.Fork(zz.Bool("delivered")) {
			cmd = zvDeliverCmd(name) + zvRespBit
		}
	}
	t0 := time.Now()
	body := zz.Bytes("body", 0, 5108)
	if zvServe(cmd, zz.U32("seq"), body, c, s) != gnet.None {
		return
	}
	zvRun()
	if cmd == zvSubmitCmd(name) && (len(c.out) == 0 || zvSubmitStatus(name, sc.ver, c.out[0]) != 0) {
		return
	}
	c.zvFlush()
	zz.Ensures("the session has been used", !sc.lastUseTime.Before(t0))
}
