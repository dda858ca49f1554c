package server

import (
	"github.com/panjf2000/ants/v2"
	"github.com/panjf2000/gnet/v2"
	"golang.org/x/time/rate"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C14: counts and limits

// zvServer has any number of active sessions within its limit, of which the pool holds any.
func zvServer() *Server {
	s := &Server{name: zvName(), goPool: &ants.Pool{}}
	s.sessionPoolCap = zz.Int("cap", 0, 1<<30)
	s.activeSessions = zz.Int("active", 0, 1<<30)
	zz.Requires(s.activeSessions <= s.sessionPoolCap)
	zz.LazySyncMap(&s.sessionPool, func(k any) any { return &session{id: k.(uint64)} })
	zz.Protect(&s.activeSessions, &s.Mutex)
	return s
}

// zvOthers puts n other sessions into the pool of the server, of any client.
func zvOthers(s *Server, n int) []*session {
	var r []*session
	for i := 0; i < n; i++ {
		o := &session{id: zz.U64("other"), serverName: s.name, clientId: zz.Str("otherClient", 0, 20), conn: &zvConn{}}
		for _, q := range r {
			zz.Assume(q.id != o.id)
		}
		s.sessionPool.Store(o.id, o)
		r = append(r, o)
	}
	return r
}

// A new server has no sessions, and the limit configured for it.
//
//gov:prop C14
//gov:func New
func ZvNew() {
	zvWorld()
	name := zvName()
	zvMaxSessions = zz.Int("MaxSessions", 0, 1<<30)
	zvMaxSessionsKey = "Server." + name + ".MaxSessions"
	s := New(name)
	zz.Ensures("the limit is the one configured", s.sessionPoolCap == zvMaxSessions && s.SessionPoolCap() == zvMaxSessions)
	zz.Ensures("no sessions yet", s.ActiveSessions() == 0)
	_, any := s.sessionPool.Load(zz.U64("id"))
	zz.Ensures("none in the pool", !any)
	zz.Ensures("of that name", s.Name() == name)
	zz.Ensures("with a pool for logins", s.GoPool() != nil && len(zvPools) == 1 && zvPools[0] > 0)
}

func (s *Server) zvActive() int {
	s.Lock()
	defer s.Unlock()
	return s.activeSessions
}

// A connection within the limit gets a session of its own and is counted; one beyond it is refused and changes nothing.
//
//gov:prop C14
//gov:func Server.OnOpen
//gov:func Server.CreateSession
//gov:func NewSession
func ZvOpen() {
	zvWorld()
	s := zvServer()
	n := s.zvActive()
	id, other := zz.I64("newId"), zz.U64("otherKey")
	zvId = &id
	_, used := s.sessionPool.Load(uint64(id))
	zz.Requires(!used) // ids are not handed out twice: C10
	zz.Requires(other != uint64(id))
	o1, had1 := s.sessionPool.Load(other)
	c := &zvConn{}
	out, action := s.OnOpen(c)
	zz.Ensures("nothing is written", len(out) == 0 && len(c.out) == 0)
	sc := Session(c)
	mine, pooled := s.sessionPool.Load(uint64(id))
	if n >= s.sessionPoolCap {
		zz.Ensures("a connection beyond the limit is refused", action == gnet.Close)
		zz.Ensures("and gets no session", sc == nil && !pooled)
		zz.Ensures("and is not counted", s.zvActive() == n)
	} else {
		zz.Ensures("a connection within the limit is accepted", action == gnet.None && c.closed == 0)
		zz.Ensures("and counted", s.zvActive() == n+1)
		zz.Ensures("and gets a session, which is in the pool", sc != nil && pooled && mine.(*session) == sc)
		zz.Ensures("of that connection", sc.conn == c && sc.serverName == s.name && sc.id == uint64(id))
		zz.Ensures("not logged in", sc.stat == StatConnect && sc.clientId == "" && sc.window == nil && sc.pool == nil)
		zz.Ensures("without unanswered tests", sc.nAt == 0 && sc.mt == 0 && sc.dly == 0 && sc.report == 0)
	}
	o2, had2 := s.sessionPool.Load(other)
	zz.Ensures("other sessions stay as they are", had1 == had2 && o1 == o2)
	zz.Ensures("the lock is released", !zz.LockHeld(&s.Mutex))
}

// zvAnySession is a session of the server in any state, and its connection.
func zvAnySession(s *Server) (*zvConn, *session) {
	c := &zvConn{}
	sc := &session{id: zz.U64("id"), conn: c, serverName: s.name, stat: stat(zz.Enum("stat", 0, 2)), nAt: zz.U8("unanswered"),
		clientId: zz.Str("client", 0, 20), ver: zz.U8("version")}
	sc.mt, sc.dly, sc.report = uint64(zz.U32("mt")), uint64(zz.U32("dly")), uint64(zz.U32("report"))
	if zz.Fork(zz.Bool("resources")) {
		sc.window = make(chan struct{}, 3)
		for i := zz.Enum("busy", 0, 3); i > 0; i-- {
			sc.window <- struct{}{}
		}
		sc.pool = &ants.Pool{}
		sc.limiter = &rate.Limiter{}
	}
	c.ctx = sc
	s.sessionPool.Store(sc.id, sc)
	return c, sc
}

// Closing a connection takes its session, and no other, out of the pool and the count, and releases what it holds.
//
//gov:prop C14
//gov:func Server.OnClose
//gov:func deferFunc
//gov:func session.closeResource
//gov:func session.LogCounter
func ZvClose() {
	zvWorld()
	s := zvServer()
	zvAccount(s.name)
	c, sc := zvAnySession(s)
	n := s.zvActive()
	zz.Requires(n > 0)
	pool := sc.pool
	other := zz.U64("otherKey")
	zz.Requires(other != sc.id)
	o1, had1 := s.sessionPool.Load(other)
	action := s.OnClose(c, errShort)
	zz.Ensures("the server goes on", action == gnet.None)
	zz.Ensures("the session is not counted any more", s.zvActive() == n-1)
	_, pooled := s.sessionPool.Load(sc.id)
	zz.Ensures("and not in the pool", !pooled)
	zz.Ensures("and not that of the connection", Session(c) == nil)
	zz.Ensures("its resources are released", sc.window == nil && sc.pool == nil && sc.limiter == nil)
	if pool != nil {
		zz.Ensures("its pool is released", len(zvReleased) == 1 && zvReleased[0] == pool)
	} else {
		zz.Ensures("nothing else is released", len(zvReleased) == 0)
	}
	o2, had2 := s.sessionPool.Load(other)
	zz.Ensures("other sessions stay as they are", had1 == had2 && o1 == o2)
	zz.Ensures("the lock is released", !zz.LockHeld(&s.Mutex))
}

// Closing a connection that was refused changes nothing.
//
//gov:prop C14
//gov:func Server.OnClose
func ZvCloseRefused() {
	zvWorld()
	s := zvServer()
	n := s.zvActive()
	other := zz.U64("otherKey")
	o1, had1 := s.sessionPool.Load(other)
	c := &zvConn{}
	action := s.OnClose(c, nil)
	zz.Ensures("the server goes on", action == gnet.None)
	zz.Ensures("the count stays", s.zvActive() == n)
	o2, had2 := s.sessionPool.Load(other)
	zz.Ensures("the sessions stay as they are", had1 == had2 && o1 == o2)
	zz.Ensures("nothing is released", len(zvReleased) == 0)
}

// zvMonitor: whenever the lock is free, the count is that of the sessions, whatever other event loops do meanwhile: any
// number of other sessions, and this one when it is in the pool.
func zvMonitor(s *Server, c *zvConn, id uint64) {
	others := 0
	mine := func() int {
		if _, ok := s.sessionPool.Load(id); ok {
			return 1
		}
		return 0
	}
	zz.Guarded(&s.Mutex, func() {
		others = zz.Int("others", 0, 1<<30)
		s.activeSessions = zz.Int("activeNow", 0, 1<<30)
	}, func() bool {
		return s.activeSessions == others+mine() && s.activeSessions <= s.sessionPoolCap
	})
}

// Connections opened and closed at the same time: at every moment the count is the number of sessions, within the limit.
//
//gov:prop C14
//gov:func Server.OnOpen
//gov:func Server.CreateSession
//gov:func Server.OnClose
func ZvOpenAmongOthers() {
	zvWorld()
	s := zvServer()
	zvAccount(s.name)
	id := zz.I64("newId")
	zvId = &id
	_, used := s.sessionPool.Load(uint64(id))
	zz.Requires(!used)
	c := &zvConn{}
	zvMonitor(s, c, uint64(id))
	_, action := s.OnOpen(c)
	sc := Session(c)
	_, pooled := s.sessionPool.Load(uint64(id))
	zz.Ensures("the session of a connection accepted is in the pool", (action == gnet.None) == pooled && pooled == (sc != nil))
	s.OnClose(c, nil)
	_, pooled = s.sessionPool.Load(uint64(id))
	zz.Ensures("until it is closed", !pooled)
}

// A login within the connections of its account is accepted, one beyond them is refused; the others count when they are of
// the same client.
//
//gov:prop C14
//gov:func Server.reserveLogin
//gov:func Server.countSessionByClientId
//gov:split 3
//gov:bounded at most 3 other sessions
func ZvLoginLimit() { zvLogin(zvName(), zz.Enum("others", 0, 3)) }

// Logins at the same time: whenever the lock is free, the sessions of the client are at most those of the account.
//
//gov:prop C14
//gov:func Server.reserveLogin
//gov:func Server.CountSessionByClientId
//gov:bounded at most 3 other sessions
func ZvReserve() {
	zvWorld()
	s := &Server{name: zvName()}
	ac := zvAccount(s.name)
	c := &zvConn{}
	sc := &session{id: zz.U64("id"), conn: c, serverName: s.name}
	s.sessionPool.Store(sc.id, sc)
	os := zvOthers(s, zz.Enum("others", 0, 3))
	for _, o := range os {
		zz.Assume(o.id != sc.id)
	}
	count := func() int {
		n := 0
		for _, o := range os {
			if o.clientId == ac.ClientId {
				n++
			}
		}
		if sc.clientId == ac.ClientId {
			n++
		}
		return n
	}
	zz.Protect(&sc.clientId, &s.Mutex)
	zz.Guarded(&s.Mutex, func() {
		for _, o := range os {
			o.clientId = zz.Str("otherClientNow", 0, 20)
		}
	}, func() bool { return count() <= ac.MaxConns })
	ok := s.reserveLogin(sc, ac)
	zz.Ensures("a login accepted is counted", (sc.clientId == ac.ClientId) == ok)
	n := s.CountSessionByClientId(ac.ClientId)
	zz.Ensures("the sessions of the client are counted", n == count() && n <= ac.MaxConns)
}

// A login whose response cannot be written, because the connection breaks: nothing of it is left.
//
//gov:prop C14
//gov:func handleCmppConnect
//gov:func handleSgipBind
//gov:func handleSmgpLogin
//gov:func Server.OnClose
//gov:split 3
func ZvLoginLost() {
	zvWorld()
	name := zvName()
	s, c, sc := zvSession(name, StatConnect)
	s.sessionPool.Store(sc.id, sc)
	zvAccount(name)
	n := s.zvActive()
	c.fails = s
	zvServe(zvLoginCmd(name), zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	zvRun()
	wrote := len(c.out) > 0
	c.zvFlush()
	if !wrote {
		zz.Ensures("a login not answered is not completed", sc.stat == StatConnect && s.zvActive() == n)
		return
	}
	zz.Ensures("the connection is not counted any more", s.zvActive() == n-1)
	_, pooled := s.sessionPool.Load(sc.id)
	zz.Ensures("and its session is not in the pool", !pooled)
	zz.Ensures("not logged in", sc.stat != StatLogin)
	zz.Ensures("and it holds nothing", sc.window == nil && sc.pool == nil && len(zvPools) == len(zvReleased))
}

// A session that logs in again gives back what it held: closing its connection leaves nothing behind.
//
//gov:prop C14
//gov:func session.completeLogin
//gov:func session.closeResource
//gov:func Server.OnClose
//gov:split 3
func ZvRelogin() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	s.sessionPool.Store(sc.id, sc)
	old := sc.pool
	ac := zvAccount(name)
	body := zz.Bytes("body", 0, 5108)
	if !zz.Symbolic() && zz.Bool("honest") {
		body = zvHonest(name, ac)
	}
	zvServe(zvLoginCmd(name), zz.U32("seq"), body, c, s)
	zvRun()
	c.zvFlush()
	c.zvClose(s)
	zz.Ensures("the session holds nothing", sc.window == nil && sc.pool == nil && sc.limiter == nil)
	zz.Ensures("every pool it had is released", len(zvReleased) == len(zvPools)+1 && zvReleased[0] == old)
}

// A request being served when its connection closes ends: it neither blocks nor panics, and writes nothing.
//
//gov:prop C14
//gov:func session.enterWindow
//gov:func session.closeResource
//gov:func Server.OnClose
//gov:split 3
func ZvInFlight() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	s.sessionPool.Store(sc.id, sc)
	zvQuiet()
	during := zz.Fork(zz.Bool("during"))
	zz.Stub("github.com/hrygo/gosms/msc_server/server.mockRandPrecessTime", func() {
		if during {
			c.zvClose(s)
		}
	})
	window := sc.window
	cmd := zz.U32("cmd")
	zz.Requires(zvHandled(name, cmd))
	zvAllow = zz.Fork(zz.Bool("allowed"))
	zvServe(cmd, zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	if !during {
		c.zvClose(s)
	}
	zvRun()
	c.zvClose(s)
	c.zvFlush()
	if !during {
		zz.Ensures("nothing is written after the connection is closed", len(c.out) == 0)
	}
	zz.Ensures("the slot is released", len(window) == 0)
	zz.Ensures("the session holds nothing", sc.window == nil && sc.pool == nil && sc.limiter == nil && len(zvReleased) == 1)
	_, pooled := s.sessionPool.Load(sc.id)
	zz.Ensures("and is gone", !pooled && s.zvActive() == 0)
}
