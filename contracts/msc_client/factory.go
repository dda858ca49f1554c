package sms

import (
	"errors"
	"net"
	"regexp"
	"time"

	"golang.org/x/time/rate"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/smc_client/session"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C19: choosing a session

// A phone goes to the first provider, in the order cmpp, sgip, smgp, whose segment matches it and that is configured; a phone
// none matches has no session. Providers not used yet are set up when they are needed.
//
//gov:prop C19
//gov:func SelectSession
//gov:split 3
func ZvSelect() {
	zvWorld()
	var fs [3]*SessionFactory
	var made [3]int
	var match [3]bool
	var conf [3]bool
	var asked [3]int
	sessions := [3]*session.Session{{}, {}, {}}
	for i := range fs {
		fs[i] = &SessionFactory{srvName: ISPS[i], regex: &regexp.Regexp{}}
		match[i] = zz.Fork(zz.Bool("match"))
		factories[i] = nil
		conf[i] = true
		switch zz.Enum("configured", 0, 2) {
		case 0:
			factories[i] = fs[i]
		case 1:
			conf[i] = false
		}
	}
	phone := zz.Str("phone", 0, 21)
	zz.Stub("github.com/hrygo/gosms/smc_client.CreateSessionFactory", func(isp string) *SessionFactory {
		zz.Ensures("one provider is set up at a time", zz.LockHeld(&mu))
		for i := range ISPS {
			if ISPS[i] == isp {
				zz.Ensures("a provider is set up only when it is not", factories[i] == nil)
				made[i]++
				if !conf[i] {
					return nil
				}
				factories[i] = fs[i]
				return fs[i]
			}
		}
		zz.Ensures("only known providers are set up", false)
		return nil
	})
	zz.Stub("(*regexp.Regexp).MatchString", func(r *regexp.Regexp, s string) bool {
		zz.Ensures("the phone is matched", s == phone)
		for i := range fs {
			if fs[i].regex == r {
				asked[i]++
				return match[i]
			}
		}
		return false
	})
	zz.Stub("(*github.com/hrygo/gosms/smc_client.SessionFactory).PeekSession", func(f *SessionFactory) *session.Session {
		zz.Ensures("others can choose while one waits for a session", !zz.LockHeld(&mu))
		for i := range fs {
			if fs[i] == f {
				return sessions[i]
			}
		}
		return nil
	})
	got := SelectSession(phone)
	zz.Ensures("the lock is released", !zz.LockHeld(&mu))
	var want *session.Session
	for i := range fs {
		if conf[i] && match[i] {
			want = sessions[i]
			break
		}
	}
	zz.Ensures("the session is one of the first provider that serves the phone", got == want)
	for i := range made {
		zz.Ensures("no provider is set up twice", made[i] <= 1)
	}
}

// A session is given out when the rate allows one, and only one that has just been found healthy.
//
//gov:prop C19
//gov:func SessionFactory.PeekSession
//gov:bounded a healthy session is there after three attempts at the latest
//gov:split 3
func ZvPeek() {
	zvWorld()
	a, b := &session.Session{}, &session.Session{}
	f := &SessionFactory{limiter: &rate.Limiter{}}
	allow := zz.Fork(zz.Bool("allow"))
	zz.Stub("(*golang.org/x/time/rate.Limiter).Allow", func(l *rate.Limiter) bool {
		zz.Ensures("the rate is that of the provider", l == f.limiter)
		return allow
	})
	list := func() {
		switch zz.Enum("list", 0, 2) {
		case 0:
			f.sessions = nil
		case 1:
			f.sessions = []*session.Session{a}
		default:
			f.sessions = []*session.Session{b, a}
		}
	}
	tries := 0
	var healthy *session.Session
	zz.Stub("time.Sleep", func(d time.Duration) {
		zz.Ensures("it does not wait long between attempts", d <= 100*time.Millisecond)
		tries++
		list()
		if tries >= 3 {
			f.sessions = []*session.Session{a}
		}
	})
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).HealthCheck", func(s *session.Session) bool {
		healthy = nil
		if s == nil {
			return false
		}
		if tries >= 3 || zz.Fork(zz.Bool("healthy")) {
			healthy = s
			return true
		}
		return false
	})
	list()
	got := f.PeekSession()
	if !allow {
		zz.Ensures("over the rate there is no session", got == nil && tries == 0)
		return
	}
	zz.Ensures("within the rate there is a session", got != nil)
	zz.Ensures("which was just found healthy", got == healthy)
	zz.Ensures("and is the next one", len(f.sessions) == 0 || f.sessions[0] == got)
}

type zvAccounts struct{ c *auth.Client }

func (s zvAccounts) Load() {}
func (s zvAccounts) FindByCid(isp, cid string) *auth.Client {
	if s.c != nil && isp == s.c.ISP && cid == s.c.ClientId {
		return s.c
	}
	return nil
}

type zvCon struct{ net.Conn }

var errDown = errors.New("down")

var (
	zvEvery time.Duration
	zvBurst int
)

// A provider is set up once, from its configuration: its account, address, window and rate, with one connection.
//
//gov:prop C19
//gov:func CreateSessionFactory
//gov:func FindAuthConf
//gov:func ISP.Int
//gov:split 3
func ZvCreate() {
	zvWorld()
	zz.Stub("golang.org/x/time/rate.Every", func(d time.Duration) rate.Limit { zvEvery = d; return 1 })
	zz.Stub("golang.org/x/time/rate.NewLimiter", func(l rate.Limit, b int) *rate.Limiter { zvBurst = b; return &rate.Limiter{} })
	factories = [3]*SessionFactory{}
	i := zz.Enum("isp", 0, 2)
	isp := ISPS[i]
	maxConns, win, tps := zz.Int("maxConns", -1, 1000), zz.Int("window", 0, 1000), zz.Int("throughput", 0, 1000000)
	zvInts[isp+".max-conns"], zvInts[isp+".mt-window-size"], zvInts[isp+".throughput"] = maxConns, win, tps
	zvStrs[isp+".client-id"], zvStrs[isp+".address"], zvStrs[isp+".segment"] = "id", "addr", "seg"
	var acc *auth.Client
	if zz.Fork(zz.Bool("known")) {
		acc = &auth.Client{ISP: isp, ClientId: "id", LoginName: zz.Str("login", 0, 16), SharedSecret: zz.Str("secret", 0, 16), Version: zz.U8("version")}
	}
	auth.Cache = zvAccounts{acc}
	re := &regexp.Regexp{}
	zz.Stub("regexp.Compile", func(s string) (*regexp.Regexp, error) {
		zz.Ensures("the segment is the configured one", s == "seg")
		return re, nil
	})
	dials, logins := 0, 0
	con := zvCon{}
	zz.Stub("net.Dial", func(network, addr string) (net.Conn, error) {
		zz.Ensures("the address is the configured one", network == "tcp" && addr == "addr")
		dials++
		if zz.Fork(zz.Bool("unreachable")) {
			return nil, errDown
		}
		return con, nil
	})
	var sc *session.Session
	zz.Stub("github.com/hrygo/gosms/smc_client/session.NewSession", func(name string, ac *codec.AuthConf, c net.Conn) *session.Session {
		zz.Ensures("the login is of the account", name == isp && ac.ClientId == "id" && ac.SharedSecret == acc.SharedSecret && ac.LoginName == acc.LoginName && ac.Version == acc.Version)
		logins++
		if zz.Fork(zz.Bool("refused")) {
			return nil
		}
		sc = &session.Session{}
		return sc
	})
	hooks := 0
	zz.Stub("(*github.com/hrygo/gosms/smc_client.SessionFactory).RegCloseSessionsHooker", func(f *SessionFactory) { hooks++ })
	f := CreateSessionFactory(isp)
	if acc == nil {
		zz.Ensures("a provider without an account is not set up", f == nil && factories[i] == nil && dials == 0 && zz.PendingGo() == 0)
		return
	}
	zz.Ensures("a provider with an account is set up", f != nil && factories[i] == f)
	zz.Ensures("and no other", factories[(i+1)%3] == nil && factories[(i+2)%3] == nil)
	zz.Ensures("with its name, address and segment", f.srvName == isp && f.serverAddr == "addr" && f.regex == re)
	zz.Ensures("with one connection", dials == 1 && logins <= 1)
	if sc != nil {
		zz.Ensures("which is given out", len(f.sessions) == 1 && f.sessions[0] == sc)
	} else {
		zz.Ensures("a failed connection is not given out", len(f.sessions) == 0)
	}
	w := 16
	if win > 0 {
		w = win
	}
	zz.Ensures("with the configured window", cap(f.window) == w && zvBurst == w)
	if tps > 0 {
		zz.Ensures("with the configured rate, to the microsecond", zvEvery/time.Microsecond == time.Duration(int(time.Second/time.Microsecond)/tps))
	} else {
		zz.Ensures("with a rate of its own", zvEvery > 0)
	}
	zz.Ensures("it is kept in order by a ticker and closed at the end", zz.PendingGo() == 1 && hooks == 1)
	again := CreateSessionFactory(isp)
	zz.Ensures("a provider is set up once", again == f && dials == 1 && hooks == 1 && zz.PendingGo() == 1)
	zz.DropGo()
}

// ================================================================ C19: the pool of sessions

// A tick keeps the healthy sessions, in the order of how little they were used, closes and drops the others, and connects until
// there are as many as configured or the client is being stopped.
//
//gov:prop C19
//gov:func SessionFactory.lruSort
//gov:func SessionFactory.newConnect
//gov:func SessionFactory.Less
//gov:func SessionFactory.Swap
//gov:func Session.LruPriority
//gov:func Session.ResetCounter
//gov:bounded at most three sessions and connections, at most four attempts
//gov:split 4
func ZvLru() {
	zvWorld()
	n := zz.Enum("sessions", 0, 3)
	maxConns := zz.Enum("maxConns", 0, 3)
	zvInts["cmpp.max-conns"] = maxConns
	f := &SessionFactory{srvName: session.CMPP, serverAddr: "addr", authConf: &codec.AuthConf{}}
	var all []*session.Session
	var used []uint64
	var ok []bool
	var closed []int
	find := func(s *session.Session) int {
		for i := range all {
			if all[i] == s {
				return i
			}
		}
		return -1
	}
	add := func(healthy bool) *session.Session {
		s := &session.Session{}
		all, ok, closed, used = append(all, s), append(ok, healthy), append(closed, 0), append(used, uint64(zz.U32("used")))
		s.AddCounterN(used[len(used)-1])
		return s
	}
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).HealthCheck", func(s *session.Session) bool { return ok[find(s)] })
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).Close", func(s *session.Session) { closed[find(s)]++ })
	for i := 0; i < n; i++ {
		f.sessions = append(f.sessions, add(zz.Fork(zz.Bool("healthy"))))
	}
	zz.Stub("net.Dial", func(network, addr string) (net.Conn, error) {
		zz.Ensures("it connects to its provider", network == "tcp" && addr == "addr")
		if zz.Fork(zz.Bool("unreachable")) {
			return nil, errDown
		}
		return zvCon{}, nil
	})
	zz.Stub("github.com/hrygo/gosms/smc_client/session.NewSession", func(name string, ac *codec.AuthConf, c net.Conn) *session.Session {
		zz.Ensures("with its account", name == session.CMPP && ac == f.authConf)
		if zz.Fork(zz.Bool("refused")) {
			return nil
		}
		return add(true)
	})
	cancel := make(chan bool, 1)
	tries, stopped := 0, false
	zz.Stub("time.Sleep", func(d time.Duration) {
		tries++
		if !stopped && (tries >= 4 || zz.Fork(zz.Bool("stop"))) {
			stopped = true
			cancel <- true
		}
	})
	f.lruSort(cancel)
	zz.Ensures("the lock is released", !zz.LockHeld(&f.Mutex))
	want := maxConns
	if want == 0 {
		want = 2
	}
	kept := 0
	for i := 0; i < n; i++ {
		in := 0
		for _, s := range f.sessions {
			if s == all[i] {
				in++
			}
		}
		if ok[i] {
			zz.Ensures("a healthy session is kept, once, and not closed", in == 1 && closed[i] == 0)
			kept++
		} else {
			zz.Ensures("any other is dropped and closed once", in == 0 && closed[i] == 1)
		}
	}
	for i := n; i < len(all); i++ {
		zz.Ensures("a new session is given out", find(f.sessions[kept+i-n]) == i && closed[i] == 0)
	}
	zz.Ensures("there is nothing else", len(f.sessions) == kept+len(all)-n)
	for i := 1; i < kept; i++ {
		zz.Ensures("the less used come first", used[find(f.sessions[i-1])] <= used[find(f.sessions[i])])
	}
	zz.Ensures("no more connections than configured are made", len(all) == n || len(f.sessions) <= want)
	if !stopped {
		zz.Ensures("as many as configured are there unless it is stopped", len(f.sessions) >= want)
	}
	for i := 0; i < kept; i++ {
		zz.Ensures("use is counted afresh", f.sessions[i].LruPriority() == 1e10)
	}
}
