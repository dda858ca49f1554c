package server

import (
	"errors"
	"net"
	"time"

	"github.com/hrygo/yaml_config"
	"github.com/panjf2000/ants/v2"
	"github.com/panjf2000/gnet/v2"
	"golang.org/x/time/rate"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/sgip"
	bs "github.com/hrygo/gosms/msc_server"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ---------------------------------------------------------------- what the server runs on, as assumed contracts

// zvConn is a connection: what has arrived, and what was done with it. Writes are carried out later, by zvFlush.
type zvConn struct {
	gnet.Conn
	in       []byte
	ctx      any
	sets     int
	out      [][]byte
	done     []gnet.AsyncCallback
	closed   int
	flushed  int
	peeked   []byte
	refuse   bool
	discards int
	gone     bool    // closed: nothing more is written
	fails    *Server // writes fail: the connection is closed, and reported closed to this server, by the first of them
}

type zvAddr struct{}

func (zvAddr) Network() string { return "tcp" }
func (zvAddr) String() string  { return "peer" }

func (c *zvConn) RemoteAddr() net.Addr {
	if c.gone {
		return nil
	}
	return zvAddr{}
}
func (c *zvConn) LocalAddr() net.Addr  { return zvAddr{} }
func (c *zvConn) Context() any         { return c.ctx }
func (c *zvConn) SetContext(x any)     { c.ctx = x; c.sets++ }
func (c *zvConn) InboundBuffered() int { return len(c.in) }
func (c *zvConn) Flush() error         { c.flushed++; return nil }
func (c *zvConn) Close() error         { c.closed++; return nil }

var errShort = errors.New("short buffer")

func (c *zvConn) Peek(n int) ([]byte, error) {
	if n > len(c.in) {
		return c.in, errShort
	}
	return c.in[:n], nil
}

func (c *zvConn) Next(n int) ([]byte, error) {
	b, err := c.Peek(n)
	c.in = c.in[len(b):]
	c.discards++
	return b, err
}

func (c *zvConn) Discard(n int) (int, error) {
	if n > len(c.in) {
		n = len(c.in)
		c.in = nil
		c.discards++
		return n, errShort
	}
	c.in = c.in[n:]
	c.discards++
	return n, nil
}

func (c *zvConn) AsyncWrite(p []byte, f gnet.AsyncCallback) error {
	if c.refuse {
		return errShort
	}
	if c.gone {
		return nil
	}
	c.out = append(c.out, p)
	c.done = append(c.done, f)
	return nil
}

// zvFlush carries the writes out, as gnet does: none on a closed connection; a write that fails closes the connection
// before its callback runs.
func (c *zvConn) zvFlush() {
	for _, f := range c.done {
		if c.gone {
			break
		}
		if c.fails != nil {
			c.out = nil
			c.zvClose(c.fails)
		}
		if f != nil {
			_ = f(c)
		}
	}
	c.done = nil
}

// zvClose closes the connection.
func (c *zvConn) zvClose(s *Server) {
	if c.gone {
		return
	}
	s.OnClose(c, errShort)
	c.gone = true
}

// ---------------------------------------------------------------- pools: tasks run later, by zvRun

type zvTask struct {
	p *ants.Pool
	f func()
}

var (
	zvTasks    []zvTask
	zvFull     bool
	zvReleased []*ants.Pool
	zvPools    []int
)

func zvSubmitTask(p *ants.Pool, f func()) error {
	if p == nil {
		panic("submit to no pool")
	}
	if zvFull {
		return errShort
	}
	zvTasks = append(zvTasks, zvTask{p, f})
	return nil
}

func zvNewPool(size int, opts ...ants.Option) (*ants.Pool, error) {
	zvPools = append(zvPools, size)
	return &ants.Pool{}, nil
}

func zvRelease(p *ants.Pool) { zvReleased = append(zvReleased, p) }

// zvRun runs the tasks submitted, and those they submit.
func zvRun() {
	for i := 0; i < len(zvTasks); i++ {
		zvTasks[i].f()
	}
	zvTasks = nil
}

// ---------------------------------------------------------------- rate limiter, configuration, accounts

var (
	zvAllow    bool
	zvEvery    time.Duration
	zvBurst    int
	zvConfTime time.Duration
	zvConfTick time.Duration

	zvMaxSessions    int
	zvMaxSessionsKey string
)

type zvConf struct {
	yaml_config.YmlConfig
	mock bool
}

func (c zvConf) GetInt(k string) int {
	switch k {
	case zvMaxSessionsKey:
		return zvMaxSessions
	case "Server.Mock.MinSubmitRespMs":
		return 1
	case "Server.Mock.MaxSubmitRespMs":
		return 20
	}
	return 0
}
func (c zvConf) GetBool(k string) bool            { return false }
func (c zvConf) GetFloat64(k string) float64      { return 0.5 }
func (c zvConf) GetString(k string) string        { return "" }
func (c zvConf) GetStringSlice(k string) []string { return nil }
func (c zvConf) GetDuration(k string) time.Duration {
	if k == "Server.ForceCloseConnTime" {
		return zvConfTime
	}
	return zvConfTick
}

// zvAccounts finds one account.
type zvAccounts struct {
	isp, cid string
	c        *auth.Client
}

func (s *zvAccounts) Load() {}

func (s *zvAccounts) FindByCid(isp, cid string) *auth.Client {
	if s.c != nil && isp == s.isp && cid == s.cid {
		return s.c
	}
	return nil
}

// zvNow is a clock that does not go backwards.
var zvLast time.Time

func zvNow() time.Time {
	t := time.Now()
	zz.Assume(!t.Before(zvLast))
	zvLast = t
	return t
}

// zvWorld replaces what lies outside the server.
func zvWorld() {
	zz.Stub("(*github.com/panjf2000/ants/v2.Pool).Submit", zvSubmitTask)
	zz.Stub("(*github.com/panjf2000/ants/v2.Pool).Release", zvRelease)
	zz.Stub("(*github.com/panjf2000/ants/v2.Pool).Free", func(p *ants.Pool) int { return 0 })
	zz.Stub("(*github.com/panjf2000/ants/v2.Pool).Cap", func(p *ants.Pool) int { return 0 })
	zz.Stub("github.com/panjf2000/ants/v2.NewPool", zvNewPool)
	zz.Stub("github.com/panjf2000/ants/v2.WithOptions", func(o ants.Options) ants.Option { return func(p *ants.Options) { *p = o } })
	zz.Stub("(*golang.org/x/time/rate.Limiter).Allow", func(l *rate.Limiter) bool { return zvAllow })
	zz.Stub("golang.org/x/time/rate.Every", func(d time.Duration) rate.Limit { zvEvery = d; return 1 })
	zz.Stub("golang.org/x/time/rate.NewLimiter", func(l rate.Limit, b int) *rate.Limiter { zvBurst = b; return &rate.Limiter{} })
	zz.Stub("github.com/hrygo/gosms/utils.DiceCheck", func(p float64) bool { return zz.Bool("dice") })
	zz.Stub("runtime.NumCPU", func() int { return zz.Int("cpus", 1, 1<<20) })
	zz.Stub("time.Now", zvNow)
	zvLast = time.Time{}
	zvTasks, zvReleased, zvPools = nil, nil, nil
	zvFull, zvAllow, zvId = false, true, nil
	bs.ConfigYml = zvConf{}
	codec.B64Seq, codec.B32Seq = &zvSeq64{}, &zvSeq32{}
	sgip.NewSequencer(zz.U32("node"), 0)
}

// zvSeq64, zvSeq32 hand out arbitrary numbers.
type zvSeq64 struct{ last int64 }

var zvId *int64 // the next id, when it is given

func (s *zvSeq64) NextVal() int64 {
	s.last = zz.I64("id")
	if zvId != nil {
		s.last = *zvId
	}
	return s.last
}

type zvSeq32 struct{ last int32 }

func (s *zvSeq32) NextVal() int32 { s.last = zz.I32("seq"); return s.last }

func zvName() string {
	switch zz.Enum("server", 0, 2) {
	case 0:
		return CMPP
	case 1:
		return SGIP
	}
	return SMGP
}
