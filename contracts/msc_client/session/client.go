package session

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/hrygo/log"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ---------------------------------------------------------------- what the client runs on, as assumed contracts

// zvCon is a connection: a stream that arrives in reads of any size, and what was written to it.
type zvCon struct {
	net.Conn
	s      *zz.Stream
	out    [][]byte
	before func(p []byte) // looks at what is about to be written
	fail   bool
	closed int
}

type zvAddr struct{}

func (zvAddr) Network() string { return "tcp" }
func (zvAddr) String() string  { return "peer" }

var errBroken = errors.New("broken")

func (c *zvCon) TheStream() *zz.Stream              { return c.s }
func (c *zvCon) Read(p []byte) (int, error)         { return c.s.Read(p) }
func (c *zvCon) RemoteAddr() net.Addr               { return zvAddr{} }
func (c *zvCon) LocalAddr() net.Addr                { return zvAddr{} }
func (c *zvCon) Close() error                       { c.closed++; return nil }
func (c *zvCon) SetDeadline(t time.Time) error      { return nil }
func (c *zvCon) SetReadDeadline(t time.Time) error  { return nil }
func (c *zvCon) SetWriteDeadline(t time.Time) error { return nil }
func (c *zvCon) Write(p []byte) (int, error) {
	if c.before != nil {
		c.before(p)
	}
	if c.fail {
		return 0, errBroken
	}
	c.out = append(c.out, p)
	return len(p), nil
}

var zvLast time.Time

// zvNow is a clock that does not go backwards.
func zvNow() time.Time {
	t := time.Now()
	zz.Assume(!t.Before(zvLast))
	zvLast = t
	return t
}

type zvSeq32 struct{}

func (zvSeq32) NextVal() int32 { return zz.I32("seq") }

type zvSeqBcd struct{}

func (zvSeqBcd) NextVal() []byte { return zz.Bytes("bcd", 10, 10) }

func zvNoLog[T any](T) []log.Field { return nil }

func zvWorld() {
	zz.Stub("io.ReadAtLeast", zz.ReadAtLeast)
	zz.Stub("time.Now", zvNow)
	// the Log methods of the packets neither fail nor change the packet: C04
	zz.Stub("(*github.com/hrygo/gosms/codec/cmpp.SubmitRsp).Log", zvNoLog[*cmpp.SubmitRsp])
	zz.Stub("(*github.com/hrygo/gosms/codec/sgip.SubmitRsp).Log", zvNoLog[*sgip.SubmitRsp])
	zz.Stub("(*github.com/hrygo/gosms/codec/smgp.SubmitRsp).Log", zvNoLog[*smgp.SubmitRsp])
	zz.Stub("(*github.com/hrygo/gosms/codec/cmpp.Delivery).Log", zvNoLog[*cmpp.Delivery])
	zz.Stub("(*github.com/hrygo/gosms/codec/smgp.Delivery).Log", zvNoLog[*smgp.Delivery])
	zvLast = time.Time{}
	codec.B32Seq, codec.BcdSeq = zvSeq32{}, zvSeqBcd{}
	sgip.NewSequencer(zz.U32("node"), 0)
}

func zvName() string {
	switch zz.Enum("client", 0, 2) {
	case 0:
		return CMPP
	case 1:
		return SGIP
	}
	return SMGP
}

func zvConf(name string) *codec.AuthConf {
	return &codec.AuthConf{ISP: name, ClientId: zz.Str("clientId", 1, 8), LoginName: zz.Str("login", 0, 16), SharedSecret: zz.Str("secret", 0, 16),
		Version: zz.U8("version")}
}

// zvSession is a session logged in.
func zvSession(name string) (*zvCon, *Session) {
	zvWorld()
	c := &zvCon{s: &zz.Stream{}}
	s := &Session{con: c, authConf: zvConf(name), serverName: name, stat: StatLogin, cancel: make(chan struct{}, 1)}
	s.counter, s.periodCounter = uint64(zz.U32("counter")), uint64(zz.U32("period"))
	s.activeTime = time.Now()
	return c, s
}

func zvBE(p []byte) uint32 {
	return uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
}

func zvRequires64(p []byte) uint64 { return uint64(zvBE(p))<<32 | uint64(zvBE(p[4:])) }

const zvRespBit = 0x80000000

// zvWasClosed: the session is closed, once, and its receiver is told.
func zvWasClosed(c *zvCon, s *Session) {
	zz.Ensures("the session is closed", s.stat == StatClosing && c.closed == 1)
	zz.Ensures("the receiver is told", len(s.cancel) == 1)
	zz.Ensures("the lock is released", !zz.LockHeld(&s.Mutex))
}

func zvIsOpen(c *zvCon, s *Session) {
	zz.Ensures("the session stays open", s.stat == StatLogin && c.closed == 0 && len(s.cancel) == 0)
}

// ---------------------------------------------------------------- pending results

// zvPending makes the caches arbitrary: any results may be pending under any sequence number, and any message ids known.
func zvPending() {
	zz.LazySyncMap(&SequenceIdResultCacheMap, func(k any) any {
		return &Result{SequenceId: k.(uint64), QueryId: zz.I64("query"), Phone: "phone", Result: zz.U32("result"), MsgId: "before", Report: "none"}
	})
	zz.LazySyncMap(&MsgIdResultCacheMap, func(k any) any {
		return &Result{SequenceId: zz.U64("sequence"), QueryId: zz.I64("query2"), Phone: "phone", Result: zz.U32("result2"), MsgId: k.(string), Report: "none"}
	})
}

func zvSame(what string, r *Result, was Result) {
	zz.Ensures(what+" keeps its status", r.Result == was.Result)
	zz.Ensures(what+" keeps its message id", r.MsgId == was.MsgId)
	zz.Ensures(what+" keeps its report", r.Report == was.Report)
	zz.Ensures(what+" keeps its times", r.ResponseTime == was.ResponseTime && r.ReportTime == was.ReportTime && r.SendTime == was.SendTime)
	zz.Ensures(what+" keeps its origin", r.QueryId == was.QueryId && r.SequenceId == was.SequenceId && r.Phone == was.Phone)
}

// zvOther looks up one result that is not concerned by what is done.
func zvOther(key uint64) (*Result, Result) {
	v, ok := SequenceIdResultCacheMap.Load(key)
	if !ok {
		return nil, Result{}
	}
	r := v.(*Result)
	return r, *r
}

func zvOtherMsg(key string) (*Result, Result) {
	v, ok := MsgIdResultCacheMap.Load(key)
	if !ok {
		return nil, Result{}
	}
	r := v.(*Result)
	return r, *r
}

func zvSubmitCmd(name string) uint32 {
	switch name {
	case CMPP:
		return uint32(cmpp.CMPP_SUBMIT)
	case SGIP:
		return uint32(sgip.SGIP_SUBMIT)
	}
	return uint32(smgp.SMGP_SUBMIT)
}

// zvSubmitResp reads a submit response: the key of the message it answers, its status and message id.
func zvSubmitResp(name string, ver byte, seq uint32, body []byte) (ok bool, key uint64, status uint32, msgId string) {
	switch name {
	case CMPP:
		if cmpp.V30.MajorMatch(ver) {
			if len(body) < 12 {
				return
			}
			status = zvBE(body[8:])
		} else {
			if len(body) < 9 {
				return
			}
			status = uint32(body[8])
		}
		return true, uint64(seq), status, utils.Uint64HexString(zvRequires64(body))
	case SGIP:
		if len(body) < 9 {
			return
		}
		return true, zvRequires64(body), uint32(body[8]), fmt.Sprintf("%010d%010d%08x", seq, zvBE(body), zvBE(body[4:]))
	}
	if len(body) < 14 {
		return
	}
	return true, uint64(seq), zvBE(body[10:]), hex.EncodeToString(body[:10])
}

func zvSubmitAnswer(name string) {
	c, s := zvSession(name)
	zvPending()
	seq, body := zz.U32("seqNo"), zz.Bytes("body", 0, 5000)
	ok, key, status, msgId := zvSubmitResp(name, s.authConf.Version, seq, body)
	otherKey := zz.U64("otherKey")
	if ok {
		zz.Requires(otherKey != key)
	}
	other, otherWas := zvOther(otherKey)
	otherMsg := zz.Str("otherMsg", 0, 40)
	known, knownWas := zvOtherMsg(otherMsg)
	r, was := zvOther(key)
	t0 := time.Now()
	s.onTraffic(zvSubmitCmd(name)|zvRespBit, seq, body)
	zz.Ensures("a response is not answered", len(c.out) == 0)
	if other != nil {
		zvSame("another message", other, otherWas)
	}
	if known != nil && known != r {
		zvSame("a message known by its id", known, knownWas)
	}
	if !ok {
		zvWasClosed(c, s)
		if r != nil {
			zvSame("a message not answered", r, was)
		}
		return
	}
	zvIsOpen(c, s)
	v, found := MsgIdResultCacheMap.Load(msgId)
	if r == nil {
		return
	}
	zz.Ensures("the message has the status of its response", r.Result == status)
	zz.Ensures("the message has the id of its response", r.MsgId == msgId)
	zz.Ensures("the message has the time of its response", !r.ResponseTime.Before(t0) && !time.Now().Before(r.ResponseTime))
	zz.Ensures("the message is found by its id", found && v.(*Result) == r)
	zz.Ensures("nothing else of it changes", r.QueryId == was.QueryId && r.SequenceId == was.SequenceId && r.Phone == was.Phone && r.Report == was.Report)
	if otherMsg != msgId {
		v, found := MsgIdResultCacheMap.Load(otherMsg)
		zz.Ensures("no other id changes", found == (known != nil) && (!found || v.(*Result) == known))
	}
}

// ================================================================ C11: responses and reports

// A submit response goes to the message with its sequence number, whatever is pending, and to no other.
//
//gov:prop C11
//gov:func Session.onTrafficCmpp
//gov:func Session.onTraffic
//gov:split 3
func ZvSubmitRespCmpp() { zvSubmitAnswer(CMPP) }

//gov:prop C11
//gov:func Session.onTrafficSgip
//gov:func Session.onTraffic
//gov:split 3
func ZvSubmitRespSgip() { zvSubmitAnswer(SGIP) }

//gov:prop C11
//gov:func Session.onTrafficSmgp
//gov:func Session.onTraffic
//gov:split 3
func ZvSubmitRespSmgp() { zvSubmitAnswer(SMGP) }

// zvDelivered: a delivery from the server, report or not.
func zvDelivered(name string) {
	c, s := zvSession(name)
	zvPending()
	seq, body := zz.U32("seqNo"), zz.Bytes("body", 0, 5000)
	var err error
	report, msgId, st, cmd := false, "", "", uint32(cmpp.CMPP_DELIVER)
	var want []byte
	if name == CMPP {
		d := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
		if err = d.Decode(seq, body); err == nil {
			if report = d.IsReport() && d.Report() != nil; report {
				msgId, st = utils.Uint64HexString(d.Report().MsgId()), d.Report().Stat()
			}
			want = d.ToResponse(0).Encode()
		}
	} else {
		cmd = uint32(smgp.SMGP_DELIVER)
		d := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
		if err = d.Decode(seq, body); err == nil {
			if report = d.IsReport() && d.Report() != nil; report {
				msgId, st = hex.EncodeToString(d.Report().Id()), d.Report().Stat()
			}
			want = d.ToResponse(0).Encode()
		}
	}
	r, was := zvOtherMsg(msgId)
	otherMsg, otherKey := zz.Str("otherMsg", 0, 40), zz.U64("otherKey")
	zz.Requires(otherMsg != msgId)
	known, knownWas := zvOtherMsg(otherMsg)
	other, otherWas := zvOther(otherKey)
	c.fail = zz.Fork(zz.Bool("broken"))
	t0 := time.Now()
	s.onTraffic(cmd, seq, body)
	if known != nil {
		zvSame("a message of another id", known, knownWas)
	}
	if other != nil {
		zvSame("a message pending", other, otherWas)
	}
	if err != nil {
		zz.Ensures("a malformed delivery is not answered", len(c.out) == 0)
		zvWasClosed(c, s)
		if r != nil {
			zvSame("a message not reported", r, was)
		}
		return
	}
	if c.fail {
		zvWasClosed(c, s)
	} else {
		zz.Ensures("a delivery is answered once", len(c.out) == 1)
		p := c.out[0]
		zz.Ensures("with a whole packet", len(p) >= 12 && int(zvBE(p)) == len(p))
		zz.Ensures("of the response command", zvBE(p[4:]) == cmd|zvRespBit)
		zz.Ensures("with the sequence number of the delivery", zvBE(p[8:]) == seq)
		zz.Ensures("which is the response to it", zz.EqBytes(p, want))
		zvIsOpen(c, s)
	}
	if r == nil {
		return
	}
	if !report {
		zvSame("a message not reported", r, was)
		return
	}
	zz.Ensures("the message has the status of its report", r.Report == st)
	zz.Ensures("the message has the time of its report", !r.ReportTime.Before(t0) && !time.Now().Before(r.ReportTime))
	zz.Ensures("nothing else of it changes", r.QueryId == was.QueryId && r.SequenceId == was.SequenceId && r.Result == was.Result && r.MsgId == was.MsgId)
}

// A report goes to the message with its id, and to no other; every delivery is answered.
//
//gov:prop C11
//gov:func Session.onTrafficCmpp
//gov:split 3
func ZvDeliverCmpp() { zvDelivered(CMPP) }

//gov:prop C11
//gov:func Session.onTrafficSmgp
//gov:split 3
func ZvDeliverSmgp() { zvDelivered(SMGP) }

// Active tests and terminations are answered, the latter close the session; responses are not answered; packets of other
// commands do nothing; no packet touches a result that is not concerned.
//
//gov:prop C11
//gov:func Session.onTrafficCmpp
//gov:func Session.onTrafficSgip
//gov:func Session.onTrafficSmgp
//gov:func Session.Close
//gov:split 3
func ZvControl() {
	name := zvName()
	c, s := zvSession(name)
	zvPending()
	cmd, seq, body := zz.U32("cmd"), zz.U32("seqNo"), zz.Bytes("body", 0, 5000)
	zz.Requires(cmd != zvSubmitCmd(name)|zvRespBit)
	test, term, deliver := zvControls(name)
	zz.Requires(deliver == 0 || cmd != deliver)
	otherMsg, otherKey := zz.Str("otherMsg", 0, 40), zz.U64("otherKey")
	known, knownWas := zvOtherMsg(otherMsg)
	other, otherWas := zvOther(otherKey)
	c.fail = zz.Fork(zz.Bool("broken"))
	s.onTraffic(cmd, seq, body)
	if known != nil {
		zvSame("a message of any id", known, knownWas)
	}
	if other != nil {
		zvSame("a message pending", other, otherWas)
	}
	answered := cmd == term || test != 0 && cmd == test
	malformed := name == SGIP && len(body) < 8 && (cmd == term || cmd == term|zvRespBit)
	if answered && !c.fail && !malformed {
		zz.Ensures("a request is answered once", len(c.out) == 1)
		p := c.out[0]
		zz.Ensures("with a whole packet", len(p) >= 12 && int(zvBE(p)) == len(p))
		zz.Ensures("of the response command", zvBE(p[4:]) == cmd|zvRespBit)
		zz.Ensures("with its sequence number", zvBE(p[8:]) == seq)
		if name == SGIP {
			zz.Ensures("all of it", len(p) >= 20 && zz.EqBytes(p[12:20], body[:8]))
		}
	} else {
		zz.Ensures("nothing else is answered", len(c.out) == 0)
	}
	switch {
	case malformed, cmd == term, cmd == term|zvRespBit, c.fail && answered:
		zvWasClosed(c, s)
	case cmd == 1|zvRespBit:
		ok, status := zvLoginStatus(name, s.authConf.Version, body)
		if !ok || status != 0 {
			zvWasClosed(c, s)
		} else {
			zvIsOpen(c, s)
		}
	default:
		zvIsOpen(c, s)
	}
}

// zvControls: active test, termination and delivery.
func zvControls(name string) (test, term, deliver uint32) {
	switch name {
	case CMPP:
		return uint32(cmpp.CMPP_ACTIVE_TEST), uint32(cmpp.CMPP_TERMINATE), uint32(cmpp.CMPP_DELIVER)
	case SGIP:
		return 0, uint32(sgip.SGIP_UNBIND), 0
	}
	return uint32(smgp.SMGP_ACTIVE_TEST), uint32(smgp.SMGP_EXIT), uint32(smgp.SMGP_DELIVER)
}

// zvLoginStatus reads a login response.
func zvLoginStatus(name string, ver byte, body []byte) (ok bool, status uint32) {
	switch name {
	case CMPP:
		if cmpp.V30.MajorMatch(ver) {
			if len(body) < 21 {
				return
			}
			return true, zvBE(body)
		}
		if len(body) < 18 {
			return
		}
		return true, uint32(body[0])
	case SGIP:
		if len(body) < 9 {
			return
		}
		return true, uint32(body[8])
	}
	if len(body) < 21 {
		return
	}
	return true, zvBE(body)
}

// Closing a session a second time does nothing and does not block.
//
//gov:prop C11
//gov:func Session.Close
func ZvCloseTwice() {
	c, s := zvSession(zvName())
	s.Close()
	zvWasClosed(c, s)
	s.Close()
	zvWasClosed(c, s)
	(*Session)(nil).Close()
}

var _ = io.EOF
