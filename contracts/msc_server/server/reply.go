package server

import (
	"io"
	"time"

	"github.com/hrygo/log"
	"github.com/panjf2000/gnet/v2"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C09: one response per request

const zvRespBit = 0x80000000

type zvSeqBcd struct{}

func (zvSeqBcd) NextVal() []byte { return zz.Bytes("bcd", 10, 10) }

// zvHead: a packet written is one of the command, of its declared length, answering seq (and the rest of the sequence
// number that SGIP keeps in the body).
func zvHead(name string, p []byte, cmd, seq uint32, body []byte) {
	zz.Ensures("the response is a whole packet", len(p) >= 12 && int(zvBE(p)) == len(p))
	zz.Ensures("the response has the matching command", zvBE(p[4:]) == cmd)
	zz.Ensures("the response has the sequence number of the request", zvBE(p[8:]) == seq)
	if name == SGIP {
		zz.Ensures("and the rest of it", len(p) >= 20 && zz.EqBytes(p[12:20], body[:8]))
	}
}

// zvLoggedIn is a session logged in, in any state a logged-in session can be in.
func zvLoggedIn(name string) (*Server, *zvConn, *session) {
	zvWorld()
	codec.BcdSeq = zvSeqBcd{}
	s, c, sc := zvSession(name, StatLogin)
	ac := zvAccount(name)
	sc.clientId = ac.ClientId
	return s, c, sc
}

func zvTestCmd(name string) uint32 {
	if name == CMPP {
		return uint32(cmpp.CMPP_ACTIVE_TEST)
	}
	return uint32(smgp.SMGP_ACTIVE_TEST)
}

func zvTermCmd(name string) uint32 {
	switch name {
	case CMPP:
		return uint32(cmpp.CMPP_TERMINATE)
	case SGIP:
		return uint32(sgip.SGIP_UNBIND)
	}
	return uint32(smgp.SMGP_EXIT)
}

func zvSubmitCmd(name string) uint32 {
	switch name {
	case CMPP:
		return uint32(cmpp.CMPP_SUBMIT)
	case SGIP:
		return uint32(sgip.SGIP_SUBMIT)
	}
	return uint32(smgp.SMGP_SUBMIT)
}

// A login request is answered once.
//
//gov:prop C09
//gov:func handleCmppConnect
//gov:split 3
func ZvLoginCmpp() { zvLogin(CMPP, 0) }

//gov:prop C09
//gov:func handleSgipBind
//gov:split 3
func ZvLoginSgip() { zvLogin(SGIP, 0) }

//gov:prop C09
//gov:func handleSmgpLogin
//gov:split 3
func ZvLoginSmgp() { zvLogin(SMGP, 0) }

// A request that cannot be served because the session is busy closes the connection and is not answered.
//
//gov:prop C09
//gov:func CmppHandlers
//gov:func SgipHandlers
//gov:func SmgpHandlers
//gov:split 3
func ZvBusy() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	zvQuiet()
	was := *sc
	zvFull = true
	cmd := zz.U32("cmd")
	zz.Requires(cmd != zvLoginCmd(name))
	action := zvServe(cmd, zz.U32("seq"), zz.Bytes("body", 0, 5108), c, s)
	if zvHandled(name, cmd) {
		zz.Ensures("a request that cannot be served closes the connection", action == gnet.Close)
	}
	zz.Ensures("nothing is answered", len(c.out) == 0 && len(zvTasks) == 0 && c.closed == 0)
	zvUnchanged(sc, was)
}

// An active test is answered once, keeps the session open and marks it as used.
//
//gov:prop C09
//gov:func handleCmppActive
//gov:func handleSmgpActive
func ZvActive() {
	name := CMPP
	if zz.Fork(zz.Bool("smgp")) {
		name = SMGP
	}
	s, c, sc := zvLoggedIn(name)
	was := *sc
	seq, body := zz.U32("seq"), zz.Bytes("body", 0, 5108)
	action := zvServe(zvTestCmd(name), seq, body, c, s)
	zz.Ensures("it is taken", action == gnet.None && len(zvTasks) == 1 && zvTasks[0].p == sc.pool)
	zvRun()
	zz.Ensures("one response", len(c.out) == 1)
	zvHead(name, c.out[0], zvTestCmd(name)+zvRespBit, seq, body)
	now := time.Now()
	c.zvFlush()
	zz.Ensures("no more than that", len(c.out) == 1 && c.closed == 0)
	zz.Ensures("the session has been used", !sc.lastUseTime.Before(now))
	zz.Ensures("the slot is released", len(sc.window) == 0)
	sc.lastUseTime = was.lastUseTime
	zvUnchanged(sc, was)
}

// A termination is answered once, and the connection is closed after the response is out.
//
//gov:prop C09
//gov:func handleCmppTerminate
//gov:func handleSgipUnbind
//gov:func handleSmgpExit
func ZvTerminate() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	was := *sc
	seq, body := zz.U32("seq"), zz.Bytes("body", 0, 5108)
	action := zvServe(zvTermCmd(name), seq, body, c, s)
	if name == SGIP && len(body) < 8 {
		zz.Ensures("a malformed packet closes the connection", action == gnet.Close && len(zvTasks) == 0 && len(c.out) == 0)
		return
	}
	zz.Ensures("it is taken", action == gnet.None && len(zvTasks) == 1 && zvTasks[0].p == sc.pool)
	zvRun()
	zz.Ensures("one response", len(c.out) == 1)
	zvHead(name, c.out[0], zvTermCmd(name)+zvRespBit, seq, body)
	zz.Ensures("not closed before the response is out", c.closed == 0)
	c.zvFlush()
	zz.Ensures("closed after it", c.closed > 0 && c.flushed > 0)
	zz.Ensures("the slot is released", len(sc.window) == 0)
	zvUnchanged(sc, was)
}

// Responses of the peer are never answered.
//
//gov:prop C09
//gov:func handleCmppActiveResp
//gov:func handleCmppDeliveryResp
//gov:func handleCmppTerminateResp
//gov:func handleSgipUnbindRsp
//gov:func handleSmgpActiveResp
//gov:func handleSmgpDeliveryResp
//gov:func handleSmgpExitResp
func ZvResponses() {
	name := zvName()
	s, c, sc := zvLoggedIn(name)
	was := *sc
	cmd, seq, body := zz.U32("cmd"), zz.U32("seq"), zz.Bytes("body", 0, 5108)
	zz.Requires(cmd >= zvRespBit)
	action := zvServe(cmd, seq, body, c, s)
	zz.Ensures("it is taken or the connection is closed", action == gnet.None || action == gnet.Close && len(zvTasks) == 0)
	zvRun()
	c.zvFlush()
	zz.Ensures("a response is not answered", len(c.out) == 0)
	zz.Ensures("the slot is released", len(sc.window) == 0)
	if cmd == zvTermCmd(name)+zvRespBit && action == gnet.None {
		zz.Ensures("the response to a termination closes the connection", c.closed > 0)
	} else {
		zz.Ensures("others do not", c.closed == 0)
	}
	if name != SGIP && cmd == zvTestCmd(name)+zvRespBit && action == gnet.None {
		zz.Ensures("an active test response resets the count of unanswered ones", sc.nAt == 0)
	} else {
		zz.Ensures("others do not change it", sc.nAt == was.nAt)
	}
	sc.nAt, sc.lastUseTime = was.nAt, was.lastUseTime
	zvUnchanged(sc, was)
}

// A submit is answered once (a status report may follow), and one over the rate of the account with the throttling status.

//gov:prop C09
//gov:func handleCmppSubmit
//gov:func submitFlowControl
//gov:func sendSubmitResponse
//gov:func mockSendCmppReport
//gov:split 3
func ZvSubmitCmpp() { zvSubmitAnswered(CMPP) }

//gov:prop C09
//gov:func handleSgipSubmit
//gov:func submitFlowControl
//gov:func sendSubmitResponse
//gov:split 3
func ZvSubmitSgip() { zvSubmitAnswered(SGIP) }

//gov:prop C09
//gov:func handleSmgpSubmit
//gov:func submitFlowControl
//gov:func sendSubmitResponse
//gov:split 3
func ZvSubmitSmgp() { zvSubmitAnswered(SMGP) }

func zvNoLog[T any](T) []log.Field { return nil }

// zvQuiet uses the contracts of the packets' Log methods (they terminate and do not fail on a decoded packet: C04).
func zvQuiet() {
	bad, udhi := zz.Bool("tlvError"), zz.Bool("udhi")
	zz.Stub("github.com/hrygo/gosms/utils.Read", func(r io.Reader) (*utils.TlvList, error) {
		// a list or an error, the same one for the same packet (C13)
		if bad {
			return nil, utils.ErrTLVRead
		}
		l := utils.NewTlvList()
		if udhi {
			l.Add(smgp.TP_udhi, zz.Bytes("udhi", 0, 5000))
		}
		return l, nil
	})
	zz.Stub("(*github.com/hrygo/gosms/codec/cmpp.Submit).Log", zvNoLog[*cmpp.Submit])
	zz.Stub("(*github.com/hrygo/gosms/codec/sgip.Submit).Log", zvNoLog[*sgip.Submit])
	zz.Stub("(*github.com/hrygo/gosms/codec/smgp.Submit).Log", zvNoLog[*smgp.Submit])
	zz.Stub("(*github.com/hrygo/gosms/codec/cmpp.SubmitRsp).Log", zvNoLog[*cmpp.SubmitRsp])
	zz.Stub("(*github.com/hrygo/gosms/codec/sgip.SubmitRsp).Log", zvNoLog[*sgip.SubmitRsp])
	zz.Stub("(*github.com/hrygo/gosms/codec/smgp.SubmitRsp).Log", zvNoLog[*smgp.SubmitRsp])
}

func zvSubmitAnswered(name string) {
	s, c, sc := zvLoggedIn(name)
	zvQuiet()
	was := *sc
	seq, body := zz.U32("seq"), zz.Bytes("body", 0, 5108)
	zvAllow = zz.Fork(zz.Bool("allowed"))
	action := zvServe(zvSubmitCmd(name), seq, body, c, s)
	if action == gnet.Close {
		var err error
		switch name {
		case CMPP:
			err = (&cmpp.Submit{Version: cmpp.Version(sc.ver)}).Decode(seq, body)
		case SGIP:
			err = (&sgip.Submit{}).Decode(seq, body)
		default:
			err = (&smgp.Submit{Version: smgp.Version(sc.ver)}).Decode(seq, body)
		}
		zz.Ensures("only a malformed packet closes the connection", err != nil && len(zvTasks) == 0 && len(c.out) == 0)
		zvUnchanged(sc, was)
		return
	}
	zz.Ensures("it is taken", action == gnet.None && len(zvTasks) == 1 && zvTasks[0].p == sc.pool)
	zvRun()
	zz.Ensures("a response", len(c.out) >= 1)
	zvHead(name, c.out[0], zvSubmitCmd(name)+zvRespBit, seq, body)
	st := zvSubmitStatus(name, sc.ver, c.out[0])
	if !zvAllow {
		zz.Ensures("a submit over the rate gets the throttling status", st == zvThrottled(name))
		zz.Ensures("and no report", len(c.out) == 1)
	}
	zz.Ensures("at most a report follows", len(c.out) <= 2)
	if len(c.out) == 2 {
		zz.Ensures("a report only for an accepted submit", st == 0)
		zz.Ensures("which is a delivery", zvBE(c.out[1][4:]) == zvDeliverCmd(name))
	}
	c.zvFlush()
	zz.Ensures("the connection stays open", c.closed == 0)
	zz.Ensures("the slot is released", len(sc.window) == 0)
	if st == 0 {
		zz.Ensures("an accepted submit is counted", sc.mt == was.mt+1)
	} else {
		zz.Ensures("a refused submit is not counted", sc.mt == was.mt)
	}
	sc.mt, sc.report, sc.lastUseTime = was.mt, was.report, was.lastUseTime
	zvUnchanged(sc, was)
}

func zvDeliverCmd(name string) uint32 {
	if name == CMPP {
		return uint32(cmpp.CMPP_DELIVER)
	}
	return uint32(smgp.SMGP_DELIVER)
}

func zvThrottled(name string) uint32 {
	switch name {
	case CMPP:
		return 8
	case SGIP:
		return 33
	}
	return 1
}

// zvSubmitStatus reads the status out of a submit response.
func zvSubmitStatus(name string, ver byte, p []byte) uint32 {
	switch name {
	case CMPP:
		if cmpp.V30.MajorMatch(ver) {
			return zvBE(p[20:])
		}
		return uint32(p[20])
	case SGIP:
		return uint32(p[20])
	}
	return zvBE(p[22:])
}
