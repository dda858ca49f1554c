package session

import (
	"github.com/hrygo/log"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// zvParts is what a message becomes: one to three packets with sequence numbers of their own (C05, C10).
func zvParts(name string) (parts []codec.RequestPdu, keys []uint64) {
	n := zz.Enum("parts", 1, 3)
	for i := 0; i < n; i++ {
		seq := zz.U32("seqOf")
		switch name {
		case CMPP:
			parts = append(parts, &cmpp.Submit{MessageHeader: cmpp.MessageHeader{TotalLength: 170, CommandId: cmpp.CMPP_SUBMIT, SequenceId: seq}})
			keys = append(keys, uint64(seq))
		case SGIP:
			at := zz.U32("at")
			parts = append(parts, &sgip.Submit{MessageHeader: sgip.MessageHeader{PacketLength: 170, CommandId: sgip.SGIP_SUBMIT,
				SequenceNumber: []uint32{zz.U32("node"), at, seq}}})
			keys = append(keys, uint64(at)<<32|uint64(seq))
		default:
			parts = append(parts, &smgp.Submit{MessageHeader: smgp.MessageHeader{PacketLength: 170, RequestId: smgp.SMGP_SUBMIT, SequenceId: seq}})
			keys = append(keys, uint64(seq))
		}
		for _, k := range keys[:i] {
			zz.Requires(k != keys[i])
		}
	}
	return
}

// zvKeyOf reads the sequence number a response to the packet will carry.
func zvKeyOf(name string, p []byte) uint64 {
	if name == SGIP {
		return zvRequires64(p[12:])
	}
	return uint64(zvBE(p[8:]))
}

// A message of any parts: every part is pending, under its own sequence number, before it is sent; each is sent once and in
// order and has one result, unless one cannot be sent: then that part is not pending any more, no further part is sent,
// there are no results and the session is closed. No other result is touched.
//
//gov:prop C11
//gov:func Session.Send
//gov:func Session.sendByCmpp
//gov:func Session.sendBySgip
//gov:func Session.sendBySmgp
//gov:bounded messages of at most three parts
//gov:split 3
func ZvSend() {
	name := zvName()
	c, s := zvSession(name)
	zvPending()
	parts, keys := zvParts(name)
	phone, message := zz.Str("phone", 0, 21), zz.Str("message", 0, 1000)
	asked := 0
	one := func(ac *codec.AuthConf, phones []string, content string) []codec.RequestPdu {
		zz.Ensures("the message is made for the account", ac == s.authConf)
		zz.Ensures("the message is made for the phone", len(phones) == 1 && phones[0] == phone)
		zz.Ensures("the message is made of the content", content == message)
		asked++
		return parts
	}
	zz.Stub("github.com/hrygo/gosms/codec/cmpp.NewSubmit", func(ac *codec.AuthConf, phones []string, content string, seq uint32, opts ...codec.OptionFunc) []codec.RequestPdu {
		return one(ac, phones, content)
	})
	zz.Stub("github.com/hrygo/gosms/codec/smgp.NewSubmit", func(ac *codec.AuthConf, phones []string, content string, seq uint32, opts ...codec.OptionFunc) []codec.RequestPdu {
		return one(ac, phones, content)
	})
	zz.Stub("github.com/hrygo/gosms/codec/sgip.NewSubmit", func(ac *codec.AuthConf, phones []string, content string, opts ...codec.OptionFunc) []codec.RequestPdu {
		return one(ac, phones, content)
	})
	zz.Stub("(*github.com/hrygo/gosms/codec/cmpp.Submit).Log", func(*cmpp.Submit) []log.Field { return nil })
	zz.Stub("(*github.com/hrygo/gosms/codec/sgip.Submit).Log", func(*sgip.Submit) []log.Field { return nil })
	zz.Stub("(*github.com/hrygo/gosms/codec/smgp.Submit).Log", func(*smgp.Submit) []log.Field { return nil })

	otherKey := zz.U64("otherKey")
	for _, k := range keys {
		zz.Requires(otherKey != k)
	}
	other, otherWas := zvOther(otherKey)
	bad := zz.Enum("failsAt", 0, 3)
	tried := 0
	t0 := zvNow()
	c.before = func(p []byte) {
		zz.Ensures("no packet beyond the parts is sent", tried < len(parts))
		zz.Ensures("a part is sent whole", len(p) == 170 && int(zvBE(p)) == len(p) && zvBE(p[4:]) == zvSubmitCmd(name))
		zz.Ensures("the parts are sent in order", zvKeyOf(name, p) == keys[tried])
		v, ok := SequenceIdResultCacheMap.Load(keys[tried])
		zz.Ensures("a part is pending before it is sent", ok)
		r := v.(*Result)
		zz.Ensures("under the number its response will carry", r.SequenceId == keys[tried])
		zz.Ensures("for the phone", r.Phone == phone)
		zz.Ensures("with nothing known of it yet", r.MsgId == "" && r.Report == "" && r.ResponseTime.IsZero() && r.ReportTime.IsZero())
		zz.Ensures("with the time it was sent at", !r.SendTime.Before(t0))
		tried++
		c.fail = tried == bad
	}
	results := s.Send(phone, message)
	zz.Ensures("the message is made once", asked == 1)
	if other != nil {
		zvSame("another message", other, otherWas)
	}
	now, found := zvOther(otherKey)
	_ = found
	zz.Ensures("no other message is pending or stops being so", now == other)
	if bad > 0 && bad <= len(parts) {
		zz.Ensures("a message that could not be sent has no results", len(results) == 0)
		zz.Ensures("nothing is sent after the part that could not be", tried == bad)
		zvWasClosed(c, s)
		_, ok := SequenceIdResultCacheMap.Load(keys[bad-1])
		zz.Ensures("the part that could not be sent is not pending", !ok)
		return
	}
	zvIsOpen(c, s)
	zz.Ensures("every part is sent", tried == len(parts) && len(c.out) == len(parts))
	zz.Ensures("every part has one result", len(results) == len(parts))
	for i, a := range results {
		r, ok := a.(*Result)
		zz.Ensures("in order", ok && r.SequenceId == keys[i])
		v, found := SequenceIdResultCacheMap.Load(keys[i])
		zz.Ensures("which is the one that is pending", found && v.(*Result) == r)
	}
}
