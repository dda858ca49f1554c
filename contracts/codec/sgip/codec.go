package sgip

import (
	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C03: SGIP packets on the wire

//gov:prop C03
//gov:func (*MessageHeader).Encode
//gov:func (*MessageHeader).Decode
func ZvHeader() {
	h := &MessageHeader{PacketLength: zz.U32("total"), CommandId: CommandId(zz.U32("cmd")), SequenceNumber: zvSeq()}
	zz.Requires(h.PacketLength <= 100000)
	t := h.PacketLength
	f := h.Encode()
	if t < 20 {
		t = 20
	}
	zz.Ensures("frame has the declared length, at least a header", uint32(len(f)) == t && h.PacketLength == t)
	zz.Ensures("header words in order, big endian", zvHead(f, t, h.CommandId, h.SequenceNumber))
	zz.Ensures("body zeroed", zz.Forall(20, len(f), func(i int) bool { return f[i] == 0 }))
	d := &MessageHeader{}
	err := d.Decode(f)
	zz.Ensures("header round trips", err == nil && d.PacketLength == t && d.CommandId == h.CommandId && zvSeqIs(d.SequenceNumber, h.SequenceNumber))
	p, c, s := codec.UnpackHead(f)
	zz.Ensures("UnpackHead agrees", p == t && c == uint32(h.CommandId) && s == h.SequenceNumber[0])
	zz.Ensures("sequence as a number", h.Sequence2Uint64() == uint64(h.SequenceNumber[1])<<32|uint64(h.SequenceNumber[2]))
}

//gov:prop C03
//gov:func NewBind
//gov:func (*Bind).Encode
//gov:func (*Bind).Decode
func ZvBind() {
	zvSequencer()
	ac := zvAccount()
	typ := zz.U8("type")
	b := NewBind(ac, typ)
	f := b.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 61)
	zz.Ensures("header", zvHead(f, 61, SGIP_BIND, b.SequenceNumber))
	zz.Ensures("login type at 20", f[20] == typ)
	zz.Ensures("login name at 21", zvField(f, 21, 16, ac.ClientId))
	zz.Ensures("login password at 37", zvField(f, 37, 16, ac.SharedSecret))
	zz.Ensures("reserve at 53", zvField(f, 53, 8, ""))
	d := &Bind{}
	err := d.Decode(b.SequenceNumber[0], f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("header round trips", d.PacketLength == 61 && d.CommandId == SGIP_BIND && zvSeqIs(d.SequenceNumber, b.SequenceNumber))
	zz.Ensures("login type round trips", d.LoginType == b.LoginType)
	zz.Ensures("login name round trips", d.LoginName == b.LoginName)
	zz.Ensures("login password round trips", d.LoginPassword == b.LoginPassword)
}

//gov:prop C03
//gov:func (*Bind).ToResponse
//gov:func (*BindRsp).Encode
//gov:func (*BindRsp).Decode
func ZvBindRsp() {
	b := &Bind{}
	b.SequenceNumber = zvSeq()
	code := zz.U32("code")
	zz.Requires(code <= 255)
	r := b.ToResponse(code).(*BindRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 21)
	zz.Ensures("header carries the request's sequence", zvHead(f, 21, SGIP_BIND_RESP, b.SequenceNumber))
	zz.Ensures("result at 20", uint32(f[20]) == code)
	d := &BindRsp{}
	err := d.Decode(b.SequenceNumber[0], f[12:])
	zz.Ensures("response round trips", err == nil && uint32(d.Status) == code && zvSeqIs(d.SequenceNumber, b.SequenceNumber) && d.CommandId == SGIP_BIND_RESP && d.PacketLength == 21)
}

func zvSubmit(n int) *Submit {
	s := &Submit{}
	s.CommandId = SGIP_SUBMIT
	s.SequenceNumber = zvSeq()
	s.SPNumber = zz.CStr("SPNumber", 0, 21)
	s.ChargeNumber = zz.CStr("ChargeNumber", 0, 21)
	s.UserCount = byte(n)
	for i := 0; i < n; i++ {
		s.UserNumber = append(s.UserNumber, zz.CStr("UserNumber", 0, 21))
	}
	s.CorpId = zz.CStr("CorpId", 0, 5)
	s.ServiceType = zz.CStr("ServiceType", 0, 10)
	s.FeeType = zz.U8("FeeType")
	s.FeeValue = zz.CStr("FeeValue", 0, 6)
	s.GivenValue = zz.CStr("GivenValue", 0, 6)
	s.AgentFlag = zz.U8("AgentFlag")
	s.MorelatetoMTFlag = zz.U8("MorelatetoMTFlag")
	s.Priority = zz.U8("Priority")
	s.ExpireTime = zz.CStr("ExpireTime", 0, 16)
	s.ScheduleTime = zz.CStr("ScheduleTime", 0, 16)
	s.ReportFlag = zz.U8("ReportFlag")
	s.TpPid = zz.U8("TpPid")
	s.TpUdhi = zz.U8("TpUdhi")
	s.MessageCoding = zz.U8("MessageCoding")
	s.MessageType = zz.U8("MessageType")
	s.MessageContent = zz.Bytes("MessageContent", 0, 2000)
	s.MessageLength = uint32(len(s.MessageContent))
	s.Reserve = zz.CStr("Reserve", 0, 8)
	s.PacketLength = uint32(MtBaseLen + n*21 + len(s.MessageContent))
	return s
}

func zvSubmitLayout(f []byte, s *Submit) {
	zz.Ensures("frame length is the declared length", uint32(len(f)) == s.PacketLength)
	zz.Ensures("header", zvHead(f, s.PacketLength, SGIP_SUBMIT, s.SequenceNumber))
	zz.Ensures("SPNumber at 20", zvField(f, 20, 21, s.SPNumber))
	zz.Ensures("ChargeNumber at 41", zvField(f, 41, 21, s.ChargeNumber))
	zz.Ensures("UserCount at 62", f[62] == s.UserCount)
	i := 63
	for _, t := range s.UserNumber {
		zz.Ensures("UserNumber entries", zvField(f, i, 21, t))
		i += 21
	}
	zz.Ensures("CorpId", zvField(f, i, 5, s.CorpId))
	zz.Ensures("ServiceType", zvField(f, i+5, 10, s.ServiceType))
	zz.Ensures("FeeType", f[i+15] == s.FeeType)
	zz.Ensures("FeeValue", zvField(f, i+16, 6, s.FeeValue))
	zz.Ensures("GivenValue", zvField(f, i+22, 6, s.GivenValue))
	zz.Ensures("AgentFlag, MorelatetoMTFlag, Priority", f[i+28] == s.AgentFlag && f[i+29] == s.MorelatetoMTFlag && f[i+30] == s.Priority)
	zz.Ensures("ExpireTime", zvField(f, i+31, 16, s.ExpireTime))
	zz.Ensures("ScheduleTime", zvField(f, i+47, 16, s.ScheduleTime))
	zz.Ensures("ReportFlag, TpPid, TpUdhi, MessageCoding, MessageType", f[i+63] == s.ReportFlag && f[i+64] == s.TpPid && f[i+65] == s.TpUdhi && f[i+66] == s.MessageCoding && f[i+67] == s.MessageType)
	zz.Ensures("MessageLength", zvBe32(f, i+68) == uint32(len(s.MessageContent)))
	zz.Ensures("MessageContent", zz.EqBytes(f[i+72:i+72+len(s.MessageContent)], s.MessageContent))
	zz.Ensures("Reserve last", zvField(f, i+72+len(s.MessageContent), 8, s.Reserve))
}

func zvSubmitBack(d, s *Submit) {
	zz.Ensures("header round trips", d.PacketLength == s.PacketLength && d.CommandId == s.CommandId && zvSeqIs(d.SequenceNumber, s.SequenceNumber))
	zz.Ensures("scalar fields round trip", d.UserCount == s.UserCount && d.FeeType == s.FeeType && d.AgentFlag == s.AgentFlag && d.MorelatetoMTFlag == s.MorelatetoMTFlag &&
		d.Priority == s.Priority && d.ReportFlag == s.ReportFlag && d.TpPid == s.TpPid && d.TpUdhi == s.TpUdhi && d.MessageCoding == s.MessageCoding && d.MessageType == s.MessageType && d.MessageLength == s.MessageLength)
	zz.Ensures("SPNumber round trips", d.SPNumber == s.SPNumber)
	zz.Ensures("ChargeNumber round trips", d.ChargeNumber == s.ChargeNumber)
	zz.Ensures("CorpId round trips", d.CorpId == s.CorpId)
	zz.Ensures("ServiceType round trips", d.ServiceType == s.ServiceType)
	zz.Ensures("FeeValue round trips", d.FeeValue == s.FeeValue)
	zz.Ensures("GivenValue round trips", d.GivenValue == s.GivenValue)
	zz.Ensures("ExpireTime round trips", d.ExpireTime == s.ExpireTime)
	zz.Ensures("ScheduleTime round trips", d.ScheduleTime == s.ScheduleTime)
	zz.Ensures("receiver count round trips", len(d.UserNumber) == len(s.UserNumber))
	for i, t := range s.UserNumber {
		zz.Ensures("receivers round trip", d.UserNumber[i] == t)
	}
}

//gov:prop C03
//gov:func (*Submit).Encode
//gov:func (*Submit).Decode
//gov:bounded receivers 0..3
//gov:split 4
func ZvSubmitRoundTrip() {
	s := zvSubmit(zz.Enum("receivers", 0, 3))
	f := s.Encode()
	zvSubmitLayout(f, s)
	d := &Submit{}
	err := d.Decode(s.SequenceNumber[0], f[12:])
	zz.Ensures("decodes", err == nil)
	zvSubmitBack(d, s)
	c := s.MessageContent
	part := s.TpUdhi == 1 && len(c) >= 6 && c[0] == 5 && c[1] == 0 && c[2] == 3
	if zz.Fork(!part) {
		zz.Ensures("content round trips", zz.EqBytes(d.MessageContent, c))
	} else if zz.Fork(s.MessageCoding == 8) {
		zz.Ensures("UCS-2 part decodes to its text", string(d.MessageContent) == zz.FromUcs2(string(c[6:])))
	} else {
		zz.Ensures("part decodes to what follows its header", zz.EqBytes(d.MessageContent, c[6:]))
	}
}

//gov:prop C03
//gov:func (*Submit).ToResponse
//gov:func (*SubmitRsp).Encode
//gov:func (*SubmitRsp).Decode
func ZvSubmitRsp() {
	s := &Submit{}
	s.SequenceNumber = zvSeq()
	code := zz.U32("code")
	zz.Requires(code <= 255)
	r := s.ToResponse(code).(*SubmitRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 29)
	zz.Ensures("header carries the request's sequence", zvHead(f, 29, SGIP_SUBMIT_RESP, s.SequenceNumber))
	zz.Ensures("result at 20", uint32(f[20]) == code)
	zz.Ensures("reserve at 21", zvField(f, 21, 8, ""))
	d := &SubmitRsp{}
	err := d.Decode(s.SequenceNumber[0], f[12:])
	zz.Ensures("response round trips", err == nil && uint32(d.Status) == code && zvSeqIs(d.SequenceNumber, s.SequenceNumber) && d.CommandId == SGIP_SUBMIT_RESP && d.PacketLength == 29)
}

func zvDeliverLayout(f []byte, d *Deliver) {
	zz.Ensures("frame length is the declared length", uint32(len(f)) == d.PacketLength)
	zz.Ensures("header", zvHead(f, d.PacketLength, SGIP_DELIVER, d.SequenceNumber))
	zz.Ensures("UserNumber at 20", zvField(f, 20, 21, d.UserNumber))
	zz.Ensures("SPNumber at 41", zvField(f, 41, 21, d.SPNumber))
	zz.Ensures("TpPid, TpUdhi, MessageCoding at 62", f[62] == d.TpPid && f[63] == d.TpUdhi && f[64] == d.MessageCoding)
	zz.Ensures("MessageLength at 65", zvBe32(f, 65) == uint32(len(d.MessageContent)) && int(d.PacketLength) == 77+len(d.MessageContent))
	zz.Ensures("MessageContent at 69", zz.EqBytes(f[69:69+len(d.MessageContent)], d.MessageContent))
	zz.Ensures("Reserve last", zvField(f, 69+len(d.MessageContent), 8, d.Reserve))
}

func zvDeliverBack(f []byte, d *Deliver) {
	b := &Deliver{}
	err := b.Decode(d.SequenceNumber[0], f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("header round trips", b.PacketLength == d.PacketLength && b.CommandId == d.CommandId && zvSeqIs(b.SequenceNumber, d.SequenceNumber))
	zz.Ensures("scalar fields round trip", b.TpPid == d.TpPid && b.TpUdhi == d.TpUdhi && b.MessageCoding == d.MessageCoding && b.MessageLength == d.MessageLength)
	zz.Ensures("UserNumber round trips", b.UserNumber == d.UserNumber)
	zz.Ensures("SPNumber round trips", b.SPNumber == d.SPNumber)
	zz.Ensures("content round trips", zz.EqBytes(b.MessageContent, d.MessageContent))
}

//gov:prop C03
//gov:func (*Deliver).Encode
//gov:func (*Deliver).Decode
func ZvDeliver() {
	d := &Deliver{UserNumber: zz.CStr("UserNumber", 0, 21), SPNumber: zz.CStr("SPNumber", 0, 21), TpPid: zz.U8("TpPid"), TpUdhi: zz.U8("TpUdhi"), MessageCoding: zz.U8("MessageCoding"), Reserve: zz.CStr("Reserve", 0, 8)}
	d.CommandId = SGIP_DELIVER
	d.SequenceNumber = zvSeq()
	d.MessageContent = zz.Bytes("MessageContent", 0, 2000)
	d.MessageLength = uint32(len(d.MessageContent))
	d.PacketLength = 77 + d.MessageLength
	f := d.Encode()
	zvDeliverLayout(f, d)
	zvDeliverBack(f, d)
}

// A mobile-originated message built by NewDeliver carries its text in the coding it declares.
//
//gov:prop C03
//gov:func NewDeliver
//gov:func (*Deliver).Encode
//gov:func (*Deliver).Decode
func ZvDeliverText() {
	zvSequencer()
	ac := &codec.AuthConf{SmsDisplayNo: zz.CStr("display", 0, 10)}
	txt := zz.CStr("txt", 0, 600)
	zz.Requires(zz.ValidUTF8(txt))
	phone := zz.CStr("phone", 0, 21)
	sub := zz.CStr("sub", 0, 11)
	d := NewDeliver(ac, phone, txt, sub).(*Deliver)
	single := zz.Fork(len([]rune(txt)) == len(txt)) // for valid UTF-8: every character is a single byte
	zz.Ensures("coding is ASCII for ASCII texts and UCS-2 for others", (d.MessageCoding == 0) == single && (d.MessageCoding == 8) == !single)
	zz.Ensures("user and command", d.UserNumber == phone && d.CommandId == SGIP_DELIVER)
	zz.Ensures("content is at most one message", len(d.MessageContent) <= 160)
	if single {
		if zz.Fork(len(txt) <= 160) {
			zz.Ensures("ASCII text as it is", string(d.MessageContent) == txt)
		} else {
			zz.Ensures("ASCII text cut to 160 bytes", string(d.MessageContent) == txt[:160])
		}
	} else if zz.Fork(len(zz.Ucs2(txt)) <= 140) {
		zz.Ensures("other text in UCS-2", string(d.MessageContent) == zz.Ucs2(txt))
	} else {
		zz.Ensures("other text in UCS-2, cut to 140 bytes", string(d.MessageContent) == zz.Ucs2(txt)[:140])
	}
	f := d.Encode()
	zvDeliverLayout(f, d)
	zvDeliverBack(f, d)
}

//gov:prop C03
//gov:func (*Deliver).ToResponse
//gov:func (*DeliverRsp).Encode
//gov:func (*DeliverRsp).Decode
func ZvDeliverRsp() {
	s := &Deliver{}
	s.SequenceNumber = zvSeq()
	code := zz.U32("code")
	zz.Requires(code <= 255)
	r := s.ToResponse(code).(*DeliverRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 29)
	zz.Ensures("header carries the request's sequence", zvHead(f, 29, SGIP_DELIVER_RESP, s.SequenceNumber))
	zz.Ensures("result at 20", uint32(f[20]) == code)
	zz.Ensures("reserve at 21", zvField(f, 21, 8, ""))
	d := &DeliverRsp{}
	err := d.Decode(s.SequenceNumber[0], f[12:])
	zz.Ensures("response round trips", err == nil && uint32(d.Status) == code && zvSeqIs(d.SequenceNumber, s.SequenceNumber) && d.CommandId == SGIP_DELIVER_RESP && d.PacketLength == 29)
}

//gov:prop C03
//gov:func NewReport
//gov:func (*Report).Encode
//gov:func (*Report).Decode
func ZvReport() {
	zvSequencer()
	mt := []uint32{zz.U32("mt0"), zz.U32("mt1"), zz.U32("mt2")}
	phone, state, code := zz.CStr("phone", 0, 21), zz.U8("state"), zz.U8("code")
	r := NewReport(phone, mt, Status(state), code).(*Report)
	r.ReportType = zz.U8("type")
	r.Reserve = zz.CStr("Reserve", 0, 8)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 64)
	zz.Ensures("header", zvHead(f, 64, SGIP_REPORT, r.SequenceNumber))
	zz.Ensures("sequence of the submit at 20", zvBe32(f, 20) == mt[0] && zvBe32(f, 24) == mt[1] && zvBe32(f, 28) == mt[2])
	zz.Ensures("report type at 32", f[32] == r.ReportType)
	zz.Ensures("user number at 33", zvField(f, 33, 21, phone))
	zz.Ensures("state and error code at 54", f[54] == state && f[55] == code)
	zz.Ensures("reserve at 56", zvField(f, 56, 8, r.Reserve))
	d := &Report{}
	err := d.Decode(r.SequenceNumber[0], f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("header round trips", d.PacketLength == 64 && d.CommandId == SGIP_REPORT && zvSeqIs(d.SequenceNumber, r.SequenceNumber))
	zz.Ensures("report round trips", zvSeqIs(d.MtSequence, mt) && d.ReportType == r.ReportType && d.State == r.State && d.ErrorCode == r.ErrorCode)
	zz.Ensures("user number round trips", d.UserNumber == r.UserNumber)
}

//gov:prop C03
//gov:func (*Report).ToResponse
//gov:func (*ReportRsp).Encode
//gov:func (*ReportRsp).Decode
func ZvReportRsp() {
	s := &Report{}
	s.SequenceNumber = zvSeq()
	code := zz.U32("code")
	zz.Requires(code <= 255)
	r := s.ToResponse(code).(*ReportRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 29)
	zz.Ensures("header carries the request's sequence", zvHead(f, 29, SGIP_REPORT_RESP, s.SequenceNumber))
	zz.Ensures("result at 20", uint32(f[20]) == code)
	zz.Ensures("reserve at 21", zvField(f, 21, 8, ""))
	d := &ReportRsp{}
	err := d.Decode(s.SequenceNumber[0], f[12:])
	zz.Ensures("response round trips", err == nil && uint32(d.Status) == code && zvSeqIs(d.SequenceNumber, s.SequenceNumber) && d.CommandId == SGIP_REPORT_RESP && d.PacketLength == 29)
}

//gov:prop C03
//gov:func NewUnbind
//gov:func (*Unbind).Encode
//gov:func (*Unbind).Decode
//gov:func (*UnbindRsp).Encode
//gov:func (*UnbindRsp).Decode
func ZvUnbind() {
	zvSequencer()
	u := NewUnbind()
	f := u.Encode()
	zz.Ensures("unbind is a bare header", len(f) == 20 && zvHead(f, 20, SGIP_UNBIND, u.SequenceNumber))
	d := &Unbind{}
	zz.Ensures("unbind round trips", d.Decode(u.SequenceNumber[0], f[12:]) == nil && d.PacketLength == 20 && d.CommandId == SGIP_UNBIND && zvSeqIs(d.SequenceNumber, u.SequenceNumber))
	r := u.ToResponse(0).(*UnbindRsp)
	f = r.Encode()
	zz.Ensures("unbind response is a bare header", len(f) == 20 && zvHead(f, 20, SGIP_UNBIND_RESP, u.SequenceNumber))
	b := &UnbindRsp{}
	zz.Ensures("unbind response round trips", b.Decode(u.SequenceNumber[0], f[12:]) == nil && b.PacketLength == 20 && b.CommandId == SGIP_UNBIND_RESP && zvSeqIs(b.SequenceNumber, u.SequenceNumber))
}
