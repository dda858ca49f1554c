package smgp

import (
	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/utils"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C02: SMGP packets on the wire

//gov:prop C02
//gov:func (*MessageHeader).Encode
//gov:func (*MessageHeader).Decode
func ZvHeader() {
	h := &MessageHeader{PacketLength: zz.U32("total"), RequestId: CommandId(zz.U32("cmd")), SequenceId: zz.U32("seq")}
	zz.Requires(h.PacketLength <= 100000)
	t := h.PacketLength
	f := h.Encode()
	if t < 12 {
		t = 12
	}
	zz.Ensures("frame has the declared length, at least a header", uint32(len(f)) == t && h.PacketLength == t)
	zz.Ensures("header words in order, big endian", zvHead(f, t, h.RequestId, h.SequenceId))
	zz.Ensures("body zeroed", zz.Forall(12, len(f), func(i int) bool { return f[i] == 0 }))
	d := &MessageHeader{}
	err := d.Decode(f)
	zz.Ensures("header round trips", err == nil && *d == *h)
	p, c, s := codec.UnpackHead(f)
	zz.Ensures("UnpackHead agrees", p == t && c == uint32(h.RequestId) && s == h.SequenceId)
}

//gov:prop C02
//gov:func (*Login).Encode
//gov:func (*Login).Decode
func ZvLogin() {
	c := &Login{}
	c.PacketLength = LoginLen
	c.RequestId = SMGP_LOGIN
	c.SequenceId = zz.U32("seq")
	c.clientID = zz.CStr("client", 0, 8)
	c.authenticatorClient = zz.Bytes("auth", 16, 16)
	c.loginMode = zz.U8("mode")
	c.timestamp = zz.U32("ts")
	c.Version = Version(zz.U8("version"))
	f := c.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 42)
	zz.Ensures("header", zvHead(f, 42, SMGP_LOGIN, c.SequenceId))
	zz.Ensures("client id at 12", zvField(f, 12, 8, c.clientID))
	zz.Ensures("authenticator at 20", zz.EqBytes(f[20:36], c.authenticatorClient))
	zz.Ensures("login mode at 36", f[36] == c.loginMode)
	zz.Ensures("timestamp at 37", zvBe32(f, 37) == c.timestamp)
	zz.Ensures("version at 41", f[41] == byte(c.Version))
	d := &Login{}
	err := d.Decode(c.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("client id round trips", d.ClientID() == c.ClientID())
	zz.Ensures("authenticator round trips", zz.EqBytes(d.AuthenticatorClient(), c.AuthenticatorClient()))
	zz.Ensures("other fields round trip", d.Version == c.Version && d.LoginMode() == c.LoginMode() && d.Timestamp() == c.Timestamp() && d.MessageHeader == c.MessageHeader)
}

//gov:prop C02
//gov:func (*Login).ToResponse
//gov:func (*LoginRsp).Encode
//gov:func (*LoginRsp).Decode
func ZvLoginRsp() {
	c := &Login{}
	c.SequenceId = zz.U32("seq")
	c.authenticatorClient = zz.Bytes("auth", 16, 16)
	c.Version = Version(zz.U8("version"))
	c.SetSecret(zz.Str("secret", 0, 40))
	code := zz.U32("code")
	r := c.ToResponse(code).(*LoginRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 33)
	zz.Ensures("header", zvHead(f, 33, SMGP_LOGIN_RESP, c.SequenceId))
	zz.Ensures("status word at 12", zvBe32(f, 12) == code)
	zz.Ensures("authenticator at 16", zz.EqBytes(f[16:32], r.AuthenticatorServer()))
	zz.Ensures("version at 32", f[32] == byte(c.Version))
	d := &LoginRsp{}
	err := d.Decode(c.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", d.Status() == Status(code) && d.Version == c.Version && d.MessageHeader == r.MessageHeader)
	zz.Ensures("response authenticator round trips", zz.EqBytes(d.AuthenticatorServer(), r.AuthenticatorServer()))
}

// zvSubmit is an arbitrary well-formed submit packet with n receivers.
func zvSubmit(n int) *Submit {
	s := &Submit{}
	s.RequestId = SMGP_SUBMIT
	s.SequenceId = zz.U32("seq")
	s.msgType = zz.U8("msgType")
	s.needReport = zz.U8("needReport")
	s.priority = zz.U8("priority")
	s.serviceID = zz.CStr("serviceID", 0, 10)
	s.feeType = zz.CStr("feeType", 0, 2)
	s.feeCode = zz.CStr("feeCode", 0, 6)
	s.fixedFee = zz.CStr("fixedFee", 0, 6)
	s.msgFormat = zz.U8("msgFormat")
	s.validTime = zz.CStr("validTime", 0, 17)
	s.atTime = zz.CStr("atTime", 0, 17)
	s.srcTermID = zz.CStr("srcTermID", 0, 21)
	s.chargeTermID = zz.CStr("chargeTermID", 0, 21)
	s.destTermIDCount = byte(n)
	for i := 0; i < n; i++ {
		s.destTermID = append(s.destTermID, zz.CStr("dest", 0, 21))
	}
	s.msgLength = zz.U8("msgLength")
	s.msgContent = zz.Bytes("msgContent", int(s.msgLength), int(s.msgLength))
	s.reserve = zz.CStr("reserve", 0, 8)
	s.PacketLength = uint32(126 + n*21 + len(s.msgContent))
	return s
}

func zvSubmitLayout(f []byte, s *Submit) {
	zz.Ensures("frame length is the declared length", uint32(len(f)) == s.PacketLength)
	zz.Ensures("header", zvHead(f, s.PacketLength, SMGP_SUBMIT, s.SequenceId))
	zz.Ensures("type, report, priority", f[12] == s.msgType && f[13] == s.needReport && f[14] == s.priority)
	zz.Ensures("serviceID at 15", zvField(f, 15, 10, s.serviceID))
	zz.Ensures("feeType at 25", zvField(f, 25, 2, s.feeType))
	zz.Ensures("feeCode at 27", zvField(f, 27, 6, s.feeCode))
	zz.Ensures("fixedFee at 33", zvField(f, 33, 6, s.fixedFee))
	zz.Ensures("msgFormat at 39", f[39] == s.msgFormat)
	zz.Ensures("validTime at 40", zvField(f, 40, 17, s.validTime))
	zz.Ensures("atTime at 57", zvField(f, 57, 17, s.atTime))
	zz.Ensures("srcTermID at 74", zvField(f, 74, 21, s.srcTermID))
	zz.Ensures("chargeTermID at 95", zvField(f, 95, 21, s.chargeTermID))
	zz.Ensures("receiver count at 116", f[116] == s.destTermIDCount)
	i := 117
	for _, t := range s.destTermID {
		zz.Ensures("receivers", zvField(f, i, 21, t))
		i += 21
	}
	zz.Ensures("msgLength", f[i] == s.msgLength)
	i++
	zz.Ensures("content", zz.EqBytes(f[i:i+len(s.msgContent)], s.msgContent))
	i += len(s.msgContent)
	zz.Ensures("reserve", zvField(f, i, 8, s.reserve))
}

func zvSubmitBack(d, s *Submit) {
	zz.Ensures("header round trips", d.MessageHeader == s.MessageHeader)
	zz.Ensures("scalar fields round trip", d.MsgType() == s.MsgType() && d.NeedReport() == s.NeedReport() && d.Priority() == s.Priority() && d.MsgFormat() == s.MsgFormat() && d.MsgLength() == s.MsgLength())
	zz.Ensures("serviceID round trips", d.ServiceID() == s.ServiceID())
	zz.Ensures("feeType round trips", d.FeeType() == s.FeeType())
	zz.Ensures("feeCode round trips", d.FeeCode() == s.FeeCode())
	zz.Ensures("fixedFee round trips", d.FixedFee() == s.FixedFee())
	zz.Ensures("validTime round trips", d.ValidTime() == s.ValidTime())
	zz.Ensures("atTime round trips", d.AtTime() == s.AtTime())
	zz.Ensures("srcTermID round trips", d.SrcTermID() == s.SrcTermID())
	zz.Ensures("chargeTermID round trips", d.ChargeTermID() == s.ChargeTermID())
	zz.Ensures("reserve round trips", d.Reserve() == s.Reserve())
	zz.Ensures("receiver count round trips", d.DestTermIDCount() == s.DestTermIDCount() && len(d.DestTermID()) == len(s.DestTermID()))
	for i, t := range s.destTermID {
		zz.Ensures("receivers round trip", d.DestTermID()[i] == t)
	}
}

// zvText: the text a content of this format stands for.
func zvText(format byte, c []byte) string {
	switch format {
	case 4:
		return string(c)
	case 8:
		return zz.FromUcs2(string(c))
	}
	return zz.FromGB(string(c))
}

//gov:prop C02
//gov:func (*Submit).Encode
//gov:func (*Submit).Decode
//gov:bounded receivers 0..3
//gov:split 4
func ZvSubmitRoundTrip() {
	s := zvSubmit(zz.Enum("receivers", 0, 3))
	f := s.Encode()
	zvSubmitLayout(f, s)
	d := &Submit{}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zvSubmitBack(d, s)
	zz.Ensures("content decodes to the text its format declares", string(d.MsgContent()) == zvText(s.msgFormat, s.msgContent))
	zz.Ensures("no optional parameters appear", d.TlvList() == nil)
}

// zvSubmitPlain is a submit packet whose content and optional parameters are set by the caller.
func zvSubmitPlain() *Submit {
	s := &Submit{msgType: 6, msgFormat: zz.U8("msgFormat"), serviceID: "svc", srcTermID: "10690", destTermIDCount: 1, destTermID: []string{"13800138000"}}
	s.RequestId = SMGP_SUBMIT
	s.SequenceId = zz.U32("seq")
	s.msgLength = zz.U8("msgLength")
	s.msgContent = zz.Bytes("msgContent", int(s.msgLength), int(s.msgLength))
	s.PacketLength = uint32(126 + 21 + len(s.msgContent))
	s.tlvList = utils.NewTlvList()
	return s
}

// Optional parameters follow the reserve field and come back in order with their values.
//
//gov:prop C02
//gov:func (*Submit).Encode
//gov:func (*Submit).Decode
//gov:bounded 1..2 optional parameters of arbitrary tag, length and value
func ZvSubmitTlv() {
	s := zvSubmitPlain()
	n := zz.Enum("tlvs", 1, 2)
	var tags []uint16
	var vals [][]byte
	at := int(s.PacketLength)
	l := 0
	for i := 0; i < n; i++ {
		tag := zz.U16("tag")
		val := zz.Bytes("val", 0, 200)
		zz.Requires(tag != TP_udhi)
		s.tlvList.Add(tag, val)
		tags = append(tags, tag)
		vals = append(vals, val)
		l += 4 + len(val)
	}
	s.PacketLength += uint32(l)
	f := s.Encode()
	zz.Ensures("frame length is the declared length", uint32(len(f)) == s.PacketLength && zvHead(f, s.PacketLength, SMGP_SUBMIT, s.SequenceId))
	i0 := at
	for i := 0; i < n; i++ {
		k := len(vals[i])
		zz.Ensures("optional parameter tag and length", f[i0] == byte(tags[i]>>8) && f[i0+1] == byte(tags[i]) && int(f[i0+2])<<8|int(f[i0+3]) == k)
		zz.Ensures("optional parameter value", zz.EqBytes(f[i0+4:i0+4+k], vals[i]))
		i0 += 4 + k
	}
	d := &Submit{}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("all optional parameters come back", d.TlvList() != nil && int(d.TlvList().Length()) == n)
	v, e := d.TlvList().Get(tags[0])
	zz.Ensures("first optional parameter round trips", e == nil && v.Type() == tags[0] && zz.EqBytes(v.Value(), vals[0]))
	if n == 2 && zz.Fork(tags[1] != tags[0]) {
		v, e = d.TlvList().Get(tags[1])
		zz.Ensures("second optional parameter round trips", e == nil && v.Type() == tags[1] && zz.EqBytes(v.Value(), vals[1]))
	}
	zz.Ensures("content decodes to the text its format declares", string(d.MsgContent()) == zvText(s.msgFormat, s.msgContent))
}

// A part of a long message declares its user data header with TP_udhi; its text is what follows the header.
//
//gov:prop C02
//gov:func (*Submit).Encode
//gov:func (*Submit).Decode
func ZvSubmitSegment() {
	s := zvSubmitPlain()
	c := s.msgContent
	udhi := zz.U8("udhi")
	total, number := zz.U8("total"), zz.U8("number")
	hdr := zz.Fork(len(c) >= 6 && c[0] == 5 && c[1] == 0 && c[2] == 3)
	u := zz.Fork(udhi == 1)
	s.tlvList.Add(TP_pid, []byte{0})
	s.tlvList.Add(TP_udhi, []byte{udhi})
	s.tlvList.Add(PkTotal, []byte{total})
	s.tlvList.Add(PkNumber, []byte{number})
	s.PacketLength += 20
	f := s.Encode()
	zz.Ensures("frame length is the declared length", uint32(len(f)) == s.PacketLength && zvHead(f, s.PacketLength, SMGP_SUBMIT, s.SequenceId))
	d := &Submit{}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("all optional parameters come back", d.TlvList() != nil && d.TlvList().Length() == 4)
	t, e1 := d.TlvList().Get(PkTotal)
	k, e2 := d.TlvList().Get(PkNumber)
	zz.Ensures("part numbers round trip", e1 == nil && e2 == nil && len(t.Value()) == 1 && len(k.Value()) == 1 && t.Value()[0] == total && k.Value()[0] == number)
	if u && hdr {
		c = c[6:]
	}
	zz.Ensures("content decodes to the text after its declared user data header", string(d.MsgContent()) == zvText(s.msgFormat, c))
	zz.Ensures("declared length kept", d.MsgLength() == s.MsgLength() && d.PacketLength == s.PacketLength)
}

//gov:prop C02
//gov:func (*Submit).ToResponse
//gov:func (*SubmitRsp).Encode
//gov:func (*SubmitRsp).Decode
func ZvSubmitRsp() {
	zvSequences()
	s := &Submit{Version: Version(zz.U8("version"))}
	s.SequenceId = zz.U32("seq")
	code := zz.U32("code")
	r := s.ToResponse(code).(*SubmitRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 26)
	zz.Ensures("header", zvHead(f, 26, SMGP_SUBMIT_RESP, s.SequenceId))
	zz.Ensures("msgId at 12", zz.EqBytes(f[12:22], r.MsgId()))
	zz.Ensures("status word at 22", zvBe32(f, 22) == code)
	d := &SubmitRsp{}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", zz.EqBytes(d.MsgId(), r.MsgId()) && d.Status() == r.Status() && d.MessageHeader == r.MessageHeader)
}

func zvReport() *Report {
	return &Report{
		id:         zz.Bytes("rpt.id", 10, 10),
		sub:        zz.CStr("rpt.sub", 3, 3),
		dlvrd:      zz.CStr("rpt.dlvrd", 3, 3),
		submitDate: zz.CStr("rpt.submitDate", 10, 10),
		doneDate:   zz.CStr("rpt.doneDate", 10, 10),
		stat:       zz.CStr("rpt.stat", 7, 7),
		err:        zz.CStr("rpt.err", 3, 3),
	}
}

func zvAt(f []byte, i int, s string) bool { return string(f[i:i+len(s)]) == s }

// zvReportAt: id:<10> sub:<3> dlvrd:<3> submit date:<10> done date:<10> stat:<7> err:<3> text:<20>
func zvReportAt(f []byte, i int, r *Report) bool {
	return zvAt(f, i, "id:") && zz.EqBytes(f[i+3:i+13], r.id) &&
		zvAt(f, i+13, " sub:") && zvAt(f, i+18, r.sub) &&
		zvAt(f, i+21, " dlvrd:") && zvAt(f, i+28, r.dlvrd) &&
		zvAt(f, i+31, " submit date:") && zvAt(f, i+44, r.submitDate) &&
		zvAt(f, i+54, " done date:") && zvAt(f, i+65, r.doneDate) &&
		zvAt(f, i+75, " stat:") && zvAt(f, i+81, r.stat) &&
		zvAt(f, i+88, " err:") && zvAt(f, i+93, r.err) &&
		zvAt(f, i+96, " text:")
}

func zvReportBack(d, r *Report) {
	zz.Ensures("report id round trips", zz.EqBytes(d.Id(), r.Id()))
	zz.Ensures("report sub round trips", d.Sub() == r.Sub())
	zz.Ensures("report dlvrd round trips", d.Dlvrd() == r.Dlvrd())
	zz.Ensures("report dates round trip", d.SubmitDate() == r.SubmitDate() && d.DoneDate() == r.DoneDate())
	zz.Ensures("report stat round trips", d.Stat() == r.Stat())
	zz.Ensures("report err round trips", d.err == r.err)
}

//gov:prop C02
//gov:func (*Report).Encode
//gov:func (*Report).Decode
func ZvReport() {
	r := zvReport()
	f := r.Encode()
	zz.Ensures("report is 122 bytes", len(f) == 122 && RptLen == 122)
	zz.Ensures("report layout", zvReportAt(f, 0, r))
	d := &Report{}
	zz.Ensures("decodes", d.Decode(f) == nil)
	zvReportBack(d, r)
}

func zvDeliverEnv() *Delivery {
	d := &Delivery{}
	d.RequestId = SMGP_DELIVER
	d.SequenceId = zz.U32("seq")
	d.msgId = zz.Bytes("msgId", 10, 10)
	d.msgFormat = zz.U8("msgFormat")
	d.recvTime = zz.CStr("recvTime", 0, 14)
	d.srcTermID = zz.CStr("srcTermID", 0, 21)
	d.destTermID = zz.CStr("destTermID", 0, 21)
	d.reserve = zz.CStr("reserve", 0, 8)
	return d
}

func zvDeliverLayout(f []byte, d *Delivery) {
	zz.Ensures("frame length is the declared length", uint32(len(f)) == d.PacketLength)
	zz.Ensures("header", zvHead(f, d.PacketLength, SMGP_DELIVER, d.SequenceId))
	zz.Ensures("msgId at 12", zz.EqBytes(f[12:22], d.MsgId()))
	zz.Ensures("isReport, msgFormat at 22", (f[22] == 1) == d.IsReport() && f[23] == d.MsgFormat())
	zz.Ensures("recvTime at 24", zvField(f, 24, 14, d.RecvTime()))
	zz.Ensures("srcTermID at 38", zvField(f, 38, 21, d.SrcTermID()))
	zz.Ensures("destTermID at 59", zvField(f, 59, 21, d.DestTermID()))
	zz.Ensures("msgLength at 80 counts the content", f[80] == d.MsgLength() && len(f) == 81+int(d.MsgLength())+8)
	zz.Ensures("reserve last", zvField(f, len(f)-8, 8, d.Reserve()))
}

func zvDeliverBack(d *Delivery, f []byte) *Delivery {
	b := &Delivery{}
	err := b.Decode(d.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("scalar fields round trip", b.IsReport() == d.IsReport() && b.MsgFormat() == d.MsgFormat() && b.MsgLength() == d.MsgLength() && b.MessageHeader == d.MessageHeader)
	zz.Ensures("msgId round trips", zz.EqBytes(b.MsgId(), d.MsgId()))
	zz.Ensures("recvTime round trips", b.RecvTime() == d.RecvTime())
	zz.Ensures("srcTermID round trips", b.SrcTermID() == d.SrcTermID())
	zz.Ensures("destTermID round trips", b.DestTermID() == d.DestTermID())
	return b
}

//gov:prop C02
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverReport() {
	d := zvDeliverEnv()
	d.isReport = 1
	d.report = zvReport()
	d.msgLength = 122
	d.PacketLength = 89 + 122
	f := d.Encode()
	zvDeliverLayout(f, d)
	zz.Ensures("report in the content", zvReportAt(f, 81, d.report))
	b := zvDeliverBack(d, f)
	zz.Ensures("report present", b.Report() != nil)
	zvReportBack(b.Report(), d.report)
}

//gov:prop C02
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverContent() {
	d := zvDeliverEnv()
	d.isReport = zz.U8("isReport")
	zz.Requires(d.isReport != 1)
	d.msgLength = zz.U8("msgLength")
	d.msgBytes = zz.Bytes("msgBytes", int(d.msgLength), int(d.msgLength))
	d.PacketLength = 89 + uint32(d.msgLength)
	f := d.Encode()
	zvDeliverLayout(f, d)
	zz.Ensures("content at 81", zz.EqBytes(f[81:81+int(d.msgLength)], d.msgBytes))
	b := zvDeliverBack(d, f)
	zz.Ensures("content decodes to the text its format declares", b.MsgContent() == zvText(d.msgFormat, d.msgBytes))
}

// A mobile-originated message built by NewDeliver carries its text, cut to 70 characters.
//
//gov:prop C02
//gov:func NewDeliver
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverText() {
	zvSequences()
	ac := &codec.AuthConf{Version: zz.U8("version"), SmsDisplayNo: zz.CStr("display", 0, 10)}
	txt := zz.CStr("txt", 0, 250)
	zz.Requires(zz.ValidUTF8(txt) && zz.GBBack(txt) && len([]rune(txt)) <= 70 && len(zz.GB(txt)) <= 255)
	phone := zz.CStr("phone", 0, 21)
	sub := zz.CStr("sub", 0, 11)
	seq := zz.U32("seq")
	d := NewDeliver(ac, phone, sub, txt, seq).(*Delivery)
	zz.Ensures("addressed", d.DestTermID() == ac.SmsDisplayNo+sub && d.SrcTermID() == phone && d.SequenceId == seq && d.RequestId == SMGP_DELIVER && !d.IsReport())
	f := d.Encode()
	zvDeliverLayout(f, d)
	zz.Ensures("format is GB18030", d.MsgFormat() == 15)
	n := int(d.MsgLength())
	zz.Ensures("content on the wire is the encoded text", string(f[81:81+n]) == zz.GB(txt))
	b := zvDeliverBack(d, f)
	zz.Ensures("text round trips", b.MsgContent() == txt)
}

// A status report built for a submit is addressed back to its sender and carries the id of the message.
//
//gov:prop C02
//gov:func NewDeliveryReport
//gov:func NewReport
func ZvNewDeliveryReport() {
	zvSequences()
	ac := &codec.AuthConf{Version: zz.U8("version")}
	mt := &Submit{destTermID: []string{zz.CStr("dest", 0, 21)}, srcTermID: zz.CStr("src", 0, 21)}
	id := zz.Bytes("id", 10, 10)
	seq := zz.U32("seq")
	d := NewDeliveryReport(ac, mt, seq, id)
	zz.Ensures("addressed to the sender", d.SrcTermID() == mt.destTermID[0] && d.DestTermID() == mt.srcTermID && d.SequenceId == seq && d.IsReport())
	f := d.Encode()
	zvDeliverLayout(f, d)
	zz.Ensures("report in the content", zvReportAt(f, 81, d.Report()))
	zz.Ensures("report names the message", zz.EqBytes(d.Report().Id(), id))
	b := zvDeliverBack(d, f)
	zvReportBack(b.Report(), d.Report())
}

//gov:prop C02
//gov:func (*Delivery).ToResponse
//gov:func (*DeliverRsp).Encode
//gov:func (*DeliverRsp).Decode
func ZvDeliverRsp() {
	d := &Delivery{}
	d.SequenceId = zz.U32("seq")
	d.msgId = zz.Bytes("msgId", 10, 10)
	code := zz.U32("code")
	r := d.ToResponse(code).(*DeliverRsp)
	f := r.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 26)
	zz.Ensures("header", zvHead(f, 26, SMGP_DELIVER_RESP, d.SequenceId))
	zz.Ensures("msgId of the delivery at 12", zz.EqBytes(f[12:22], d.msgId))
	zz.Ensures("status word at 22", zvBe32(f, 22) == code)
	b := &DeliverRsp{}
	err := b.Decode(d.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", zz.EqBytes(b.msgId, r.msgId) && b.Status() == r.Status() && b.MessageHeader == r.MessageHeader)
}

//gov:prop C02
//gov:func (*ActiveTest).Encode
//gov:func (*ActiveTestRsp).Encode
//gov:func (*Exit).Encode
//gov:func (*ExitRsp).Encode
func ZvHeaderOnly() {
	seq := zz.U32("seq")
	at := NewActiveTest(seq)
	f := at.Encode()
	zz.Ensures("active test is a bare header", len(f) == 12 && zvHead(f, 12, SMGP_ACTIVE_TEST, seq))
	at2 := &ActiveTest{}
	zz.Ensures("active test round trips", at2.Decode(seq, f[12:]) == nil && *at2 == *at)
	ar := at.ToResponse(0).(*ActiveTestRsp)
	f = ar.Encode()
	zz.Ensures("active test response is a bare header", len(f) == 12 && zvHead(f, 12, SMGP_ACTIVE_TEST_RESP, seq))
	ar2 := &ActiveTestRsp{}
	zz.Ensures("active test response round trips", ar2.Decode(seq, f[12:]) == nil && *ar2 == *ar)
	tm := NewExit(seq)
	f = tm.Encode()
	zz.Ensures("exit is a bare header", len(f) == 12 && zvHead(f, 12, SMGP_EXIT, seq))
	tm2 := &Exit{}
	zz.Ensures("exit round trips", tm2.Decode(seq, f[12:]) == nil && *tm2 == *tm)
	tr := tm.ToResponse(0).(*ExitRsp)
	f = tr.Encode()
	zz.Ensures("exit response is a bare header", len(f) == 12 && zvHead(f, 12, SMGP_EXIT_RESP, seq))
	tr2 := &ExitRsp{}
	zz.Ensures("exit response round trips", tr2.Decode(seq, f[12:]) == nil && *tr2 == *tr)
}
