package cmpp

import (
	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C01: CMPP packets on the wire

//gov:prop C01
//gov:func (*MessageHeader).Encode
//gov:func (*MessageHeader).Decode
func ZvHeader() {
	h := &MessageHeader{TotalLength: zz.U32("total"), CommandId: CommandId(zz.U32("cmd")), SequenceId: zz.U32("seq")}
	zz.Requires(h.TotalLength <= 100000)
	t := h.TotalLength
	f := h.Encode()
	if t < 12 {
		t = 12
	}
	zz.Ensures("frame has the declared length, at least a header", uint32(len(f)) == t && h.TotalLength == t)
	zz.Ensures("header words in order, big endian", zvHead(f, t, h.CommandId, h.SequenceId))
	zz.Ensures("body zeroed", zz.Forall(12, len(f), func(i int) bool { return f[i] == 0 }))
	d := &MessageHeader{}
	err := d.Decode(f)
	zz.Ensures("header round trips", err == nil && *d == *h)
	p, c, s := codec.UnpackHead(f)
	zz.Ensures("UnpackHead agrees", p == t && c == uint32(h.CommandId) && s == h.SequenceId)
}

//gov:prop C01
//gov:func (*Connect).Encode
//gov:func (*Connect).Decode
func ZvConnect() {
	c := &Connect{}
	c.TotalLength = ConnectPktLen
	c.CommandId = CMPP_CONNECT
	c.SequenceId = zz.U32("seq")
	c.sourceAddr = zz.CStr("src", 0, 6)
	c.authenticatorSource = zz.Bytes("auth", 16, 16)
	c.Version = zvVersion()
	c.timestamp = zz.U32("ts")
	f := c.Encode()
	zz.Ensures("frame length is the declared length", len(f) == 39)
	zz.Ensures("header", zvHead(f, 39, CMPP_CONNECT, c.SequenceId))
	zz.Ensures("source addr at 12", zvField(f, 12, 6, c.sourceAddr))
	zz.Ensures("authenticator at 18", zz.EqBytes(f[18:34], c.authenticatorSource))
	zz.Ensures("version at 34", f[34] == byte(c.Version))
	zz.Ensures("timestamp at 35", zvBe32(f, 35) == c.timestamp)
	d := &Connect{}
	err := d.Decode(c.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("sourceAddr round trips", d.SourceAddr() == c.SourceAddr())
	zz.Ensures("authenticator round trips", zz.EqBytes(d.AuthenticatorSource(), c.AuthenticatorSource()))
	zz.Ensures("other fields round trip", d.Version == c.Version && d.Timestamp() == c.Timestamp() && d.MessageHeader == c.MessageHeader)
}

//gov:prop C01
//gov:func (*Connect).ToResponse
//gov:func (*ConnectResp).Encode
//gov:func (*ConnectResp).Decode
func ZvConnectResp() {
	c := &Connect{}
	c.SequenceId = zz.U32("seq")
	c.sourceAddr = zz.CStr("src", 0, 6)
	c.Version = zvVersion()
	c.SetSecret(zz.Str("secret", 0, 40))
	code := zz.U8("code")
	r := c.ToResponse(uint32(code)).(*ConnectResp)
	f := r.Encode()
	n, o := 30, 13
	if zvIs3(c.Version) {
		n, o = 33, 16
	}
	zz.Ensures("frame length is the declared length", len(f) == n)
	zz.Ensures("header", zvHead(f, uint32(n), CMPP_CONNECT_RESP, c.SequenceId))
	if zvIs3(c.Version) {
		zz.Ensures("status word (3.x)", zvBe32(f, 12) == uint32(code))
	} else {
		zz.Ensures("status byte (2.x)", f[12] == code)
	}
	zz.Ensures("authenticator", zz.EqBytes(f[o:o+16], r.AuthenticatorISMG()))
	zz.Ensures("version last", f[n-1] == byte(c.Version))
	d := &ConnectResp{Version: c.Version}
	err := d.Decode(c.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", d.Status() == ConnStatus(code) && d.Version == c.Version && d.MessageHeader == r.MessageHeader)
	zz.Ensures("response authenticator round trips", zz.EqBytes(d.AuthenticatorISMG(), r.AuthenticatorISMG()))
}

// zvSubmit is an arbitrary well-formed submit packet: nUsr receivers, content of the declared length.
func zvSubmit(v Version) *Submit {
	s := &Submit{Version: v}
	s.CommandId = CMPP_SUBMIT
	s.SequenceId = zz.U32("seq")
	s.pkTotal = zz.U8("pkTotal")
	s.pkNumber = zz.U8("pkNumber")
	s.registeredDel = zz.U8("registeredDel")
	s.msgLevel = zz.U8("msgLevel")
	s.serviceId = zz.CStr("serviceId", 0, 10)
	s.feeUsertype = zz.U8("feeUsertype")
	idLen, base := 21, 138
	if zvIs3(v) {
		idLen, base = 32, 163
	}
	s.feeTerminalId = zz.CStr("feeTerminalId", 0, idLen)
	if zvIs3(v) {
		s.feeTerminalType = zz.U8("feeTerminalType")
		s.destTerminalType = zz.U8("destTerminalType")
		s.linkID = zz.CStr("linkID", 0, 20)
	}
	s.tpPid = zz.U8("tpPid")
	s.tpUdhi = zz.U8("tpUdhi")
	s.msgFmt = zz.U8("msgFmt")
	s.msgSrc = zz.CStr("msgSrc", 0, 6)
	s.feeType = zz.CStr("feeType", 0, 2)
	s.feeCode = zz.CStr("feeCode", 0, 6)
	s.validTime = zz.CStr("validTime", 0, 17)
	s.atTime = zz.CStr("atTime", 0, 17)
	s.srcId = zz.CStr("srcId", 0, 21)
	s.destUsrTl = zz.U8("destUsrTl")
	s.termIds = zz.Bytes("termIds", idLen*int(s.destUsrTl), idLen*int(s.destUsrTl))
	s.msgLength = zz.U8("msgLength")
	s.msgContent = zz.Bytes("msgContent", int(s.msgLength), int(s.msgLength))
	s.TotalLength = uint32(base + len(s.termIds) + len(s.msgContent))
	return s
}

//gov:prop C01
//gov:func (*Submit).Encode
func ZvSubmitEncode() {
	v := zvVersion()
	s := zvSubmit(v)
	f := s.Encode()
	zz.Ensures("frame length is the declared length", uint32(len(f)) == s.TotalLength)
	zz.Ensures("header", zvHead(f, s.TotalLength, CMPP_SUBMIT, s.SequenceId))
	zz.Ensures("msgId is zero", zvBe64(f, 12) == 0)
	zz.Ensures("pk, report, level", f[20] == s.pkTotal && f[21] == s.pkNumber && f[22] == s.registeredDel && f[23] == s.msgLevel)
	zz.Ensures("serviceId at 24", zvField(f, 24, 10, s.serviceId))
	zz.Ensures("feeUsertype at 34", f[34] == s.feeUsertype)
	i := 35
	if zvIs3(v) {
		zz.Ensures("feeTerminalId (3.x)", zvField(f, 35, 32, s.feeTerminalId))
		zz.Ensures("feeTerminalType (3.x)", f[67] == s.feeTerminalType)
		i = 68
	} else {
		zz.Ensures("feeTerminalId (2.x)", zvField(f, 35, 21, s.feeTerminalId))
		i = 56
	}
	zz.Ensures("tpPid, tpUdhi, msgFmt", f[i] == s.tpPid && f[i+1] == s.tpUdhi && f[i+2] == s.msgFmt)
	zz.Ensures("msgSrc", zvField(f, i+3, 6, s.msgSrc))
	zz.Ensures("feeType", zvField(f, i+9, 2, s.feeType))
	zz.Ensures("feeCode", zvField(f, i+11, 6, s.feeCode))
	zz.Ensures("validTime", zvField(f, i+17, 17, s.validTime))
	zz.Ensures("atTime", zvField(f, i+34, 17, s.atTime))
	zz.Ensures("srcId", zvField(f, i+51, 21, s.srcId))
	zz.Ensures("destUsrTl", f[i+72] == s.destUsrTl)
	i += 73
	zz.Ensures("receivers", zz.EqBytes(f[i:i+len(s.termIds)], s.termIds))
	i += len(s.termIds)
	if zvIs3(v) {
		zz.Ensures("destTerminalType (3.x)", f[i] == s.destTerminalType)
		i++
	}
	zz.Ensures("msgLength", f[i] == s.msgLength)
	i++
	zz.Ensures("content", zz.EqBytes(f[i:i+len(s.msgContent)], s.msgContent))
	i += len(s.msgContent)
	if zvIs3(v) {
		zz.Ensures("linkID (3.x)", zvField(f, i, 20, s.linkID))
	} else {
		zz.Ensures("reserve (2.x)", zvBe64(f, i) == 0)
	}
}

//gov:prop C01
//gov:func (*Submit).Decode
func ZvSubmitRoundTrip() {
	v := zvVersion()
	s := zvSubmit(v)
	// content of a concatenated part is covered by ZvSubmitSegment
	zz.Requires(s.tpUdhi != 1)
	f := s.Encode()
	d := &Submit{Version: v}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("header round trips", d.MessageHeader == s.MessageHeader)
	zz.Ensures("pk, report, level round trip", d.PkTotal() == s.PkTotal() && d.PkNumber() == s.PkNumber() && d.RegisteredDel() == s.RegisteredDel() && d.MsgLevel() == s.MsgLevel())
	zz.Ensures("serviceId round trips", d.ServiceId() == s.ServiceId())
	zz.Ensures("fee fields round trip", d.FeeUsertype() == s.FeeUsertype() && d.FeeTerminalType() == s.FeeTerminalType())
	zz.Ensures("feeTerminalId round trips", d.FeeTerminalId() == s.FeeTerminalId())
	zz.Ensures("tpPid, tpUdhi, msgFmt round trip", d.TpPid() == s.TpPid() && d.TpUdhi() == s.TpUdhi() && d.MsgFmt() == s.MsgFmt())
	zz.Ensures("msgSrc round trips", d.MsgSrc() == s.MsgSrc())
	zz.Ensures("feeType round trips", d.FeeType() == s.FeeType())
	zz.Ensures("feeCode round trips", d.FeeCode() == s.FeeCode())
	zz.Ensures("validTime round trips", d.ValidTime() == s.ValidTime())
	zz.Ensures("atTime round trips", d.AtTime() == s.AtTime())
	zz.Ensures("srcId round trips", d.SrcId() == s.SrcId())
	zz.Ensures("receiver count round trips", d.DestUsrTl() == s.DestUsrTl() && d.DestTerminalType() == s.DestTerminalType())
	zz.Ensures("receivers round trip", zz.EqBytes(d.TermIds(), s.TermIds()))
	zz.Ensures("msgLength round trips", d.MsgLength() == s.MsgLength())
	zz.Ensures("content round trips", zz.EqBytes(d.MsgContent(), s.MsgContent()))
	zz.Ensures("linkID round trips", d.LinkID() == s.LinkID())
}

// A part of a concatenated message (6-byte header 05 00 03 ref total index) decodes to the text that follows
// its header: converted to UTF-8 when the format is UCS-2, as is otherwise.
//
//gov:prop C01
//gov:func (*Submit).Decode
func ZvSubmitSegment() {
	v := zvVersion()
	s := zvSubmit(v)
	s.tpUdhi = 1
	c := s.msgContent
	zz.Requires(len(c) >= 6 && c[0] == 5 && c[1] == 0 && c[2] == 3)
	f := s.Encode()
	d := &Submit{Version: v}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	if s.msgFmt == 8 {
		zz.Ensures("UCS-2 part decodes to its text", string(d.MsgContent()) == zz.FromUcs2(string(c[6:])))
	} else {
		zz.Ensures("part of another format decodes to its bytes", zz.EqBytes(d.MsgContent(), c[6:]))
	}
	zz.Ensures("declared length kept", d.MsgLength() == s.MsgLength() && d.TotalLength == s.TotalLength)
	zz.Ensures("linkID after the content", d.LinkID() == s.LinkID())
}

//gov:prop C01
//gov:func (*Submit).ToResponse
//gov:func (*SubmitRsp).Encode
//gov:func (*SubmitRsp).Decode
func ZvSubmitRsp() {
	zvSequences()
	v := zvVersion()
	s := &Submit{Version: v}
	s.SequenceId = zz.U32("seq")
	code := zz.U32("code")
	r := s.ToResponse(code).(*SubmitRsp)
	zz.Requires(zvIs3(v) || code < 256)
	f := r.Encode()
	n := 21
	if zvIs3(v) {
		n = 24
	}
	zz.Ensures("frame length is the declared length", len(f) == n)
	zz.Ensures("header", zvHead(f, uint32(n), CMPP_SUBMIT_RESP, s.SequenceId))
	zz.Ensures("msgId at 12", zvBe64(f, 12) == r.MsgId())
	if zvIs3(v) {
		zz.Ensures("result word (3.x)", zvBe32(f, 20) == code)
	} else {
		zz.Ensures("result byte (2.x)", f[20] == byte(code))
	}
	d := &SubmitRsp{Version: v}
	err := d.Decode(s.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", d.MsgId() == r.MsgId() && d.Result() == r.Result() && d.MessageHeader == r.MessageHeader)
}

func zvReport() *Report {
	return &Report{
		msgId:          zz.U64("rpt.msgId"),
		stat:           zz.CStr("rpt.stat", 0, 7),
		submitTime:     zz.CStr("rpt.submitTime", 0, 10),
		doneTime:       zz.CStr("rpt.doneTime", 0, 10),
		destTerminalId: zz.CStr("rpt.dest", 0, 21),
		smscSequence:   zz.U32("rpt.smsc"),
	}
}

func zvReportAt(f []byte, i int, r *Report) bool {
	return zvBe64(f, i) == r.msgId && zvField(f, i+8, 7, r.stat) && zvField(f, i+15, 10, r.submitTime) &&
		zvField(f, i+25, 10, r.doneTime) && zvField(f, i+35, 21, r.destTerminalId) && zvBe32(f, i+56) == r.smscSequence
}

//gov:prop C01
//gov:func (*Report).Encode
//gov:func (*Report).Decode
func ZvReport() {
	r := zvReport()
	f := r.Encode()
	zz.Ensures("report is 60 bytes", len(f) == 60)
	zz.Ensures("report layout", zvReportAt(f, 0, r))
	d := &Report{}
	err := d.Decode(f)
	zz.Ensures("decodes", err == nil)
	zz.Ensures("msgId and sequence round trip", d.MsgId() == r.MsgId() && d.SmscSequence() == r.SmscSequence())
	zz.Ensures("stat round trips", d.Stat() == r.Stat())
	zz.Ensures("submitTime round trips", d.SubmitTime() == r.SubmitTime())
	zz.Ensures("doneTime round trips", d.DoneTime() == r.DoneTime())
	zz.Ensures("destTerminalId round trips", d.DestTerminalId() == r.DestTerminalId())
}

// zvDeliverEnv: everything in a deliver packet except its content.
func zvDeliverEnv(v Version) *Delivery {
	d := &Delivery{Version: v}
	d.CommandId = CMPP_DELIVER
	d.SequenceId = zz.U32("seq")
	d.msgId = zz.U64("msgId")
	d.destId = zz.CStr("destId", 0, 21)
	d.serviceId = zz.CStr("serviceId", 0, 10)
	d.tpPid = zz.U8("tpPid")
	d.tpUdhi = zz.U8("tpUdhi")
	d.msgFmt = zz.U8("msgFmt")
	if zvIs3(v) {
		d.srcTerminalId = zz.CStr("srcTerminalId", 0, 32)
		d.srcTerminalType = zz.U8("srcTerminalType")
		d.linkID = zz.CStr("linkID", 0, 20)
	} else {
		d.srcTerminalId = zz.CStr("srcTerminalId", 0, 21)
	}
	return d
}

func zvDeliverBase(v Version) int {
	if zvIs3(v) {
		return 109
	}
	return 85
}

func zvDeliverSame(a, b *Delivery) bool {
	return a.MsgId() == b.MsgId() && a.TpPid() == b.TpPid() && a.TpUdhi() == b.TpUdhi() && a.MsgFmt() == b.MsgFmt() &&
		a.SrcTerminalType() == b.SrcTerminalType() && a.MsgLength() == b.MsgLength() && a.IsReport() == b.IsReport() && a.MessageHeader == b.MessageHeader
}

func zvDeliverLayout(f []byte, d *Delivery, v Version) {
	zz.Ensures("frame length is the declared length", uint32(len(f)) == d.TotalLength)
	zz.Ensures("header", zvHead(f, d.TotalLength, CMPP_DELIVER, d.SequenceId))
	zz.Ensures("msgId at 12", zvBe64(f, 12) == d.MsgId())
	zz.Ensures("destId at 20", zvField(f, 20, 21, d.DestId()))
	zz.Ensures("serviceId at 41", zvField(f, 41, 10, d.ServiceId()))
	zz.Ensures("tpPid, tpUdhi, msgFmt at 51", f[51] == d.TpPid() && f[52] == d.TpUdhi() && f[53] == d.MsgFmt())
	i := 75
	if zvIs3(v) {
		zz.Ensures("srcTerminalId (3.x)", zvField(f, 54, 32, d.SrcTerminalId()))
		zz.Ensures("srcTerminalType (3.x)", f[86] == d.SrcTerminalType())
		i = 87
	} else {
		zz.Ensures("srcTerminalId (2.x)", zvField(f, 54, 21, d.SrcTerminalId()))
	}
	zz.Ensures("registeredDelivery", (f[i] == 1) == d.IsReport())
	zz.Ensures("msgLength", f[i+1] == d.MsgLength())
	if zvIs3(v) {
		zz.Ensures("linkID last (3.x)", zvField(f, len(f)-20, 20, d.LinkID()))
	} else {
		zz.Ensures("reserve last (2.x)", zvBe64(f, len(f)-8) == 0)
	}
}

func zvContentAt(v Version) int {
	if zvIs3(v) {
		return 89
	}
	return 77
}

func zvDeliverBack(d *Delivery, f []byte) *Delivery {
	b := &Delivery{Version: d.Version}
	err := b.Decode(d.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("scalar fields round trip", zvDeliverSame(b, d))
	zz.Ensures("destId round trips", b.DestId() == d.DestId())
	zz.Ensures("serviceId round trips", b.ServiceId() == d.ServiceId())
	zz.Ensures("srcTerminalId round trips", b.SrcTerminalId() == d.SrcTerminalId())
	zz.Ensures("linkID round trips", b.LinkID() == d.LinkID())
	return b
}

//gov:prop C01
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverReport() {
	v := zvVersion()
	d := zvDeliverEnv(v)
	d.registeredDelivery = 1
	d.report = zvReport()
	d.msgLength = 60
	d.TotalLength = uint32(zvDeliverBase(v) + 60)
	f := d.Encode()
	zvDeliverLayout(f, d, v)
	zz.Ensures("report in the content", zvReportAt(f, zvContentAt(v), d.report))
	b := zvDeliverBack(d, f)
	zz.Ensures("report present", b.Report() != nil)
	zz.Ensures("report msgId round trips", b.Report().MsgId() == d.report.MsgId())
	zz.Ensures("report stat round trips", b.Report().Stat() == d.report.Stat())
	zz.Ensures("report times round trip", b.Report().SubmitTime() == d.report.SubmitTime() && b.Report().DoneTime() == d.report.DoneTime())
	zz.Ensures("report dest round trips", b.Report().DestTerminalId() == d.report.DestTerminalId())
	zz.Ensures("report smsc sequence round trips", b.Report().SmscSequence() == d.report.SmscSequence())
}

// A mobile-originated message built by NewDelivery carries its text: the whole of it when it fits one
// message (160 single-byte characters or 70 UCS-2 units), its beginning otherwise.
//
//gov:prop C01
//gov:func NewDelivery
//gov:func setMsgContent
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverText3() { zvDeliverText(true) }

//gov:prop C01
//gov:func NewDelivery
//gov:func setMsgContent
//gov:func (*Delivery).Encode
//gov:func (*Delivery).Decode
func ZvDeliverText2() { zvDeliverText(false) }

// zvDeliverText: texts of at most 70 UCS-2 units.
func zvDeliverText(v3 bool) {
	zvSequences()
	ac := &codec.AuthConf{Version: zz.U8("version"), SmsDisplayNo: zz.CStr("display", 0, 10), ServiceId: zz.CStr("acService", 0, 10)}
	v := Version(ac.Version)
	zz.Requires(zvIs3(v) == v3)
	msg := zz.CStr("msg", 0, 210)
	zz.Requires(zz.ValidUTF8(msg) && len(zz.Ucs2(msg)) <= 140)
	phone := zz.CStr("phone", 0, 21)
	sub := zz.CStr("sub", 0, 11)
	svc := zz.CStr("service", 0, 10)
	seq := zz.U32("seq")
	d := NewDelivery(ac, phone, msg, sub, svc, seq).(*Delivery)
	zz.Ensures("addressed", d.DestId() == ac.SmsDisplayNo+sub && d.SrcTerminalId() == phone && d.SequenceId == seq && d.CommandId == CMPP_DELIVER && !d.IsReport())
	want := svc
	if svc == "" {
		want = ac.ServiceId
	}
	zz.Ensures("service id, or the account's when empty", d.ServiceId() == want)
	zz.Ensures("declared length counts the content", d.TotalLength == uint32(zvDeliverBase(v)+int(d.MsgLength())))
	f := d.Encode()
	zvDeliverLayout(f, d, v)
	enc := msg
	if d.MsgFmt() == 8 {
		enc = zz.Ucs2(msg)
	} else {
		zz.Ensures("single byte format is used for single byte text", d.MsgFmt() == 0)
	}
	n := int(d.MsgLength())
	i := zvContentAt(v)
	zz.Ensures("content on the wire is the encoded text", string(f[i:i+n]) == enc)
	b := zvDeliverBack(d, f)
	zz.Ensures("text round trips", b.MsgContent() == msg)
}

// A longer text is sent whole when it fits 160 single-byte characters; otherwise it is cut to its first 160
// characters or 70 units, never inside a surrogate pair.
//
//gov:prop C01
//gov:func NewDelivery
//gov:func setMsgContent
//gov:func (*Delivery).Encode
func ZvDeliverLong3() { zvDeliverLong(true) }

//gov:prop C01
//gov:func NewDelivery
//gov:func setMsgContent
//gov:func (*Delivery).Encode
func ZvDeliverLong2() { zvDeliverLong(false) }

func zvDeliverLong(v3 bool) {
	zvSequences()
	ac := &codec.AuthConf{Version: 0x20}
	if v3 {
		ac.Version = 0x30
	}
	msg := zz.CStr("msg", 0, 400)
	u := zz.Ucs2(msg)
	zz.Requires(zz.ValidUTF8(msg) && len(u) > 140)
	cut := 140
	if zz.Fork(u[138]&0xfc == 0xd8) {
		cut = 138
	}
	d := NewDelivery(ac, "13800138000", msg, "", "", zz.U32("seq")).(*Delivery)
	f := d.Encode()
	i := zvContentAt(Version(ac.Version))
	n := int(d.MsgLength())
	zz.Ensures("declared length counts the content", len(f) == zvDeliverBase(Version(ac.Version))+n && f[i-1] == byte(n))
	if d.MsgFmt() == 8 {
		zz.Ensures("the part that fits is sent", n == cut)
		zz.Ensures("content on the wire is the beginning of the encoded text", string(f[i:i+cut]) == u[:cut])
	} else {
		zz.Ensures("single byte format is used for single byte text", d.MsgFmt() == 0)
		zz.Ensures("160 characters are sent", n == len(msg) || n == 160 && len(msg) > 160)
		zz.Ensures("content on the wire is the beginning of the text", string(f[i:i+n]) == msg[:n])
		b := &Delivery{Version: d.Version}
		zz.Ensures("decodes", b.Decode(d.SequenceId, f[12:]) == nil)
		zz.Ensures("text round trips", b.MsgContent() == msg[:n])
	}
}

//gov:prop C01
//gov:func (*Delivery).ToResponse
//gov:func (*DeliveryRsp).Encode
//gov:func (*DeliveryRsp).Decode
func ZvDeliveryRsp() {
	v := zvVersion()
	d := &Delivery{Version: v}
	d.SequenceId = zz.U32("seq")
	d.msgId = zz.U64("msgId")
	code := zz.U32("code")
	zz.Requires(zvIs3(v) || code < 256)
	r := d.ToResponse(code).(*DeliveryRsp)
	f := r.Encode()
	n := 21
	if zvIs3(v) {
		n = 24
	}
	zz.Ensures("frame length is the declared length", len(f) == n)
	zz.Ensures("header", zvHead(f, uint32(n), CMPP_DELIVER_RESP, d.SequenceId))
	zz.Ensures("msgId of the delivery at 12", zvBe64(f, 12) == d.msgId)
	if zvIs3(v) {
		zz.Ensures("result word (3.x)", zvBe32(f, 20) == code)
	} else {
		zz.Ensures("result byte (2.x)", f[20] == byte(code))
	}
	b := &DeliveryRsp{Version: v}
	err := b.Decode(d.SequenceId, f[12:])
	zz.Ensures("decodes", err == nil)
	zz.Ensures("response round trips", b.msgId == r.msgId && b.result == r.result && b.MessageHeader == r.MessageHeader)
}

//gov:prop C01
//gov:func (*ActiveTest).Encode
//gov:func (*ActiveTestRsp).Encode
//gov:func (*Terminate).Encode
//gov:func (*TerminateRsp).Encode
func ZvHeaderOnly() {
	seq := zz.U32("seq")
	at := NewActiveTest(seq)
	f := at.Encode()
	zz.Ensures("active test is a bare header", len(f) == 12 && zvHead(f, 12, CMPP_ACTIVE_TEST, seq))
	at2 := &ActiveTest{}
	zz.Ensures("active test round trips", at2.Decode(seq, f[12:]) == nil && *at2 == *at)
	ar := at.ToResponse(0).(*ActiveTestRsp)
	f = ar.Encode()
	zz.Ensures("active test response has a reserved byte", len(f) == 13 && zvHead(f, 13, CMPP_ACTIVE_TEST_RESP, seq) && f[12] == 0)
	ar2 := &ActiveTestRsp{}
	zz.Ensures("active test response round trips", ar2.Decode(seq, f[12:]) == nil && *ar2 == *ar)
	tm := NewTerminate(seq)
	f = tm.Encode()
	zz.Ensures("terminate is a bare header", len(f) == 12 && zvHead(f, 12, CMPP_TERMINATE, seq))
	tm2 := &Terminate{}
	zz.Ensures("terminate round trips", tm2.Decode(seq, f[12:]) == nil && *tm2 == *tm)
	tr := tm.ToResponse(0).(*TerminateRsp)
	f = tr.Encode()
	zz.Ensures("terminate response is a bare header", len(f) == 12 && zvHead(f, 12, CMPP_TERMINATE_RESP, seq))
	tr2 := &TerminateRsp{}
	zz.Ensures("terminate response round trips", tr2.Decode(seq, f[12:]) == nil && *tr2 == *tr)
}
