package smgp

import (
	"bytes"
	"io"

	"github.com/hrygo/gosms/utils"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C04: any body is decoded or rejected

//gov:prop C04
//gov:func (*Login).Decode
//gov:func (*Login).Log
func ZvAnyLogin() {
	b := zvBody(6000)
	c := &Login{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= 30 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 30 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.String()
		_ = c.ToResponse(0).Log()
	}
}

//gov:prop C04
//gov:func (*LoginRsp).Decode
//gov:func (*LoginRsp).Log
func ZvAnyLoginRsp() {
	b := zvBody(6000)
	c := &LoginRsp{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= 21 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 21 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.String()
	}
}

// zvReadTlv is the contract of utils.Read (established by C13): a list or an error, never a panic.
func zvReadTlv(r io.Reader) (*utils.TlvList, error) {
	if zz.Bool("tlvError") {
		return nil, utils.ErrTLVRead
	}
	l := utils.NewTlvList()
	if zz.Bool("hasUdhi") {
		l.Add(TP_udhi, zz.Bytes("udhi", 0, 6000))
	}
	return l, nil
}

// The number of receivers is arbitrary: the loop over them is summarised by an inductive invariant.
//
//gov:prop C04
//gov:func (*Submit).Decode
//gov:func (*Submit).Log
func ZvAnySubmit() {
	zz.Stub("github.com/hrygo/gosms/utils.Read", zvReadTlv)
	b := zvBody(6000)
	c := &Submit{}
	err := c.Decode(zz.U32("seq"), b)
	if len(b) < 105 {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	need := 105 + 21*int(b[104])
	if len(b) <= need {
		zz.Ensures("body without its receivers and length is an error", err != nil)
		return
	}
	need += 1 + int(b[need]) + 8
	zz.Ensures("body shorter than its declared content is an error", len(b) >= need || err != nil)
	zz.Ensures("complete body without optional parameters is accepted", len(b) != need || err == nil)
}

// Whatever a decoder stored, the packet can be logged and printed.
//
//gov:prop C04
//gov:func (*Submit).Log
//gov:func (*Submit).String
//gov:bounded at most 2 receivers
func ZvAnySubmitLog() {
	zz.Stub("github.com/hrygo/gosms/utils.Read", zvReadTlv)
	c := &Submit{}
	c.msgType, c.needReport, c.priority, c.msgFormat = zz.U8("msgType"), zz.U8("needReport"), zz.U8("priority"), zz.U8("msgFormat")
	c.msgLength = zz.U8("msgLength")
	c.msgContent = zz.Bytes("content", 0, 255)
	c.serviceID = string(zz.Bytes("serviceID", 0, 10))
	c.srcTermID = string(zz.Bytes("src", 0, 21))
	c.destTermIDCount = zz.U8("count")
	for i := zz.Enum("n", 0, 2); i > 0; i-- {
		c.destTermID = append(c.destTermID, string(zz.Bytes("dest", 0, 21)))
	}
	zz.Ensures("the packet can be logged", len(c.Log()) > 0)
	zz.Ensures("the packet can be printed", len(c.String()) > 0)
}

// Decoding with the real reader of optional parameters: a stream of them that ends early is an error.
//
//gov:prop C04
//gov:func (*Submit).Decode
//gov:bounded one receiver, no content, at most 2 optional parameters
func ZvAnySubmitTlv() {
	t := zz.Bytes("tlv", 0, 100)
	k := len(t)
	ok := k == 0
	if k >= 4 {
		l1 := int(t[2])<<8 | int(t[3])
		if k == 4+l1 {
			ok = true
		} else {
			zz.Requires(k < 8+l1 || k <= 8+l1+int(t[6+l1])<<8+int(t[7+l1]))
			ok = k >= 8+l1 && k == 8+l1+int(t[6+l1])<<8+int(t[7+l1])
		}
	}
	ok = zz.Fork(ok)
	b := bytes.Join([][]byte{make([]byte, 104), {1}, make([]byte, 21), {0}, make([]byte, 8), t}, nil)
	c := &Submit{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("optional parameters that end early are an error", ok || err != nil)
	zz.Ensures("complete optional parameters are accepted", !ok || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*SubmitRsp).Decode
//gov:func (*SubmitRsp).Log
func ZvAnySubmitRsp() {
	b := zvBody(6000)
	c := &SubmitRsp{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= 14 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 14 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.String()
	}
}

//gov:prop C04
//gov:func (*Delivery).Decode
//gov:func (*Delivery).Log
//gov:func (*Report).Decode
func ZvAnyDelivery() {
	b := zvBody(6000)
	c := &Delivery{}
	err := c.Decode(zz.U32("seq"), b)
	if len(b) < 69 {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	if b[10] == 1 {
		zz.Ensures("truncated report is an error", len(b) >= 69+122 || err != nil)
	} else {
		zz.Ensures("body shorter than its declared content is an error", len(b) >= 69+int(b[68]) || err != nil)
	}
	zz.Ensures("complete body is accepted", len(b) < 69+122 || len(b) < 69+int(b[68]) || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.String()
		_ = c.ToResponse(0).Encode()
		if c.IsReport() {
			_ = c.Report().String()
		}
	}
}

//gov:prop C04
//gov:func (*DeliverRsp).Decode
//gov:func (*DeliverRsp).Log
func ZvAnyDeliverRsp() {
	b := zvBody(6000)
	c := &DeliverRsp{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= 14 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 14 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.String()
		_ = c.MsgId()
	}
}

//gov:prop C04
//gov:func (*ActiveTest).Decode
//gov:func (*ActiveTestRsp).Decode
//gov:func (*Exit).Decode
//gov:func (*ExitRsp).Decode
func ZvAnyHeaderOnly() {
	b := zvBody(6000)
	seq := zz.U32("seq")
	a := &ActiveTest{}
	ar := &ActiveTestRsp{}
	t := &Exit{}
	tr := &ExitRsp{}
	zz.Ensures("accepted", a.Decode(seq, b) == nil && ar.Decode(seq, b) == nil && t.Decode(seq, b) == nil && tr.Decode(seq, b) == nil)
	_, _, _, _ = a.Log(), ar.Log(), t.Log(), tr.Log()
	_, _, _, _ = a.String(), ar.String(), t.String(), tr.String()
	zz.Ensures("sequence kept", a.SequenceId == seq && ar.SequenceId == seq && t.SequenceId == seq && tr.SequenceId == seq)
}

//gov:prop C04
//gov:func (*MessageHeader).Decode
func ZvAnyHeader() {
	b := zvBody(6000)
	h := &MessageHeader{}
	err := h.Decode(b)
	zz.Ensures("short header is an error", (len(b) >= 12) == (err == nil))
}

//gov:prop C04
//gov:func (*Report).Decode
func ZvAnyReport() {
	b := zvBody(6000)
	h := &Report{}
	err := h.Decode(b)
	zz.Ensures("short report is an error", (len(b) >= 122) == (err == nil))
	if err == nil {
		_ = h.String()
	}
}

//gov:prop C04
//gov:func CommandId.String
//gov:func Status.String
func ZvAnyCode() {
	c := CommandId(zz.U32("cmd"))
	s := c.String()
	zz.Ensures("every command has a name", len(s) > 0)
	_ = Status(zz.U32("st")).String()
	known := (c >= 1 && c <= 6) || (c >= 0x80000001 && c <= 0x80000006)
	zz.Ensures("commands outside the protocol are UNKNOWN", known || s == "UNKNOWN")
	_ = Version(zz.U8("v")).String()
}
