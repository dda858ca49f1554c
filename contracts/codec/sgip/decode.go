package sgip

import (
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C04: decoding whatever bytes a peer sends

//gov:prop C04
//gov:func (*Bind).Decode
//gov:func (*Bind).Log
func ZvAnyBind() {
	b := zvBody(6000)
	c := &Bind{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("body without its fields is an error", len(b) >= 41 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 49 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.ToResponse(zz.U32("code")).Encode()
	}
}

//gov:prop C04
//gov:func (*BindRsp).Decode
//gov:func (*SubmitRsp).Decode
//gov:func (*DeliverRsp).Decode
//gov:func (*ReportRsp).Decode
func ZvAnyRsp() {
	b := zvBody(6000)
	seq := zz.U32("seq")
	var err error
	switch zz.Enum("kind", 0, 3) {
	case 0:
		c := &BindRsp{}
		if err = c.Decode(seq, b); err == nil {
			_ = c.Log()
		}
	case 1:
		c := &SubmitRsp{}
		if err = c.Decode(seq, b); err == nil {
			_ = c.Log()
		}
	case 2:
		c := &DeliverRsp{}
		if err = c.Decode(seq, b); err == nil {
			_ = c.Log()
		}
	case 3:
		c := &ReportRsp{}
		if err = c.Decode(seq, b); err == nil {
			_ = c.Log()
		}
	}
	zz.Ensures("body without its fields is an error", len(b) >= 9 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 17 || err == nil)
}

// The number of receivers is arbitrary: the loop over them is summarised by an inductive invariant.
//
//gov:prop C04
//gov:func (*Submit).Decode
func ZvAnySubmit() {
	b := zvBody(6000)
	c := &Submit{}
	err := c.Decode(zz.U32("seq"), b)
	if len(b) < 51 {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	i := 51 + 21*int(b[50])
	if len(b) < i+72 {
		zz.Ensures("body without its receivers and length is an error", err != nil)
		return
	}
	l := int(zvBe32(b, i+68))
	zz.Ensures("body shorter than its declared content is an error", len(b) >= i+72+l || err != nil)
	zz.Ensures("complete body is accepted", len(b) < i+72+l+8 || err == nil)
	if err == nil {
		_ = c.ToResponse(zz.U32("code")).Encode()
	}
}

// Whatever a decoder stored, the packet can be logged.
//
//gov:prop C04
//gov:func (*Submit).Log
//gov:bounded at most 2 receivers
func ZvAnySubmitLog() {
	c := zvSubmit(zz.Enum("n", 0, 2))
	c.UserCount = zz.U8("UserCount")
	c.MessageLength = zz.U32("MessageLength")
	zz.Ensures("the packet can be logged", len(c.Log()) > 0)
	zz.Ensures("the header can be printed", len(c.MessageHeader.String()) > 0)
}

//gov:prop C04
//gov:func (*Deliver).Decode
//gov:func (*Deliver).Log
func ZvAnyDeliver() {
	b := zvBody(6000)
	c := &Deliver{}
	err := c.Decode(zz.U32("seq"), b)
	if len(b) < 57 {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	l := int(zvBe32(b, 53))
	zz.Ensures("body shorter than its declared content is an error", len(b) >= 57+l || err != nil)
	zz.Ensures("complete body is accepted", len(b) < 57+l+8 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.ToResponse(zz.U32("code")).Encode()
	}
}

//gov:prop C04
//gov:func (*Report).Decode
//gov:func (*Report).Log
func ZvAnyReport() {
	b := zvBody(6000)
	c := &Report{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("body without its fields is an error", len(b) >= 44 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 52 || err == nil)
	if err == nil {
		_ = c.Log()
		_ = c.ToResponse(zz.U32("code")).Encode()
	}
}

//gov:prop C04
//gov:func (*Unbind).Decode
//gov:func (*UnbindRsp).Decode
//gov:func (*MessageHeader).Decode
//gov:func (CommandId).String
func ZvAnyUnbind() {
	b := zvBody(6000)
	seq := zz.U32("seq")
	u := &Unbind{}
	ur := &UnbindRsp{}
	e1 := u.Decode(seq, b)
	e2 := ur.Decode(seq, b)
	zz.Ensures("body without its sequence is an error", len(b) >= 8 || e1 != nil && e2 != nil)
	zz.Ensures("full body is accepted", len(b) < 8 || e1 == nil && e2 == nil)
	if e1 == nil {
		_ = u.Log()
		_ = u.String()
		_ = u.ToResponse(0).Encode()
	}
	if e2 == nil {
		_ = ur.Log()
	}
	h := &MessageHeader{}
	e3 := h.Decode(b)
	zz.Ensures("header needs 20 bytes", (e3 == nil) == (len(b) >= 20))
	id := CommandId(zz.U32("id"))
	_ = id.String()
}
