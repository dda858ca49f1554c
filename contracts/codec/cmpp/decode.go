package cmpp

import (
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C04: any body is decoded or rejected

//gov:prop C04
//gov:func (*Connect).Decode
//gov:func (*Connect).Log
func ZvAnyConnect() {
	b := zvBody(6000)
	c := &Connect{}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= 27 || err != nil)
	zz.Ensures("full body is accepted", len(b) < 27 || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*ConnectResp).Decode
func ZvAnyConnectResp() {
	b := zvBody(6000)
	v := zvVersion()
	c := &ConnectResp{Version: v}
	n := 18
	if zvIs3(v) {
		n = 21
	}
	err := c.Decode(zz.U32("seq"), b)
	zz.Ensures("short body is an error", len(b) >= n || err != nil)
	zz.Ensures("full body is accepted", len(b) < n || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*Submit).Decode
//gov:func (*Submit).Log
func ZvAnySubmit() {
	b := zvBody(6000)
	v := zvVersion()
	c := &Submit{Version: v}
	err := c.Decode(zz.U32("seq"), b)
	need := 117
	id := 21
	at := 116
	if zvIs3(v) {
		id = 32
		at = 128
		need = 129
	}
	if len(b) < need {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	need += int(b[at]) * id
	if zvIs3(v) {
		need++
	}
	if len(b) <= need {
		zz.Ensures("body without its receivers and length is an error", err != nil)
		return
	}
	need += 1 + int(b[need])
	if zvIs3(v) {
		need += 20
	}
	zz.Ensures("body shorter than its declared content is an error", len(b) >= need || err != nil)
	zz.Ensures("complete body is accepted", len(b) < need || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*SubmitRsp).Decode
func ZvAnySubmitRsp() {
	b := zvBody(6000)
	v := zvVersion()
	c := &SubmitRsp{Version: v}
	err := c.Decode(zz.U32("seq"), b)
	n := 9
	if zvIs3(v) {
		n = 12
	}
	zz.Ensures("short body is an error", len(b) >= n || err != nil)
	zz.Ensures("full body is accepted", len(b) < n || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*Delivery).Decode
//gov:func (*Delivery).Log
//gov:func (*Report).Decode
func ZvAnyDelivery() {
	b := zvBody(6000)
	v := zvVersion()
	c := &Delivery{Version: v}
	err := c.Decode(zz.U32("seq"), b)
	need := 65
	if zvIs3(v) {
		need = 77
	}
	if len(b) < need {
		zz.Ensures("body without its fixed part is an error", err != nil)
		return
	}
	rpt := b[need-2] == 1
	n := int(b[need-1])
	need += n
	if zvIs3(v) {
		need += 20
	}
	if rpt && n < 60 {
		zz.Ensures("truncated report is an error", err != nil)
		return
	}
	zz.Ensures("body shorter than its declared content is an error", len(b) >= need || err != nil)
	zz.Ensures("complete body is accepted", len(b) < need || err == nil)
	if err == nil {
		_ = c.Log()
		if c.IsReport() {
			_ = c.Report().String()
		}
	}
}

//gov:prop C04
//gov:func (*DeliveryRsp).Decode
func ZvAnyDeliveryRsp() {
	b := zvBody(6000)
	v := zvVersion()
	c := &DeliveryRsp{Version: v}
	err := c.Decode(zz.U32("seq"), b)
	n := 9
	if zvIs3(v) {
		n = 12
	}
	zz.Ensures("short body is an error", len(b) >= n || err != nil)
	zz.Ensures("full body is accepted", len(b) < n || err == nil)
	if err == nil {
		_ = c.Log()
	}
}

//gov:prop C04
//gov:func (*ActiveTest).Decode
//gov:func (*ActiveTestRsp).Decode
//gov:func (*Terminate).Decode
//gov:func (*TerminateRsp).Decode
func ZvAnyHeaderOnly() {
	b := zvBody(6000)
	seq := zz.U32("seq")
	a := &ActiveTest{}
	ar := &ActiveTestRsp{}
	t := &Terminate{}
	tr := &TerminateRsp{}
	zz.Ensures("accepted", a.Decode(seq, b) == nil && ar.Decode(seq, b) == nil && t.Decode(seq, b) == nil && tr.Decode(seq, b) == nil)
	_, _, _, _ = a.Log(), ar.Log(), t.Log(), tr.Log()
	zz.Ensures("sequence kept", a.SequenceId == seq && ar.SequenceId == seq && t.SequenceId == seq && tr.SequenceId == seq)
}

//gov:prop C04
//gov:func (*MessageHeader).Decode
func ZvAnyHeader() {
	b := zvBody(6000)
	h := &MessageHeader{}
	err := h.Decode(b)
	zz.Ensures("short header is an error", (len(b) >= 12) == (err == nil))
}

//gov:prop C04
//gov:func (*Report).Decode
func ZvAnyReport() {
	b := zvBody(6000)
	h := &Report{}
	err := h.Decode(b)
	zz.Ensures("short report is an error", (len(b) >= 60) == (err == nil))
}

//gov:prop C04
//gov:func CommandId.String
//gov:func ConnStatus.String
//gov:func MtResult.String
//gov:func DlyResult.String
func ZvAnyCode() {
	c := CommandId(zz.U32("cmd"))
	s := c.String()
	zz.Ensures("every command has a name", len(s) > 0)
	_ = ConnStatus(zz.U8("st")).String()
	_ = MtResult(zz.U32("mt")).String()
	_ = DlyResult(zz.U32("dl")).String()
	known := (c >= 1 && c <= 9) || (c >= 0x80000001 && c <= 0x80000009)
	zz.Ensures("commands outside the protocol are UNKNOWN", known || s == "UNKNOWN")
}
