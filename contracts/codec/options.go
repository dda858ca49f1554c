package codec

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C12: submit options

// Each option sets its own field when its value is in the range of the protocol, and nothing else.
//
//gov:prop C12
//gov:func LoadMtOptions
//gov:func MtFeeTerminalType
//gov:func MtFeeUsertype
//gov:func MtLinkID
//gov:func MtSpSubNo
//gov:func MtAtTime
//gov:func MtAtTimeStr
//gov:func MtValidTime
//gov:func MtFeeCode
//gov:func MtFeeType
//gov:func MtFeeTerminalId
//gov:func MtServiceId
//gov:func MtNeedReport
//gov:func MtMsgLevel
//gov:split 13
func ZvOptions() {
	d := *LoadMtOptions()
	zz.Ensures("nothing is set by default", d == MtOptions{NeedReport: 0xf, MsgLevel: 0xf, FeeUsertype: 0xf, FeeTerminalType: 0xf})
	w := d // wanted
	b := zz.U8("b")
	s := zz.Str("s", 0, 40)
	var o MtOptions
	switch zz.Enum("option", 0, 12) {
	case 0:
		o = *LoadMtOptions(MtNeedReport(b))
		if b <= 1 {
			w.NeedReport = b
		}
	case 1:
		o = *LoadMtOptions(MtMsgLevel(b))
		if b <= 9 {
			w.MsgLevel = b
		}
	case 2:
		o = *LoadMtOptions(MtFeeUsertype(b))
		if b <= 3 {
			w.FeeUsertype = b
		}
	case 3:
		o = *LoadMtOptions(MtFeeTerminalType(b))
		if b <= 1 {
			w.FeeTerminalType = b
		}
	case 4:
		o = *LoadMtOptions(MtServiceId(s))
		w.ServiceId = s
	case 5:
		o = *LoadMtOptions(MtFeeTerminalId(s))
		w.FeeTerminalId = s
	case 6:
		o = *LoadMtOptions(MtFeeType(s))
		if len(s) == 2 && s[0] == '0' && s[1] >= '1' && s[1] <= '5' {
			w.FeeType = s
		}
	case 7:
		o = *LoadMtOptions(MtFeeCode(s))
		w.FeeCode = s
	case 8:
		o = *LoadMtOptions(MtValidTime(s))
		w.ValidTime = s
	case 9:
		o = *LoadMtOptions(MtAtTimeStr(s))
		if len(s) > 12 {
			w.AtTime = s[:12] + "032+"
		} else {
			w.AtTime = s + "032+"
		}
	case 10:
		t := time.Now()
		o = *LoadMtOptions(MtAtTime(t))
		w.AtTime = t.Format("060102150405") + "032+"
	case 11:
		o = *LoadMtOptions(MtSpSubNo(s))
		w.SpSubNo = s
	case 12:
		o = *LoadMtOptions(MtLinkID(s))
		w.LinkID = s
	}
	zz.Ensures("numbers are as wanted", o.NeedReport == w.NeedReport && o.MsgLevel == w.MsgLevel && o.FeeUsertype == w.FeeUsertype && o.FeeTerminalType == w.FeeTerminalType)
	zz.Ensures("service id, fee fields as wanted", o.ServiceId == w.ServiceId && o.FeeTerminalId == w.FeeTerminalId && o.FeeType == w.FeeType && o.FeeCode == w.FeeCode)
	zz.Ensures("times as wanted", o.ValidTime == w.ValidTime && o.AtTime == w.AtTime)
	zz.Ensures("numbers to append as wanted", o.SpSubNo == w.SpSubNo && o.LinkID == w.LinkID)
}

// Options given together are all applied; a whole set of options replaces what was set before it.
//
//gov:prop C12
//gov:func LoadMtOptions
//gov:func WithMtOptions
func ZvOptionsTogether() {
	r, l := zz.U8("report"), zz.U8("level")
	zz.Requires(r <= 1 && l <= 9)
	s, n := zz.Str("service", 0, 10), zz.Str("sub", 0, 10)
	o := *LoadMtOptions(MtNeedReport(r), MtServiceId(s), MtMsgLevel(l), MtSpSubNo(n))
	zz.Ensures("all options are applied", o.NeedReport == r && o.MsgLevel == l && o.ServiceId == s && o.SpSubNo == n && o.FeeUsertype == 0xf && o.FeeTerminalType == 0xf && o.AtTime == "")
	set := &MtOptions{NeedReport: zz.U8("r"), MsgLevel: zz.U8("l"), FeeUsertype: zz.U8("u"), FeeTerminalType: zz.U8("t"), ServiceId: zz.Str("sid", 0, 10), ValidTime: zz.Str("v", 0, 17), AtTime: zz.Str("a", 0, 17)}
	was := *set
	p := *LoadMtOptions(WithMtOptions(set))
	zz.Ensures("a set of options is applied whole", p == *set && *set == was)
	q := *LoadMtOptions(WithMtOptions(set), MtMsgLevel(l))
	zz.Ensures("a later option overrides", q.MsgLevel == l && q.NeedReport == set.NeedReport && q.ServiceId == set.ServiceId)
	zz.Ensures("the caller's set is left alone", *set == was)
}
