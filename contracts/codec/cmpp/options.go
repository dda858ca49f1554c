package cmpp

import (
	"time"

	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C12: submit options

var zvNow time.Time

func zvTimeNow() time.Time { return zvNow }

func zvOptions() *codec.MtOptions {
	return &codec.MtOptions{
		NeedReport:      zz.U8("o.NeedReport"),
		MsgLevel:        zz.U8("o.MsgLevel"),
		FeeUsertype:     zz.U8("o.FeeUsertype"),
		FeeTerminalType: zz.U8("o.FeeTerminalType"),
		ServiceId:       zz.Str("o.ServiceId", 0, 10),
		FeeTerminalId:   zz.Str("o.FeeTerminalId", 0, 32),
		FeeType:         zz.Str("o.FeeType", 0, 2),
		FeeCode:         zz.Str("o.FeeCode", 0, 6),
		ValidTime:       zz.Str("o.ValidTime", 0, 17),
		AtTime:          zz.Str("o.AtTime", 0, 17),
		SpSubNo:         zz.Str("o.SpSubNo", 0, 21),
		LinkID:          zz.Str("o.LinkID", 0, 20),
	}
}

func zvPick8(o, dflt uint8) uint8 {
	if o != 0xf {
		return o
	}
	return dflt
}

func zvPick(o, dflt string) string {
	if o != "" {
		return o
	}
	return dflt
}

// Every part of a message carries the values of the given options, and the account's for the others.
//
//gov:prop C12
//gov:func NewSubmit
//gov:func setOptions
//gov:bounded at most 2 parts
func ZvSubmitOptions() {
	zvSequences()
	zvNow = time.Now()
	zz.Stub("time.Now", zvTimeNow)
	ac := zvAccount()
	o := zvOptions()
	txt := zz.ASCII("txt", 0, 300)
	ms := NewSubmit(ac, []string{"13800138000"}, txt, zz.U32("seq"), codec.WithMtOptions(o))
	for _, m := range ms {
		s := m.(*Submit)
		zz.Ensures("report flag", s.registeredDel == zvPick8(o.NeedReport, ac.NeedReport))
		zz.Ensures("priority", s.msgLevel == zvPick8(o.MsgLevel, ac.DefaultMsgLevel))
		zz.Ensures("fee user type", s.feeUsertype == zvPick8(o.FeeUsertype, ac.FeeUserType))
		zz.Ensures("fee terminal type", s.feeTerminalType == zvPick8(o.FeeTerminalType, ac.FeeTerminalType))
		zz.Ensures("service id", s.serviceId == zvPick(o.ServiceId, ac.ServiceId))
		zz.Ensures("fee terminal", s.feeTerminalId == zvPick(o.FeeTerminalId, ac.FeeTerminalId))
		zz.Ensures("fee type", s.feeType == zvPick(o.FeeType, ac.FeeType))
		zz.Ensures("fee code", s.feeCode == zvPick(o.FeeCode, ac.FeeCode))
		zz.Ensures("link id", s.linkID == zvPick(o.LinkID, ac.LinkId))
		zz.Ensures("schedule time", s.atTime == o.AtTime)
		zz.Ensures("source number with its sub number", s.srcId == ac.SmsDisplayNo+o.SpSubNo)
		zz.Ensures("validity", s.validTime == zvPick(o.ValidTime, zvNow.Add(ac.MtValidDuration).Format("060102150405")+"032+"))
		zz.Ensures("other fields are not options", s.Version == Version(ac.Version) && s.tpPid == 0 && s.destTerminalType == 0 && s.msgId == 0)
	}
}
