package smgp

import (
	"time"

	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C12: submit options

var zvNow time.Time

func zvTimeNow() time.Time { return zvNow }

func zvOptions() *codec.MtOptions {
	return &codec.MtOptions{
		NeedReport:      zz.U8("o.NeedReport"),
		MsgLevel:        zz.U8("o.MsgLevel"),
		FeeUsertype:     zz.U8("o.FeeUsertype"),
		FeeTerminalType: zz.U8("o.FeeTerminalType"),
		ServiceId:       zz.Str("o.ServiceId", 0, 10),
		FeeTerminalId:   zz.Str("o.FeeTerminalId", 0, 32),
		FeeType:         zz.Str("o.FeeType", 0, 2),
		FeeCode:         zz.Str("o.FeeCode", 0, 6),
		ValidTime:       zz.Str("o.ValidTime", 0, 17),
		AtTime:          zz.Str("o.AtTime", 0, 17),
		SpSubNo:         zz.Str("o.SpSubNo", 0, 21),
		LinkID:          zz.Str("o.LinkID", 0, 20),
	}
}

func zvPick8(o, dflt uint8) uint8 {
	if o != 0xf {
		return o
	}
	return dflt
}

func zvPick(o, dflt string) string {
	if o != "" {
		return o
	}
	return dflt
}

// Every part of a message carries the values of the given options, and the account's for the others.
//
//gov:prop C12
//gov:func NewSubmit
//gov:func (*Submit).SetOptions
//gov:bounded at most 2 parts
func ZvSubmitOptions() {
	zvSequences()
	zvNow = time.Now()
	zz.Stub("time.Now", zvTimeNow)
	ac := zvAccount()
	o := zvOptions()
	txt := zz.ASCII("txt", 0, 260)
	zz.Requires(len(zz.GB(txt)) <= 260)
	ms := NewSubmit(ac, []string{"13800138000"}, txt, zz.U32("seq"), codec.WithMtOptions(o))
	for _, m := range ms {
		s := m.(*Submit)
		zz.Ensures("report flag", s.needReport == zvPick8(o.NeedReport, ac.NeedReport))
		zz.Ensures("priority", s.priority == zvPick8(o.MsgLevel, ac.DefaultMsgLevel))
		zz.Ensures("service id", s.serviceID == zvPick(o.ServiceId, ac.ServiceId))
		zz.Ensures("fee fields are the account's", s.feeType == ac.FeeType && s.feeCode == ac.FeeCode && s.chargeTermID == ac.FeeTerminalId && s.fixedFee == ac.FixedFee)
		zz.Ensures("schedule time", s.atTime == o.AtTime)
		zz.Ensures("source number with its sub number", s.srcTermID == ac.SmsDisplayNo+o.SpSubNo)
		zz.Ensures("validity", s.validTime == zvPick(o.ValidTime, zvNow.Add(ac.MtValidDuration).Format("060102150405")+"032+"))
		zz.Ensures("other fields are not options", s.Version == Version(ac.Version) && s.msgType == 6)
	}
}
