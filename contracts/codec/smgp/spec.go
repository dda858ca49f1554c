package smgp

import (
	"time"

	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ---------------------------------------------------------------- specification vocabulary

func zvBe32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

// zvField: b[i:i+n] is s padded with NUL to n bytes.
func zvField(b []byte, i, n int, s string) bool {
	return zz.Forall(0, n, func(k int) bool {
		if k < len(s) {
			return b[i+k] == s[k]
		}
		return b[i+k] == 0
	})
}

func zvHead(b []byte, total uint32, cmd CommandId, seq uint32) bool {
	return zvBe32(b, 0) == total && zvBe32(b, 4) == uint32(cmd) && zvBe32(b, 8) == seq
}

// zvBody is an arbitrary packet body: the first n bytes of a buffer which may be longer.
func zvBody(max int) []byte {
	b := zz.Bytes("buf", 0, max)
	n := zz.Int("n", 0, max)
	zz.Requires(n <= len(b))
	return b[:n]
}

func zvAccount() *codec.AuthConf {
	return &codec.AuthConf{
		ClientId:        zz.CStr("ac.ClientId", 0, 8),
		SharedSecret:    zz.Str("ac.SharedSecret", 0, 32),
		Version:         zz.U8("ac.Version"),
		NeedReport:      zz.U8("ac.NeedReport"),
		SmsDisplayNo:    zz.CStr("ac.SmsDisplayNo", 0, 21),
		ServiceId:       zz.CStr("ac.ServiceId", 0, 10),
		DefaultMsgLevel: zz.U8("ac.DefaultMsgLevel"),
		FeeTerminalId:   zz.CStr("ac.FeeTerminalId", 0, 21),
		FeeType:         zz.CStr("ac.FeeType", 0, 2),
		FeeCode:         zz.CStr("ac.FeeCode", 0, 6),
		FixedFee:        zz.CStr("ac.FixedFee", 0, 6),
		MtValidDuration: time.Duration(zz.Int("ac.MtValidDuration", 0, 1000000000000000)),
	}
}

// ---------------------------------------------------------------- sequence generators (contracts)

type zvSeq32 struct{}

func (zvSeq32) NextVal() int32 { return zz.I32("seq32") }

type zvSeq64 struct{}

func (zvSeq64) NextVal() int64 { return zz.I64("seq64") }

type zvSeqBcd struct{}

func (zvSeqBcd) NextVal() []byte { return zz.Bytes("bcd", 10, 10) }

func zvSequences() {
	codec.B32Seq = zvSeq32{}
	codec.B64Seq = zvSeq64{}
	codec.BcdSeq = zvSeqBcd{}
}
