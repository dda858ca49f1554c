package sgip

import (
	"time"

	"github.com/hrygo/gosms/codec"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ---------------------------------------------------------------- specification vocabulary

func zvBe32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}

// zvField: b[i:i+n] is s padded with NUL to n bytes.
func zvField(b []byte, i, n int, s string) bool {
	return zz.Forall(0, n, func(k int) bool {
		if k < len(s) {
			return b[i+k] == s[k]
		}
		return b[i+k] == 0
	})
}

func zvHead(b []byte, total uint32, cmd CommandId, seq []uint32) bool {
	return zvBe32(b, 0) == total && zvBe32(b, 4) == uint32(cmd) && zvBe32(b, 8) == seq[0] && zvBe32(b, 12) == seq[1] && zvBe32(b, 16) == seq[2]
}

func zvSeqIs(a, b []uint32) bool {
	return len(a) == 3 && len(b) == 3 && a[0] == b[0] && a[1] == b[1] && a[2] == b[2]
}

func zvSeq() []uint32 { return []uint32{zz.U32("seq0"), zz.U32("seq1"), zz.U32("seq2")} }

// zvBody is an arbitrary packet body: the first n bytes of a buffer which may be longer.
func zvBody(max int) []byte {
	b := zz.Bytes("buf", 0, max)
	n := zz.Int("n", 0, max)
	zz.Requires(n <= len(b))
	return b[:n]
}

func zvAccount() *codec.AuthConf {
	return &codec.AuthConf{
		ClientId:        zz.CStr("ac.ClientId", 0, 16),
		LoginName:       zz.CStr("ac.LoginName", 0, 16),
		SharedSecret:    zz.CStr("ac.SharedSecret", 0, 16),
		Version:         zz.U8("ac.Version"),
		NeedReport:      zz.U8("ac.NeedReport"),
		SmsDisplayNo:    zz.CStr("ac.SmsDisplayNo", 0, 21),
		ServiceId:       zz.CStr("ac.ServiceId", 0, 10),
		DefaultMsgLevel: zz.U8("ac.DefaultMsgLevel"),
		MtValidDuration: time.Duration(zz.Int("ac.MtValidDuration", 0, 1000000000000000)),
	}
}

func zvSequencer() {
	Sequencer = &sequence{node: zz.U32("node"), timestamp: zz.U32("timestamp"), sequence: zz.U32("sequence")}
}
