package smgp

import (
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C05: splitting of long messages

// zvSplit: parts is a correct splitting of content into packets of at most limit bytes.
func zvSplit(parts [][]byte, content []byte, limit int) {
	if len(parts) == 1 {
		zz.Ensures("a single part is the message itself", zz.EqBytes(parts[0], content))
		zz.Ensures("a single part fits its limit", len(parts[0]) <= limit)
		return
	}
	zz.Ensures("a message shorter than the limit is one part without header", len(content) >= limit)
	at := 0
	for i, p := range parts {
		n := len(p) - 6
		zz.Ensures("part has a header and content", n > 0)
		zz.Ensures("part fits the limit", len(p) <= limit)
		zz.Ensures("part header announces a concatenated message", p[0] == 5 && p[1] == 0 && p[2] == 3)
		zz.Ensures("parts carry the same reference", p[3] == parts[0][3])
		zz.Ensures("part header counts the parts", int(p[4]) == len(parts))
		zz.Ensures("part header numbers the part", int(p[5]) == i+1)
		zz.Ensures("parts hold the message piece by piece", at+n <= len(content) && zz.EqBytes(p[6:], content[at:at+n]))
		at += n
	}
	zz.Ensures("nothing of the message is left out", at == len(content))
}

func zvPhones(n int) (ps []string) {
	for ; n > 0; n-- {
		ps = append(ps, zz.CStr("phone", 0, 21))
	}
	return ps
}

//gov:prop C05
//gov:func NewSubmit
//gov:func (*Submit).Encode
//gov:bounded at most 40 parts, 1..2 receivers
//gov:split 2
func ZvNewSubmit() {
	zvSequences()
	ac := zvAccount()
	phones := zvPhones(zz.Enum("phones", 1, 2))
	txt := zz.Str("txt", 0, 134*80)
	zz.Requires(zz.ValidUTF8(txt) && len(zz.GB(txt)) <= 134*40)
	seq := zz.U32("seq")
	ms := NewSubmit(ac, phones, txt, seq)
	zz.Ensures("some packet is built", len(ms) > 0)
	var parts [][]byte
	for i, m := range ms {
		s := m.(*Submit)
		parts = append(parts, s.msgContent)
		n := 126 + 21*len(phones) + len(s.msgContent)
		if len(ms) > 1 {
			zz.Ensures("part carries its optional parameters", s.tlvList != nil && s.tlvList.Length() == 4)
			t, e1 := s.tlvList.Get(PkTotal)
			k, e2 := s.tlvList.Get(PkNumber)
			u, e3 := s.tlvList.Get(TP_udhi)
			zz.Ensures("packet counts the parts", e1 == nil && len(t.Value()) == 1 && int(t.Value()[0]) == len(ms))
			zz.Ensures("packet numbers the part", e2 == nil && len(k.Value()) == 1 && int(k.Value()[0]) == i+1)
			zz.Ensures("packet declares the user data header of a part", e3 == nil && len(u.Value()) == 1 && u.Value()[0] == 1)
			n += 20
		} else {
			zz.Ensures("a message in one packet declares no user data header", !s.hasUdh())
		}
		zz.Ensures("packet declares the length of its content", int(s.msgLength) == len(s.msgContent))
		zz.Ensures("receivers are those of the message", int(s.destTermIDCount) == len(phones) && len(s.destTermID) == len(phones))
		zz.Ensures("packet declares its own length", int(s.PacketLength) == n && s.RequestId == SMGP_SUBMIT)
		for j, p := range phones {
			zz.Ensures("receivers are the given ones in order", s.destTermID[j] == p)
		}
	}
	zz.Ensures("the first packet has the given sequence number", ms[0].(*Submit).SequenceId == seq)
	zz.Ensures("format is GB18030", ms[0].(*Submit).msgFormat == 15)
	zvSplit(parts, []byte(zz.GB(txt)), 140)
	f := ms[len(ms)-1].(*Submit).Encode()
	zz.Ensures("the last packet can be encoded", uint32(len(f)) == ms[len(ms)-1].(*Submit).PacketLength)
}
