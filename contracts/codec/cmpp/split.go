package cmpp

import (
	"strings"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C05: splitting of long messages

// zvSplit: parts is a correct splitting of content into packets of at most limit bytes.
func zvSplit(parts [][]byte, content []byte, limit int) {
	if len(parts) == 1 {
		zz.Ensures("a single part is the message itself", zz.EqBytes(parts[0], content))
		zz.Ensures("a single part fits its limit", len(parts[0]) <= limit)
		return
	}
	zz.Ensures("a message shorter than the limit is one part without header", len(content) >= limit)
	at := 0
	for i, p := range parts {
		n := len(p) - 6
		zz.Ensures("part has a header and content", n > 0)
		zz.Ensures("part fits the limit", len(p) <= limit)
		zz.Ensures("part header announces a concatenated message", p[0] == 5 && p[1] == 0 && p[2] == 3)
		zz.Ensures("parts carry the same reference", p[3] == parts[0][3])
		zz.Ensures("part header counts the parts", int(p[4]) == len(parts))
		zz.Ensures("part header numbers the part", int(p[5]) == i+1)
		zz.Ensures("parts hold the message piece by piece", at+n <= len(content) && zz.EqBytes(p[6:], content[at:at+n]))
		at += n
	}
	zz.Ensures("nothing of the message is left out", at == len(content))
}

func zvPhones(n int) (ps []string) {
	for ; n > 0; n-- {
		ps = append(ps, zz.CStr("phone", 0, 21))
	}
	return ps
}

//gov:prop C05
//gov:func NewSubmit
//gov:func (*Submit).Encode
//gov:bounded at most 12 parts, 1..2 receivers
//gov:split 4
func ZvNewSubmit() {
	zvSequences()
	ac := zvAccount()
	phones := zvPhones(zz.Enum("phones", 1, 2))
	ucs := zz.Enum("ucs2", 0, 1) == 1
	txt := zz.Str("txt", 0, 154*12)
	zz.Requires(zz.ValidUTF8(txt))
	if ucs {
		zz.Requires(len([]rune(txt)) != len(txt) && len(txt) >= 2 && len(zz.Ucs2(txt)) <= 134*12)
	} else {
		zz.Requires(len([]rune(txt)) == len(txt))
	}
	seq := zz.U32("seq")
	ms := NewSubmit(ac, phones, txt, seq)
	zz.Ensures("some packet is built", len(ms) > 0)
	var parts [][]byte
	for i, m := range ms {
		s := m.(*Submit)
		parts = append(parts, s.msgContent)
		zz.Ensures("packet counts the parts", int(s.pkTotal) == len(ms))
		zz.Ensures("packet numbers the part", int(s.pkNumber) == i+1)
		zz.Ensures("packet declares the user data header of a part", (s.tpUdhi == 1) == (len(ms) > 1) && s.tpUdhi <= 1)
		zz.Ensures("packet declares the length of its content", int(s.msgLength) == len(s.msgContent))
		zz.Ensures("receivers are those of the message", int(s.destUsrTl) == len(phones) && s.destTerminalId == strings.Join(phones, ","))
		w, base := 21, 138
		if V30.MajorMatch(ac.Version) {
			w, base = 32, 163
		}
		zz.Ensures("packet declares its own length", int(s.TotalLength) == base+w*len(phones)+len(s.msgContent) && s.CommandId == CMPP_SUBMIT)
		for j, p := range phones {
			zz.Ensures("receivers are encoded in their fields", zvField(s.termIds, j*w, w, p))
		}
	}
	zz.Ensures("the first packet has the given sequence number", ms[0].(*Submit).SequenceId == seq)
	if ucs {
		zz.Ensures("format is UCS-2", ms[0].(*Submit).msgFmt == 8)
		zvSplit(parts, []byte(zz.Ucs2(txt)), 140)
	} else {
		zz.Ensures("format is ASCII", ms[0].(*Submit).msgFmt == 0)
		zvSplit(parts, []byte(txt), 160)
	}
	f := ms[len(ms)-1].(*Submit).Encode()
	zz.Ensures("the last packet can be encoded", uint32(len(f)) == ms[len(ms)-1].(*Submit).TotalLength)
}
