package utils

import (
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C05: splitting of long messages

// zvSplit: parts is a correct splitting of content into packets of at most limit bytes.
func zvSplit(parts [][]byte, content []byte, limit int) {
	if len(parts) == 1 {
		zz.Ensures("a single part is the message itself", zz.EqBytes(parts[0], content))
		zz.Ensures("a single part fits its limit", len(parts[0]) <= limit)
		return
	}
	zz.Ensures("a message shorter than the limit is one part without header", len(content) >= limit)
	at := 0
	for i, p := range parts {
		n := len(p) - 6
		zz.Ensures("part has a header and content", n > 0)
		zz.Ensures("part fits the limit", len(p) <= limit)
		zz.Ensures("part header announces a concatenated message", p[0] == 5 && p[1] == 0 && p[2] == 3)
		zz.Ensures("parts carry the same reference", p[3] == parts[0][3])
		zz.Ensures("part header counts the parts", int(p[4]) == len(parts))
		zz.Ensures("part header numbers the part", int(p[5]) == i+1)
		zz.Ensures("parts hold the message piece by piece", at+n <= len(content) && zz.EqBytes(p[6:], content[at:at+n]))
		at += n
	}
	zz.Ensures("nothing of the message is left out", at == len(content))
}

//gov:prop C05
//gov:func ToTPUDHISlices
//gov:split 2
func ZvToTPUDHISlices() {
	limit := []int{140, 160}[zz.Enum("limit", 0, 1)]
	content := zz.Bytes("content", 0, (limit-6)*255)
	parts := ToTPUDHISlices(content, limit)
	zvSplit(parts, content, limit)
}

//gov:prop C05
//gov:func MsgSlices
//gov:func MsgFmt
//gov:bounded at most 40 parts
func ZvMsgSlices() {
	txt := zz.Str("txt", 0, 154*40)
	zz.Requires(zz.ValidUTF8(txt) && len(zz.Ucs2(txt)) <= 134*40)
	f := MsgFmt(txt)
	zz.Ensures("format is ASCII or UCS-2", f == 0 || f == 8)
	parts := MsgSlices(f, txt)
	if f == 8 {
		zvSplit(parts, []byte(zz.Ucs2(txt)), 140)
	} else {
		zz.Ensures("ASCII format is used for single byte text only", len([]rune(txt)) == len(txt))
		zvSplit(parts, []byte(txt), 160)
	}
}
