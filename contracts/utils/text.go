package utils

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C16: texts and octet strings

// A fixed-width field holds the text and NUL padding; what is read back is the part before the first NUL.
//
//gov:prop C16
//gov:func OctetString
//gov:func TrimOctetString
//gov:func TrimStr
func ZvOctetString() {
	s := zz.Str("s", 0, 300)
	w := zz.Int("width", 0, 300)
	o := OctetString(s, w)
	zz.Ensures("field has its width", len(o) == w)
	if len(s) <= w {
		zz.Ensures("field starts with the text", o[:len(s)] == s)
		zz.Ensures("field is padded with NUL", zz.Forall(len(s), w, func(i int) bool { return o[i] == 0 }))
	} else {
		zz.Ensures("a text too long keeps its end", o == s[len(s)-w:])
	}
	if zz.Forall(0, len(s), func(i int) bool { return s[i] != 0 }) && len(s) <= w {
		zz.Ensures("reading the field gives the text", TrimStr([]byte(o)) == s)
	}
}

//gov:prop C16
//gov:func TrimOctetString
//gov:func TrimStr
func ZvTrim() {
	b := zz.Bytes("b", 0, 70000)
	was := append([]byte(nil), b...)
	t := TrimOctetString(b)
	n := len(t)
	zz.Ensures("result is the start of the field", n <= len(b) && zz.EqBytes(t, b[:n]))
	zz.Ensures("result has no NUL", zz.Forall(0, n, func(i int) bool { return t[i] != 0 }))
	zz.Ensures("result ends at a NUL or the end of the field", n == len(b) || b[n] == 0)
	zz.Ensures("text form is the same", TrimStr(b) == string(t))
	zz.Ensures("field is not changed", zz.EqBytes(b, was))
}

//gov:prop C16
//gov:func CopyStr
//gov:func CopyByte
func ZvCopyField() {
	b := zz.Bytes("b", 0, 1000)
	was := append([]byte(nil), b...)
	i, w := zz.Int("i", 0, 1000), zz.Int("w", 0, 1000)
	zz.Requires(i+w < len(b))
	s := zz.Str("s", 0, 1000)
	zz.Ensures("next index", CopyStr(b, s, i, w) == i+w)
	c := zz.U8("c")
	zz.Ensures("index after a byte", CopyByte(b, c, i+w) == i+w+1)
	zz.Ensures("only the fields are written", zz.Forall(0, len(b), func(k int) bool {
		if k >= i && k < i+w && k-i < len(s) {
			return b[k] == s[k-i]
		}
		if k == i+w {
			return b[k] == c
		}
		return b[k] == was[k]
	}))
}

//gov:prop C16
//gov:func Bytes2StringSlice
//gov:bounded at most 8 pieces
func ZvPieces() {
	n := zz.Enum("n", 0, 8)
	w := []int{6, 20, 21, 32}[zz.Enum("width", 0, 3)]
	b := zz.Bytes("b", n*w, n*w)
	r := Bytes2StringSlice(b, w)
	if n == 0 {
		zz.Ensures("nothing is one empty piece", len(r) == 1 && r[0] == "")
		return
	}
	zz.Ensures("number of pieces", len(r) == n)
	for i := 0; i < n; i++ {
		zz.Ensures("piece is the text of its field", r[i] == zz.Trim(b[i*w:(i+1)*w]))
	}
}

// The hexadecimal form has all digits and identifies the number.
//
//gov:prop C16
//gov:func Uint64HexString
//gov:func Uint32HexString
func ZvHex() {
	v := zz.U64("v")
	s := Uint64HexString(v)
	zz.Ensures("sixteen digits", len(s) == 16)
	for i := 0; i < 16; i++ {
		zz.Ensures("hexadecimal digits of the number", s[i] == "0123456789abcdef"[v>>(60-4*i)&15])
	}
}

//gov:prop C16
//gov:func Uint32HexString
func ZvHex32() {
	v := zz.U32("v")
	s := Uint32HexString(v)
	zz.Ensures("eight digits", len(s) == 8)
	for i := 0; i < 8; i++ {
		zz.Ensures("hexadecimal digits of the number", s[i] == "0123456789abcdef"[v>>(28-4*i)&15])
	}
}

// Decimal digits packed two to a byte and back.
//
//gov:prop C16
//gov:func StoBcd
//gov:func BcdToString
//gov:bounded at most 20 digits
func ZvBcdDigits() {
	n := zz.Enum("n", 0, 10)
	s := zz.Digits("s", 2*n, 2*n)
	for i := 0; i < len(s); i++ {
		zz.Requires(s[i] >= '0' && s[i] <= '9')
	}
	b := StoBcd(s)
	zz.Ensures("two digits to a byte", len(b) == n)
	zz.Ensures("digits in order", zz.Forall(0, n, func(i int) bool { return b[i] == (s[2*i]-'0')<<4|(s[2*i+1]-'0') }))
	zz.Ensures("unpacking gives the digits", BcdToString(b) == s)
}

//gov:prop C16
//gov:func BcdToString
//gov:func StoBcd
//gov:bounded at most 10 bytes
func ZvBcdBytes() {
	n := zz.Enum("n", 0, 10)
	b := zz.Bytes("b", n, n)
	zz.Requires(zvBcdOk(b))
	s := BcdToString(b)
	zz.Ensures("two digits for a byte", len(s) == 2*n)
	zz.Ensures("packing gives the bytes", zz.EqBytes(StoBcd(s), b))
}

//gov:prop C16
//gov:func IntToFixStr
//gov:bounded widths up to 6
func ZvFixed() {
	w := zz.Enum("w", 1, 6)
	p := 1
	for i := 0; i < w; i++ {
		p *= 10
	}
	n := zz.Int("n", 0, 999999)
	zz.Requires(n < p)
	s := IntToFixStr(int64(n), w)
	zz.Ensures("width", len(s) == w)
	for i := 0; i < w; i++ {
		p /= 10
		zz.Ensures("decimal digits of the number", s[i] == '0'+byte(n/p%10))
	}
}

// A valid text survives conversion; an invalid one is refused.
//
//gov:prop C16
//gov:func Utf8ToUcs2
//gov:func Ucs2ToUtf8
//gov:func Utf8ToGB18030
//gov:func GB18030ToUtf8
func ZvTranscode() {
	s := zz.Str("s", 0, 70000)
	u, err := Utf8ToUcs2(s)
	g, errg := Utf8ToGB18030(s)
	if !zz.ValidUTF8(s) {
		zz.Ensures("invalid text is refused", err == ErrInvalidUtf8Rune && u == nil && errg == ErrInvalidUtf8Rune && g == "")
		return
	}
	zz.Ensures("valid text is converted", err == nil && errg == nil)
	zz.Ensures("UCS-2 has the text", string(u) == zz.Ucs2(s))
	zz.Ensures("GB18030 has the text", g == zz.GB(s))
	b, err := Ucs2ToUtf8(u)
	zz.Ensures("UCS-2 is converted back", err == nil)
	zz.Ensures("same text from UCS-2", string(b) == s)
	t, err := GB18030ToUtf8(g)
	zz.Ensures("GB18030 is converted back", err == nil)
	if zz.Fork(zz.GBBack(s)) {
		zz.Ensures("same text from GB18030", t == s)
	} else if zz.Symbolic() {
		// known finding; kept out of replays, which would blame it for anything else
		zz.Ensures("same private use characters from GB18030", t == s)
	}
}

// The format is ASCII only for texts of single byte characters.
//
//gov:prop C16
//gov:func MsgFmt
func ZvMsgFmt() {
	s := zz.Str("s", 0, 70000)
	zz.Requires(zz.ValidUTF8(s) && (len(s) != 1 || s[0] < 0x80))
	f := MsgFmt(s)
	zz.Ensures("a text of single byte characters is ASCII", !zz.IsASCII(s) || f == 0)
	zz.Ensures("any other is UCS-2", zz.IsASCII(s) || f == 8)
}

//gov:prop C16
//gov:func Now
//gov:func TimeStamp2Str
func ZvTimestamp() {
	zvNow = time.Now()
	zz.Stub("time.Now", zvTimeNow)
	s, n := Now()
	t := zvNow
	zz.Ensures("number is mmddhhmmss", int(n) == ((((int(t.Month())*100+t.Day())*100+t.Hour())*100+t.Minute())*100)+t.Second())
	zz.Ensures("text is the number in ten digits", len(s) == 10 && s == TimeStamp2Str(n))
}

//gov:prop C16
//gov:func TimeStamp2Str
func ZvTimeStamp2Str() {
	n := zz.U32("n")
	s := TimeStamp2Str(n)
	zz.Ensures("ten digits", len(s) == 10)
	r := uint64(0)
	for i := 0; i < 10; i++ {
		r = r*10 + uint64(s[i]-'0')
	}
	zz.Ensures("digits give the number back", r == uint64(n))
}

//gov:prop C16
//gov:func FormatTime
func ZvFormatTime() {
	t := time.Now()
	s := FormatTime(t)
	zz.Ensures("sixteen characters", len(s) == 16)
	n := 0
	for i := 2; i < 12; i++ {
		n = n*10 + int(s[i]-'0')
	}
	zz.Ensures("month to second", n == ((((int(t.Month())*100+t.Day())*100+t.Hour())*100+t.Minute())*100)+t.Second())
	zz.Ensures("year", int(s[0]-'0')*10+int(s[1]-'0') == t.Year()%100)
	zz.Ensures("time zone of China", s[12:] == "032+")
}

type zvFrom struct {
	A string
	B int
	C uint8
	D []byte
	E int32
	F time.Duration
	G string
}

type zvTo struct {
	G string
	F time.Duration
	E int64 // another type
	C uint8
	X string // not in the source
	B int
	D []byte
}

// Fields of the same name and type are copied, all others are left alone.
//
//gov:prop C16
//gov:func StructCopy
func ZvStructCopy() {
	f := &zvFrom{zz.Str("A", 0, 50), zz.Int("B", -1<<62, 1<<62), zz.U8("C"), zz.Bytes("D", 1, 50), zz.I32("E"), time.Duration(zz.I64("F")), zz.Str("G", 0, 50)}
	t := &zvTo{X: zz.Str("X", 0, 50), E: zz.I64("E0"), G: zz.Str("G0", 0, 50), B: zz.Int("B0", -1<<62, 1<<62)}
	was, x, e := *f, t.X, t.E
	StructCopy(f, t)
	zz.Ensures("texts are copied", t.G == f.G)
	zz.Ensures("numbers are copied", t.B == f.B && t.C == f.C && t.F == f.F)
	zz.Ensures("slices are copied", zz.EqBytes(t.D, f.D))
	zz.Ensures("a field of another type is left alone", t.E == e)
	zz.Ensures("a field the source does not have is left alone", t.X == x)
	zz.Ensures("the source is left alone", f.A == was.A && f.B == was.B && f.C == was.C && f.E == was.E && f.F == was.F && f.G == was.G)
	StructCopy(*f, t)
	StructCopy(f, *t)
	StructCopy((*zvFrom)(nil), t)
	StructCopy(f, (*zvTo)(nil))
	zz.Ensures("values and nil pointers copy nothing", t.G == f.G && t.X == x && t.E == e)
}
