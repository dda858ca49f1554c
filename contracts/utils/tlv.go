package utils

import (
	"errors"
	"io"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C13: TLV parameters

var zvBroken = errors.New("connection broken")

// One parameter: two bytes tag, two bytes length, the value; reading it back gives it again.
//
//gov:prop C13
//gov:func New
//gov:func ToBytes
//gov:func FromBytes
//gov:func WriteObject
//gov:func ReadObject
//gov:func Equal
//gov:func object.Type
//gov:func object.Length
//gov:func object.Value
func ZvTlvObject() {
	typ := zz.U16("typ")
	val := zz.Bytes("val", 0, 65535)
	o := New(typ, val)
	zz.Ensures("object has the tag", o.Type() == typ)
	zz.Ensures("object has the length", int(o.Length()) == len(val))
	zz.Ensures("object has the value", zz.EqBytes(o.Value(), val))
	b, err := ToBytes(o)
	zz.Ensures("encoding succeeds", err == nil)
	zz.Ensures("encoding has tag, length and value", len(b) == 4+len(val))
	zz.Ensures("encoded tag", b[0] == byte(typ>>8) && b[1] == byte(typ))
	zz.Ensures("encoded length", int(b[2])<<8|int(b[3]) == len(val))
	zz.Ensures("encoded value", zz.EqBytes(b[4:], val))
	p, err := FromBytes(b)
	zz.Ensures("decoding succeeds", err == nil)
	zz.Ensures("decoding gives the tag", p.Type() == typ)
	zz.Ensures("decoding gives the length", int(p.Length()) == len(val))
	zz.Ensures("decoding gives the value", zz.EqBytes(p.Value(), val))
	zz.Ensures("decoding gives an equal object", Equal(o, p))
}

// The object keeps its own copy of the value.
//
//gov:prop C13
//gov:func New
func ZvTlvNewCopies() {
	val := zz.Bytes("val", 1, 65535)
	o := New(zz.U16("typ"), val)
	i := zz.Int("i", 0, 65534)
	zz.Requires(i < len(val))
	was := val[i]
	val[i] = zz.U8("other")
	zz.Ensures("object keeps its value", o.Value()[i] == was)
}

// Any bytes: decoded exactly, or an error when they end inside the parameter.
//
//gov:prop C13
//gov:func FromBytes
func ZvTlvFromAnyBytes() {
	b := zz.Bytes("b", 0, 70000)
	n := len(b)
	o, err := FromBytes(b)
	if n < 4 {
		zz.Ensures("a cut header is an error", err != nil && o == nil)
		return
	}
	l := int(b[2])<<8 | int(b[3])
	if n < 4+l {
		zz.Ensures("a cut value is an error", err != nil && o == nil)
		return
	}
	zz.Ensures("a complete parameter is read", err == nil)
	zz.Ensures("tag as in the bytes", o.Type() == uint16(b[0])<<8|uint16(b[1]))
	zz.Ensures("length as in the bytes", int(o.Length()) == l)
	zz.Ensures("value as in the bytes", zz.EqBytes(o.Value(), b[4:4+l]))
}

// However the stream is cut into reads, a parameter is read exactly, nothing after it is consumed, and a
// stream ending or breaking inside it is an error.
//
//gov:prop C13
//gov:func ReadObject
func ZvTlvReadStream() {
	b := zz.Bytes("b", 0, 70000)
	n := len(b)
	r := &zz.Stream{Data: b, Fail: io.EOF}
	zz.Stub("io.ReadAtLeast", zz.ReadAtLeast)
	if zz.Fork(zz.Bool("broken")) {
		r.Fail = zvBroken
	}
	o, err := ReadObject(r)
	if n == 0 {
		zz.Ensures("the end of the stream is reported as such", err == r.Fail && o == nil)
		return
	}
	if n < 4 {
		zz.Ensures("a cut header is an error", err != nil && err != io.EOF && o == nil)
		return
	}
	l := int(b[2])<<8 | int(b[3])
	if n < 4+l {
		zz.Ensures("a cut value is an error", err != nil && err != io.EOF && o == nil)
		return
	}
	zz.Ensures("a complete parameter is read", err == nil)
	zz.Ensures("tag as in the stream", o.Type() == uint16(b[0])<<8|uint16(b[1]))
	zz.Ensures("length as in the stream", int(o.Length()) == l)
	zz.Ensures("value as in the stream", zz.EqBytes(o.Value(), b[4:4+l]))
	zz.Ensures("exactly the parameter is consumed", len(r.Data) == n-4-l)
}

// zvWriter accepts bytes until its space is used up.
type zvWriter struct {
	got   []byte
	space int
}

func (w *zvWriter) Write(p []byte) (int, error) {
	if len(p) > w.space {
		return 0, zvBroken
	}
	w.space -= len(p)
	w.got = append(w.got, p...)
	return len(p), nil
}

// A failing writer is reported.
//
//gov:prop C13
//gov:func WriteObject
func ZvTlvWriteFails() {
	typ := zz.U16("typ")
	val := zz.Bytes("val", 0, 65535)
	w := &zvWriter{space: zz.Int("space", 0, 70000)}
	had := w.space
	err := WriteObject(New(typ, val), w)
	zz.Ensures("an object is written completely or an error is returned", (err == nil) == (had >= 4+len(val)))
	if err == nil {
		zz.Ensures("whole object written", len(w.got) == 4+len(val))
		zz.Ensures("object written: header", w.got[0] == byte(typ>>8) && w.got[1] == byte(typ) && w.got[2] == byte(len(val)>>8) && w.got[3] == byte(len(val)))
		zz.Ensures("object written: value", zz.EqBytes(w.got[4:], val))
	}
}

func zvList(n int) (*TlvList, []uint16, [][]byte) {
	tl := NewTlvList()
	typ := make([]uint16, n)
	val := make([][]byte, n)
	for i := 0; i < n; i++ {
		typ[i] = zz.U16("typ")
		val[i] = zz.Bytes("val", 0, 65535)
		tl.Add(typ[i], val[i])
	}
	return tl, typ, val
}

// zvIs: the list holds exactly these parameters in this order.
func zvIs(what string, tl *TlvList, typ []uint16, val [][]byte) {
	zz.Ensures(what+": number of parameters", int(tl.Length()) == len(typ))
	i := 0
	for e := tl.objects.Front(); e != nil; e = e.Next() {
		o := e.Value.(TLV)
		zz.Ensures(what+": no more parameters", i < len(typ))
		zz.Ensures(what+": tag", o.Type() == typ[i])
		zz.Ensures(what+": length", int(o.Length()) == len(val[i]))
		zz.Ensures(what+": value", zz.EqBytes(o.Value(), val[i]))
		i++
	}
	zz.Ensures(what+": no fewer parameters", i == len(typ))
}

// A list written and read back, through reads of any size, is the same list.
//
//gov:prop C13
//gov:func Read
//gov:func TlvList.Write
//gov:func TlvList.Add
//gov:func TlvList.Length
//gov:func NewTlvList
//gov:bounded lists of at most 4 parameters
//gov:split 5
func ZvTlvList() {
	n := zz.Enum("n", 0, 4)
	tl, typ, val := zvList(n)
	for i := 0; i < n; i++ {
		zz.Fork(len(val[i]) == 0)
	}
	zvIs("list built", tl, typ, val)
	w := &zvWriter{space: 1 << 30}
	err := tl.Write(w)
	zz.Ensures("writing succeeds", err == nil)
	zz.Stub("io.ReadAtLeast", zz.ReadAtLeast)
	got, err := Read(&zz.Stream{Data: w.got, Fail: io.EOF})
	zz.Ensures("reading succeeds", err == nil)
	zvIs("list read back", got, typ, val)
}

// A list whose stream is cut anywhere is an error unless the cut falls between two parameters.
//
//gov:prop C13
//gov:func Read
//gov:bounded streams of at most 3 parameters
//gov:split 4
func ZvTlvListCut() {
	n := zz.Enum("n", 0, 3)
	var all []byte
	typ := make([]uint16, n)
	val := make([][]byte, n)
	for i := 0; i < n; i++ {
		typ[i] = zz.U16("typ")
		val[i] = zz.Bytes("val", 0, 65535)
		all = append(all, byte(typ[i]>>8), byte(typ[i]), byte(len(val[i])>>8), byte(len(val[i])))
		all = append(all, val[i]...)
	}
	whole := len(all)
	if n > 0 {
		whole -= 4 + len(val[n-1])
	}
	cut := zz.Int("cut", 0, 4*70000)
	zz.Requires(cut >= whole && cut <= len(all)) // the cut falls into the last parameter
	r := &zz.Stream{Data: all[:cut], Fail: io.EOF}
	zz.Stub("io.ReadAtLeast", zz.ReadAtLeast)
	got, err := Read(r)
	switch {
	case cut == len(all):
		zz.Ensures("a complete stream is read", err == nil)
		zvIs("complete stream", got, typ, val)
	case cut == whole:
		zz.Ensures("a stream cut between parameters is read", err == nil)
		zvIs("stream cut between parameters", got, typ[:n-1], val[:n-1])
	default:
		zz.Ensures("a stream cut inside a parameter is an error", err != nil)
	}
}

// A broken stream is an error.
//
//gov:prop C13
//gov:func Read
//gov:bounded streams of at most 2 parameters
func ZvTlvListBroken() {
	n := zz.Enum("n", 0, 2)
	var all []byte
	for i := 0; i < n; i++ {
		v := zz.Bytes("val", 0, 65535)
		all = append(all, zz.U8("t"), zz.U8("t"), byte(len(v)>>8), byte(len(v)))
		all = append(all, v...)
	}
	zz.Stub("io.ReadAtLeast", zz.ReadAtLeast)
	_, err := Read(&zz.Stream{Data: all, Fail: zvBroken})
	zz.Ensures("a broken stream is an error", err != nil)
}

// Get finds the first parameter with a tag, GetAll all of them in order.
//
//gov:prop C13
//gov:func TlvList.Get
//gov:func TlvList.GetAll
//gov:bounded lists of at most 4 parameters
//gov:split 5
func ZvTlvGet() {
	n := zz.Enum("n", 0, 4)
	tl, typ, val := zvList(n)
	t := zz.U16("t")
	o, err := tl.Get(t)
	all := tl.GetAll(t)
	k := 0
	for i := 0; i < n; i++ {
		if typ[i] == t {
			if k == 0 {
				zz.Ensures("a parameter with the tag is found", err == nil)
				zz.Ensures("the first one is found", o.Type() == t && zz.EqBytes(o.Value(), val[i]))
			}
			zz.Ensures("every one is in the list of all", k < len(all))
			zz.Ensures("in order", all[k].Type() == t && zz.EqBytes(all[k].Value(), val[i]))
			k++
		}
	}
	zz.Ensures("no others are in the list of all", len(all) == k)
	if k == 0 {
		zz.Ensures("an absent tag is reported", err == ErrTypeNotFound && o == nil)
	}
	zvIs("list unchanged", tl, typ, val)
}

// Remove takes out every parameter with the tag and no other; RemoveObject those equal to the object.
//
//gov:prop C13
//gov:func TlvList.Remove
//gov:func TlvList.RemoveObject
//gov:func TlvList.AddObject
//gov:func Equal
//gov:bounded lists of at most 3 parameters
//gov:split 4
func ZvTlvRemove() {
	n := zz.Enum("n", 0, 3)
	tl, typ, val := zvList(n)
	t := zz.U16("t")
	var wt []uint16
	var wv [][]byte
	var removed int
	if zz.Fork(zz.Bool("object")) {
		v := zz.Bytes("v", 0, 65535)
		o := New(t, v)
		removed = tl.RemoveObject(o)
		for i := 0; i < n; i++ {
			if typ[i] != t || !zz.EqBytes(val[i], v) {
				wt, wv = append(wt, typ[i]), append(wv, val[i])
			}
		}
		zz.Ensures("number of parameters removed", removed == n-len(wt))
		zvIs("parameters left", tl, wt, wv)
		tl.AddObject(o)
		wt, wv = append(wt, t), append(wv, v)
		zvIs("object added at the end", tl, wt, wv)
		return
	}
	removed = tl.Remove(t)
	for i := 0; i < n; i++ {
		if typ[i] != t {
			wt, wv = append(wt, typ[i]), append(wv, val[i])
		}
	}
	zz.Ensures("number of parameters removed", removed == n-len(wt))
	zvIs("parameters left", tl, wt, wv)
}

// Printing a list or parameter never crashes.
//
//gov:prop C13
//gov:func TlvList.String
//gov:func object.String
//gov:bounded lists of at most 2 parameters
func ZvTlvString() {
	n := zz.Enum("n", -1, 2)
	var tl *TlvList
	if n >= 0 {
		tl, _, _ = zvList(n)
	}
	zz.Ensures("a list prints in brackets", len(tl.String()) >= 2)
}

// Equal compares tag and value.
//
//gov:prop C13
//gov:func Equal
func ZvTlvEqual() {
	t1, t2 := zz.U16("t1"), zz.U16("t2")
	v1, v2 := zz.Bytes("v1", 0, 65535), zz.Bytes("v2", 0, 65535)
	eq := Equal(New(t1, v1), New(t2, v2))
	zz.Ensures("equal exactly when tags and values are", eq == (t1 == t2 && zz.EqBytes(v1, v2)))
	zz.Ensures("nothing is equal only to nothing", Equal(nil, nil) && !Equal(New(t1, v1), nil) && !Equal(nil, New(t1, v1)))
}
