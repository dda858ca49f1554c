// Package zzv is the specification language of the contracts: when a contract is verified these
// functions are primitives of the verification-condition generator (their bodies are not used); when a
// counterexample is replayed, or inputs are searched for, the bodies below run against the real code.
package zzv

import (
	"bytes"
	"crypto/md5"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/unicode"
)

// Fail is the value panicked with when a contract clause is false on the real code.
type Fail struct{ Label string }

func (f Fail) Error() string { return "FAILED " + f.Label }

// Skip is the value panicked with when the inputs do not satisfy the precondition.
type Skip struct{}

var (
	inputs map[string]json.RawMessage
	rng    *rand.Rand
	count  map[string]int
	keep   = 1.0
	Drawn  map[string]any
)

// Begin starts one concrete run: values come from in, missing ones (or a fraction of all of them when
// keepRate < 1) from the generator.
func Begin(in map[string]json.RawMessage, seed int64, keepRate float64) {
	inputs = in
	rng = rand.New(rand.NewSource(seed))
	count = map[string]int{}
	keep = keepRate
	Drawn = map[string]any{}
	stubs, active = map[string]any{}, map[string]int{}
	started, clock = nil, time.Time{}
	lazy = map[*sync.Map]*lazyMap{}
}

// Outcome runs f: "" when every clause held, "skip" when the precondition failed, otherwise the failure.
func Outcome(f func()) (res string) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case Skip:
				res = "skip"
			case Fail:
				res = v.Error()
			default:
				res = fmt.Sprintf("FAILED panic: %v", e)
			}
		}
	}()
	f()
	return ""
}

// LoadInputs reads an inputs file.
func LoadInputs(path string) map[string]json.RawMessage {
	m := map[string]json.RawMessage{}
	b, err := os.ReadFile(path)
	if err == nil {
		_ = json.Unmarshal(b, &m)
	}
	return m
}

func name(n string) string {
	if count == nil {
		Begin(nil, 1, 1)
	}
	c := count[n]
	count[n] = c + 1
	if c > 0 {
		return n + "#" + strconv.Itoa(c)
	}
	return n
}

func rec(n string, v any) {
	Drawn[n] = v
}

func given(n string) (json.RawMessage, bool) {
	r, ok := inputs[n]
	if ok && keep < 1 && rng.Float64() > keep {
		return nil, false
	}
	return r, ok
}

func unsigned(nm string, bits uint) uint64 {
	nm = name(nm)
	var v uint64
	if r, ok := given(nm); ok {
		var s string
		if json.Unmarshal(r, &s) == nil {
			v, _ = strconv.ParseUint(s, 10, 64)
		}
	} else {
		switch rng.Intn(4) {
		case 0:
			v = uint64(rng.Intn(4))
		case 1:
			v = 1<<bits - 1 - uint64(rng.Intn(3))
		default:
			v = rng.Uint64()
		}
	}
	if bits < 64 {
		v &= 1<<bits - 1
	}
	rec(nm, strconv.FormatUint(v, 10))
	return v
}

func signed(nm string, bits uint) int64 {
	nm = name(nm)
	var v int64
	if r, ok := given(nm); ok {
		var s string
		if json.Unmarshal(r, &s) == nil {
			v, _ = strconv.ParseInt(s, 10, 64)
		}
	} else {
		switch rng.Intn(3) {
		case 0:
			v = int64(rng.Intn(9)) - 4
		default:
			v = int64(rng.Uint64())
			if bits < 64 {
				v = v << (64 - bits) >> (64 - bits)
			}
		}
	}
	rec(nm, strconv.FormatInt(v, 10))
	return v
}

func U8(n string) uint8   { return uint8(unsigned(n, 8)) }
func U16(n string) uint16 { return uint16(unsigned(n, 16)) }
func U32(n string) uint32 { return uint32(unsigned(n, 32)) }
func U64(n string) uint64 { return unsigned(n, 64) }
func I64(n string) int64  { return signed(n, 64) }
func I32(n string) int32  { return int32(signed(n, 32)) }

// Int is an arbitrary int in [lo, hi].
func Int(n string, lo, hi int) int {
	nm := name(n)
	if hi < lo {
		panic(Skip{})
	}
	v := lo
	if r, ok := given(nm); ok {
		var s string
		if json.Unmarshal(r, &s) == nil {
			v, _ = strconv.Atoi(s)
		}
		if v < lo || v > hi {
			panic(Skip{})
		}
	} else {
		v = pick(lo, hi)
	}
	rec(nm, strconv.Itoa(v))
	return v
}

func pick(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	w := hi - lo + 1
	switch rng.Intn(6) {
	case 0:
		return lo
	case 1:
		return hi
	}
	if w <= 0 {
		return lo + int(rng.Int63())
	}
	return lo + rng.Intn(w)
}

// Enum is an arbitrary int in [lo, hi], enumerated by the verifier.
func Enum(n string, lo, hi int) int { return Int(n, lo, hi) }

// Fork is c; the verifier proves the rest separately for both values.
func Fork(c bool) bool { return c }

func Bool(n string) bool {
	nm := name(n)
	v := false
	if r, ok := given(nm); ok {
		_ = json.Unmarshal(r, &v)
	} else {
		v = rng.Intn(2) == 0
	}
	rec(nm, v)
	return v
}

func byts(n string, lo, hi int, gen func(left int) byte) []byte {
	nm := name(n)
	if hi < lo {
		panic(Skip{})
	}
	if r, ok := given(nm); ok {
		var a []int
		_ = json.Unmarshal(r, &a)
		b := make([]byte, len(a))
		for i, v := range a {
			b[i] = byte(v)
		}
		if len(b) < lo || len(b) > hi {
			panic(Skip{})
		}
		rec(nm, a)
		return b
	}
	if hi-lo > 6000 && rng.Intn(20) > 0 {
		hi = lo + 6000
	}
	if hi-lo > 100000 {
		hi = lo + 100000
	}
	l := pick(lo, hi)
	b := make([]byte, l)
	a := make([]int, l)
	for i := range b {
		b[i] = gen(l - i)
		a[i] = int(b[i])
	}
	rec(nm, a)
	return b
}

// Bytes is an arbitrary byte slice; Str an arbitrary string.
func Bytes(n string, lo, hi int) []byte {
	z := rng == nil || rng.Intn(3) == 0
	return byts(n, lo, hi, func(int) byte {
		if z && rng.Intn(2) == 0 {
			return 0
		}
		return byte(rng.Intn(256))
	})
}
func Str(n string, lo, hi int) string {
	if rng != nil && rng.Intn(4) == 0 {
		// a text in UTF-8
		var cur []byte
		return string(byts(n, lo, hi, func(left int) byte {
			for len(cur) == 0 || len(cur) > left {
				cur = []byte(string(runes[rng.Intn(len(runes))]))
			}
			b := cur[0]
			cur = cur[1:]
			return b
		}))
	}
	if rng != nil && rng.Intn(2) == 0 {
		return string(byts(n, lo, hi, func(int) byte { return byte(32 + rng.Intn(95)) }))
	}
	return string(Bytes(n, lo, hi))
}

var runes = []rune("\ufeffa@1\u00e9\u4f60\u597d\ufffd\U0001f600\u20ac\ufffeZ\u2028\x00 ~\u00ff\u0416\U0010ffff\ud7ff\ue000")

// CStr has no NUL bytes.
func CStr(n string, lo, hi int) string {
	return only(string(byts(n, lo, hi, func(int) byte { return byte(1 + rng.Intn(255)) })), 1, 255)
}

// Digits has decimal digits only.
func Digits(n string, lo, hi int) string {
	return only(string(byts(n, lo, hi, func(int) byte { return byte('0' + rng.Intn(10)) })), '0', '9')
}

// ASCII has bytes 1..127.
func ASCII(n string, lo, hi int) string {
	return only(string(byts(n, lo, hi, func(int) byte { return byte(1 + rng.Intn(127)) })), 1, 127)
}

// only discards inputs (taken from a solver's model) outside the range of their kind.
func only(s string, lo, hi byte) string {
	for i := 0; i < len(s); i++ {
		if s[i] < lo || s[i] > hi {
			panic(Skip{})
		}
	}
	return s
}

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Assume states an assumption (reported as unchecked).
func Assume(c bool) { Requires(c) }

// Ensures states a postcondition.
func Ensures(label string, c bool) {
	if !c {
		panic(Fail{label})
	}
}

// Pre states, inside a callee contract, the precondition its callers must establish.
func Pre(label string, c bool) {
	if !c {
		panic(Fail{"precondition: " + label})
	}
}

// Cover asserts that the point is reachable (checked by the verifier).
func Cover(label string) {}

// Forall is bounded universal quantification.
func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// Trim is the part of b before the first NUL.
func Trim(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		return string(b[:i])
	}
	return string(b)
}

func Md5(b []byte) string {
	m := md5.Sum(b)
	return string(m[:])
}

func Ucs2(s string) string {
	r, _ := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewEncoder().String(s)
	return r
}
func FromUcs2(s string) string {
	r, _ := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder().String(s)
	return r
}
func GB(s string) string {
	r, _ := simplifiedchinese.GB18030.NewEncoder().String(s)
	return r
}

// GBBack: s has none of the private use characters that golang.org/x/text does not convert back from GB18030.
func GBBack(s string) bool {
	for _, r := range s {
		if r >= 0xe000 && r <= 0xe864 {
			return false
		}
	}
	return true
}
func FromGB(s string) string {
	r, _ := simplifiedchinese.GB18030.NewDecoder().String(s)
	return r
}

func ValidUTF8(s string) bool { return utf8.ValidString(s) }
func IsASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// Symbolic is true under the verifier, false on a concrete run.
func Symbolic() bool { return false }

// Loop attaches a loop contract: the ord-th loop of fn (in source order) assigns what havoc assigns and
// maintains inv.
func Loop(fn string, ord int, havoc func(), inv func() bool) {}

// Guarded states a lock invariant.
func Guarded(mu any, havoc func(), inv func() bool) { Requires(inv()) }

// Protect states that the code under contract accesses *p only while mu is held.
func Protect(p, mu any) {}
func LockHeld(mu any) bool {
	if l, ok := mu.(interface {
		TryLock() bool
		Unlock()
	}); ok {
		if l.TryLock() {
			l.Unlock()
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- concrete runs: replaced callees, goroutines, clock

var (
	stubs   map[string]any
	active  map[string]int
	started []func()
	clock   time.Time
	lazy    map[*sync.Map]*lazyMap
)

type lazyMap struct {
	mk   func(k any) any
	seen map[any]bool
}

// Stub replaces a callee by its contract.
func Stub(fn string, f any) {
	if stubs != nil {
		stubs[fn] = f
	}
}

// Hook stands, on a concrete run, at every call of a function that a contract replaces: it is the replacement, except
// within the replacement itself.
func Hook[F any](name string, f F) F {
	s, ok := stubs[name]
	if !ok || active[name] > 0 {
		if d, ok := fallback(name).(F); ok {
			return d
		}
		if strings.HasPrefix(name, "(*sync.Map).") && len(lazy) > 0 {
			return reflect.MakeFunc(reflect.TypeOf(f), func(a []reflect.Value) []reflect.Value {
				if l := lazy[a[0].Interface().(*sync.Map)]; l != nil && len(a) > 1 && a[1].Type().Kind() == reflect.Interface {
					if k := a[1].Interface(); !l.seen[k] {
						l.seen[k] = true
						if rng.Intn(3) > 0 {
							a[0].Interface().(*sync.Map).Store(k, l.mk(k))
						}
					}
				}
				return reflect.ValueOf(f).Call(a)
			}).Interface().(F)
		}
		return f
	}
	sv := reflect.ValueOf(s)
	return reflect.MakeFunc(reflect.TypeOf(f), func(a []reflect.Value) []reflect.Value {
		active[name]++
		defer func() { active[name]-- }()
		if sv.Type().IsVariadic() {
			return sv.CallSlice(a)
		}
		return sv.Call(a)
	}).Interface().(F)
}

func now() time.Time {
	if rng == nil {
		return time.Now()
	}
	steps := []time.Duration{0, 1, time.Microsecond, 300 * time.Microsecond, time.Millisecond, 20 * time.Millisecond, time.Second, time.Minute, 3 * time.Hour}
	if clock.IsZero() {
		clock = time.Unix(0, rng.Int63n(1<<61))
	} else {
		clock = clock.Add(steps[rng.Intn(len(steps))])
	}
	return clock
}

func fallback(name string) any {
	switch name {
	case "time.Now":
		return now
	case "time.Since":
		return func(t time.Time) time.Duration { return Hook("time.Now", time.Now)().Sub(t) }
	case "time.Until":
		return func(t time.Time) time.Duration { return t.Sub(Hook("time.Now", time.Now)()) }
	case "time.Sleep":
		return func(d time.Duration) {}
	}
	return nil
}

// Go stands, on a concrete run, at the go statements.
func Go(f func()) { started = append(started, f) }

// RunGo runs the goroutines started so far to completion.
func RunGo() {
	for len(started) > 0 {
		f := started[0]
		started = started[1:]
		f()
	}
}
func PendingGo() int { return len(started) }
func DropGo()        { started = nil }

func HavocU8(n string) uint8     { return uint8(rng.Intn(256)) }
func HavocInt(n string) int      { return int(rng.Int63()) }
func HavocI32(n string) int32    { return int32(rng.Uint32()) }
func HavocU32(n string) uint32   { return rng.Uint32() }
func HavocU64(n string) uint64   { return rng.Uint64() }
func HavocBool(n string) bool    { return rng.Intn(2) == 0 }
func HavocBytes(n string) []byte { return nil }
func HavocStr(n string) string   { return "" }
func Sync()                      {}

// Stream delivers Data in reads of arbitrary sizes and then fails with Fail.
type Stream struct {
	Data []byte
	Fail error
}

func (r *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.Data) == 0 {
		return 0, r.Fail
	}
	m := len(p)
	if len(r.Data) < m {
		m = len(r.Data)
	}
	k := Int("read", 1, m)
	copy(p, r.Data[:k])
	r.Data = r.Data[k:]
	return k, nil
}

// Streamer is implemented by what embeds a stream.
type Streamer interface{ TheStream() *Stream }

func (r *Stream) TheStream() *Stream { return r }

// ReadAtLeast is the contract assumed of io.ReadAtLeast (and so of io.ReadFull): for a Stream, the effect of
// reading until enough bytes have come, whatever the sizes of the reads; for other readers, the loop of the library.
func ReadAtLeast(r io.Reader, buf []byte, min int) (n int, err error) {
	if len(buf) < min {
		return 0, io.ErrShortBuffer
	}
	if sr, ok := r.(Streamer); ok {
		s := sr.TheStream()
		if min == 0 {
			return 0, nil
		}
		if len(s.Data) < min {
			n = len(s.Data)
			copy(buf, s.Data)
			s.Data = nil
			if n > 0 && s.Fail == io.EOF {
				return n, io.ErrUnexpectedEOF
			}
			return n, s.Fail
		}
		n = min
		if min < len(buf) {
			n = Int("read", min, len(buf))
			Requires(n <= len(s.Data))
		}
		copy(buf, s.Data[:n])
		s.Data = s.Data[n:]
		return n, nil
	}
	for n < min && err == nil {
		var k int
		k, err = r.Read(buf[n:])
		n += k
	}
	if n >= min {
		err = nil
	} else if n > 0 && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return
}

// LazySyncMap makes m an arbitrary map: whether it has a key, and which value mk makes for it, is decided when the key
// is first looked up. LazyMap does the same for a map value.
func LazySyncMap(m *sync.Map, mk func(k any) any) {
	if lazy != nil {
		m.Range(func(k, _ any) bool { m.Delete(k); return true })
		lazy[m] = &lazyMap{mk, map[any]bool{}}
	}
}
func LazyMap(m any, mk func(k any) any) {}
