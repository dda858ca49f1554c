package utils

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C10: sequence numbers

// Whatever came before: the next value is the previous one plus one modulo 2^26, under the bits of the node.
//
//gov:prop C10
//gov:func CycleSequence.NextVal
//gov:func NewCycleSequence
func ZvCycleSequence() {
	d, w := int32(zz.Int("datacenter", 0, 3)), int32(zz.Int("worker", 0, 7))
	s := NewCycleSequence(d, w)
	zz.Protect(s, &s.Mutex)
	s.sequence = int32(zz.Int("before", 0, 1<<26-1)) // any reachable state
	v := uint32(s.NextVal())
	u := uint32(s.NextVal())
	zz.Ensures("value has the bits of the datacenter", v>>29 == uint32(d)&3 && u>>29 == uint32(d)&3)
	zz.Ensures("value has the bits of the worker", v>>26&7 == uint32(w) && u>>26&7 == uint32(w))
	zz.Ensures("next value follows the previous one in a cycle of 2^26", u&(1<<26-1) == (v+1)&(1<<26-1))
	zz.Ensures("generator state is its last value", s.sequence == int32(u&(1<<26-1)))
	zz.Ensures("lock is released", !zz.LockHeld(&s.Mutex))
	zz.Ensures("node stays as configured", s.datacenter == d && s.worker == w)
}

// The first value follows zero, so that the cycle starts at one for every node.
//
//gov:prop C10
//gov:func CycleSequence.NextVal
func ZvCycleSequenceStart() {
	d, w := int32(zz.Int("datacenter", 0, 3)), int32(zz.Int("worker", 0, 7))
	v := uint32(NewCycleSequence(d, w).NextVal())
	zz.Ensures("first value", v == uint32(d)<<29|uint32(w)<<26|1)
}

func zvBcd(b []byte) int {
	n := 0
	for _, c := range b {
		n = n*100 + int(c>>4)*10 + int(c&15)
	}
	return n
}

func zvBcdOk(b []byte) bool {
	return zz.Forall(0, len(b), func(i int) bool { return b[i]>>4 <= 9 && b[i]&15 <= 9 })
}

var zvNow time.Time

func zvTimeNow() time.Time { return zvNow }

// Whatever came before: ten bytes of BCD: the node, the minute of the call, and a number which is one more than
// that of the previous call in the same minute, modulo a million.
//
//gov:prop C10
//gov:func BcdSequence.NextVal
//gov:func IntToFixStr
//gov:func StoBcd
func ZvBcdSequence() {
	s := &BcdSequence{worker: zz.Bytes("worker", 3, 3)}
	w := append([]byte(nil), s.worker...)
	zz.Protect(s, &s.Mutex)
	t0 := time.Now()
	if zz.Fork(zz.Bool("used before")) {
		s.timestamp = t0.Format("01021504")
		s.sequence = int32(zz.Int("before", 0, 999999))
	}
	was, at := s.sequence, s.timestamp
	zvNow = time.Now()
	zz.Stub("time.Now", zvTimeNow)
	minute := zvNow.Format("01021504")
	v := s.NextVal()
	zz.Ensures("ten bytes", len(v) == 10)
	zz.Ensures("node as configured", zz.EqBytes(v[:3], w) && zz.EqBytes(s.worker, w))
	zz.Ensures("decimal digits only", zvBcdOk(v[3:]))
	zz.Ensures("month and day of the call", v[3] == (minute[0]-'0')<<4|(minute[1]-'0') && v[4] == (minute[2]-'0')<<4|(minute[3]-'0'))
	zz.Ensures("hour and minute of the call", v[5] == (minute[4]-'0')<<4|(minute[5]-'0') && v[6] == (minute[6]-'0')<<4|(minute[7]-'0'))
	n := zvBcd(v[7:])
	if at == minute {
		zz.Ensures("number follows the previous one of the minute", n == (int(was)+1)%1000000)
	}
	zz.Ensures("number in range", n <= 999999)
	zz.Ensures("state has the number and the minute", int(s.sequence) == n && s.timestamp == minute)
	zz.Ensures("lock is released", !zz.LockHeld(&s.Mutex))
	other := append([]byte(nil), v...)
	s.NextVal()
	zz.Ensures("values handed out stay as they are", zz.EqBytes(v, other))
}

// The node is the last six digits of the configured number, padded with zeros on the left.
//
//gov:prop C10
//gov:func NewBcdSequence
//gov:func StoBcd
func ZvNewBcdSequence() {
	w := zz.Digits("w", 0, 12)
	s := NewBcdSequence(w)
	p := "000000" + w
	p = p[len(p)-6:]
	zz.Ensures("three bytes", len(s.worker) == 3)
	zz.Ensures("digits of the node", zz.Forall(0, 3, func(i int) bool { return s.worker[i] == (p[2*i]-'0')<<4|(p[2*i+1]-'0') }))
	zz.Ensures("not used before", s.sequence == 0 && s.timestamp == "")
}

//gov:prop C10
//gov:func NewBcdSequence
//gov:func StoBcd
func ZvNewBcdSequenceAny() {
	s := NewBcdSequence(zz.ASCII("w", 0, 12))
	zz.Ensures("three bytes of decimal digits", len(s.worker) == 3 && zvBcdOk(s.worker))
}
