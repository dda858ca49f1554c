package sgip

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C10: sequence numbers

var zvSeqNow time.Time

func zvSeqClock() time.Time { return zvSeqNow }

// Whatever came before: three words, the node, the time of the call as mmddhhmmss, and a number that steps through
// all 2^32 values (31 is odd) before it repeats.
//
//gov:prop C10
//gov:func sequence.NextVal
//gov:func sequence.CurVal
func ZvSequence() {
	s := &sequence{node: zz.U32("node"), timestamp: zz.U32("timestamp"), sequence: zz.U32("before")}
	n, q := s.node, s.sequence
	zz.Protect(s, &s.Mutex)
	zvSeqNow = time.Now()
	zz.Stub("time.Now", zvSeqClock)
	v := s.NextVal()
	zz.Ensures("three words", len(v) == 3)
	zz.Ensures("node", v[0] == n && s.node == n)
	now := zvSeqNow
	zz.Ensures("time as mmddhhmmss", int(v[1]) == ((((int(now.Month())*100+now.Day())*100+now.Hour())*100+now.Minute())*100)+now.Second())
	zz.Ensures("number steps by 31", v[2] == q+31)
	zz.Ensures("lock is released", !zz.LockHeld(&s.Mutex))
	u := s.NextVal()
	zz.Ensures("next number steps by 31", u[2] == v[2]+31 && v[2] == q+31 && u[2] != v[2])
}

//gov:prop C10
//gov:func NewSequencer
//gov:func sequence.CurVal
func ZvNewSequencer() {
	node, w := zz.U32("node"), zz.U32("worker")
	s := NewSequencer(node, w)
	zz.Ensures("node and start as configured", s != nil && s == Sequencer && s.node == node && s.sequence == w)
	zz.Ensures("one generator per process", NewSequencer(zz.U32("other"), zz.U32("other")) == s && s.node == node)
	c := s.CurVal()
	zz.Ensures("current value", len(c) == 3 && c[0] == node && c[2] == w)
}
