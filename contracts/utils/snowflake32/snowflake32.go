package snowflake32

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C10: sequence numbers

func zvState() *Snowflake {
	s := NewSnowflake(int32(zz.Int("datacenter", 0, 3)), int32(zz.Int("worker", 0, 7)))
	s.seconds = int32(zz.Int("before", 0, 86399))
	s.sequence = int32(zz.Int("sequence", 0, 511))
	return s
}

// Whatever came before and however long it waits: seconds of the day and sequence together grow within a day; the
// value is made of them and the node, each in its own bits.
//
//gov:prop C10
//gov:func Snowflake.NextVal
//gov:func NewSnowflake
//gov:func Parse
//gov:func passedSeconds
func ZvSnowflake32() {
	s := zvState()
	zz.Protect(s, &s.Mutex)
	t, q, d, w := s.seconds, s.sequence, s.datacenter, s.worker
	v := s.NextVal()
	zz.Ensures("node stays as configured", s.datacenter == d && s.worker == w)
	zz.Ensures("sequence in range", s.sequence >= 0 && s.sequence <= 511)
	zz.Ensures("another second or the next number", s.seconds != t || s.sequence == q+1)
	zz.Ensures("second bits", v>>14 == s.seconds)
	zz.Ensures("datacenter bits", v>>12&3 == d)
	zz.Ensures("worker bits", v>>9&7 == w)
	zz.Ensures("sequence bits", v&511 == s.sequence)
	zz.Ensures("values are not negative", v >= 0)
	zz.Ensures("lock is released", !zz.LockHeld(&s.Mutex))
	p := Parse(v)
	zz.Ensures("parsing gives the fields back", p.seconds == s.seconds && p.datacenter == d && p.worker == w && p.sequence == s.sequence)
}

var zvNow time.Time
var zvReadings int

func zvClock() time.Time {
	n := time.Now()
	zvReadings++
	if zvReadings > 2 {
		zz.Requires(n.Second() != zvNow.Second())
	}
	zvNow = n
	return n
}

// The seconds in a value are those of the last clock reading; within a second the sequence counts up by one.
//
//gov:prop C10
//gov:func Snowflake.NextVal
//gov:func passedSeconds
//gov:bounded at most three clock readings in a call
func ZvSnowflake32Clock() {
	s := zvState()
	t, q := s.seconds, s.sequence
	zvReadings = 0
	zz.Stub("time.Now", zvClock)
	s.NextVal()
	zz.Ensures("seconds are the clock's", int(s.seconds) == zvNow.Hour()*3600+zvNow.Minute()*60+zvNow.Second())
	if s.seconds == t {
		zz.Ensures("sequence counts up", s.sequence == q+1)
	} else {
		zz.Ensures("a new second starts at zero", s.sequence == 0)
	}
}
