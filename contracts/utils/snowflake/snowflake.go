package snowflake

import (
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C10: sequence numbers

const zvLast = (1577808000000 + 1<<41 - 1) * 1000000 // the last moment the layout can express

// zvClock is the clock: any readings of the years the layout covers.
func zvClock() time.Time {
	n := zz.Int("now", 1577808000000*1000000, zvLast)
	return time.Unix(0, int64(n))
}

func zvState() *Snowflake {
	s := NewSnowflake(int64(zz.Int("datacenter", 0, 7)), int64(zz.Int("worker", 0, 127)))
	if zz.Fork(zz.Bool("used before")) {
		s.timestamp = int64(zz.Int("before", 1577808000000, zvLast/1000000))
		s.sequence = int64(zz.Int("sequence", 0, 4095))
	}
	return s
}

// Whatever came before and however long it waits: time and sequence together grow, as long as the clock does not
// go backwards; the value is made of them and the node, each in its own bits.
//
//gov:prop C10
//gov:func Snowflake.NextVal
//gov:func NewSnowflake
//gov:func Parse
func ZvSnowflake() {
	s := zvState()
	zz.Protect(s, &s.Mutex)
	zz.Stub("time.Now", zvClock)
	t, q, d, w := s.timestamp, s.sequence, s.datacenterId, s.workerId
	v := s.NextVal()
	zz.Ensures("node stays as configured", s.datacenterId == d && s.workerId == w)
	zz.Ensures("sequence in range", s.sequence >= 0 && s.sequence <= 4095)
	zz.Ensures("a later or equal time with the sequence of that time", s.timestamp < t || s.timestamp > t || s.sequence > q)
	zz.Ensures("time bits", v>>22 == s.timestamp-1577808000000)
	zz.Ensures("datacenter bits", v>>19&7 == d)
	zz.Ensures("worker bits", v>>12&127 == w)
	zz.Ensures("sequence bits", v&4095 == s.sequence)
	zz.Ensures("lock is released", !zz.LockHeld(&s.Mutex))
	p := Parse(v)
	zz.Ensures("parsing gives the fields back", p.timestamp == s.timestamp && p.datacenterId == d && p.workerId == w && p.sequence == s.sequence)
}

var zvReadings int
var zvReading int64

// The same clock, moving on after the second reading.
func zvClock2() time.Time {
	n := int64(zz.Int("now", 1577808000000*1000000, zvLast))
	zz.Requires(n >= zvReading)
	zvReadings++
	if zvReadings > 2 {
		zz.Requires(n/1000000 > zvReading/1000000)
	}
	zvReading = n
	return time.Unix(0, n)
}

// The time in a value is the millisecond of the last clock reading; within a millisecond the sequence counts up by one.
//
//gov:prop C10
//gov:func Snowflake.NextVal
//gov:bounded at most three clock readings in a call
func ZvSnowflakeClock() {
	s := zvState()
	zvReading, zvReadings = s.timestamp*1000000, 0
	zz.Stub("time.Now", zvClock2)
	t, q := s.timestamp, s.sequence
	v := s.NextVal()
	zz.Ensures("time is the clock's", s.timestamp == zvReading/1000000)
	if s.timestamp == t {
		zz.Ensures("sequence counts up", s.sequence == q+1)
	} else {
		zz.Ensures("a new millisecond starts at zero", s.sequence == 0)
	}
	zz.Ensures("values grow", v>>22 > t-1577808000000 || v>>22 == t-1577808000000 && v&4095 > q)
}

// After the last moment the layout can express no value is handed out.
//
//gov:prop C10
//gov:func Snowflake.NextVal
func ZvSnowflakeEnd() {
	s := zvState()
	zz.Stub("time.Now", func() time.Time { return time.Unix(0, int64(zz.Int("now", zvLast+1000000, 1<<62))) })
	zz.Ensures("no value", s.NextVal() == 0)
}
