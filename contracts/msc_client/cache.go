package sms

import (
	"time"

	"github.com/hrygo/yaml_config"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/smc_client/session"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ---------------------------------------------------------------- what the client runs on, as assumed contracts

var (
	zvLast   time.Time
	zvExpire time.Duration
	zvInts   map[string]int
	zvStrs   map[string]string
)

// zvNow is a clock that does not go backwards.
func zvNow() time.Time {
	t := time.Now()
	zz.Assume(!t.Before(zvLast))
	zvLast = t
	return t
}

type zvYml struct {
	yaml_config.YmlConfig
}

func (zvYml) GetDuration(k string) time.Duration {
	if k == "Cache.expire-time" {
		return zvExpire
	}
	return 0
}
func (zvYml) GetInt(k string) int       { return zvInts[k] }
func (zvYml) GetString(k string) string { return zvStrs[k] }

type zvSeq64 struct{ last int64 }

func (s *zvSeq64) NextVal() int64 { s.last = zz.I64("query"); return s.last }

func zvWorld() {
	zz.Stub("time.Now", zvNow)
	zvLast = time.Time{}
	ConfigYml = zvYml{}
	zvExpire = time.Duration(zz.Int("expireSeconds", 0, 1000000)) * time.Second
	zvInts, zvStrs = map[string]int{}, map[string]string{}
	codec.B64Seq = &zvSeq64{}
}

// zvLife is how long a result is kept at least.
func zvLife() time.Duration {
	if zvExpire == 0 {
		return time.Minute
	}
	return zvExpire
}

func zvResults(n int) (rs []any) {
	for i := 0; i < n; i++ {
		rs = append(rs, &session.Result{SequenceId: zz.U64("sequence"), SendTime: zvNow()})
	}
	return
}

// ================================================================ C19: results of a query

// zvKnown makes the results of every other query arbitrary.
func zvKnown() {
	zz.LazySyncMap(&resultQueryCacheMap, func(k any) any {
		return []any{&session.Result{QueryId: k.(int64)}}
	})
}

// A query gives exactly the results saved under it, each marked with it, and saving them touches no other.
//
//gov:prop C19
//gov:func Query
//gov:func saveQueryCache
//gov:bounded at most three results for one query
func ZvQuery() {
	zvWorld()
	zvKnown()
	n := zz.Enum("results", 0, 3)
	rs := zvResults(n)
	id, other := zz.I64("id"), zz.I64("otherId")
	zz.Requires(id != other)
	before := Query(other)
	saveQueryCache(id, rs)
	got := Query(id)
	if n == 0 {
		zz.Ensures("a query without results gives none", len(got) == 0)
	} else {
		zz.Ensures("a query gives as many results as were saved", len(got) == n)
	}
	for i := range got {
		zz.Ensures("in the order they were saved", got[i] == rs[i])
		zz.Ensures("each marked with the query", got[i].(*session.Result).QueryId == id)
	}
	after := Query(other)
	zz.Ensures("another query is not touched", len(before) == len(after))
	if len(before) == 1 {
		zz.Ensures("nor its results", before[0] == after[0] && before[0].(*session.Result).QueryId == other)
	}
}

// Sending to several phones: each phone is sent to once, on the session chosen for it; what could not be sent is left out;
// the results of all are found under the query that is returned, in order, and under no other.
//
//gov:prop C19
//gov:func SendN
//gov:func Send
//gov:func saveQueryCache
//gov:func Query
//gov:bounded at most three phones and two results for each
//gov:split 2
func ZvSendN() {
	zvWorld()
	zvKnown()
	n := zz.Enum("phones", 0, 3)
	names := []string{"p0", "p1", "p2"}
	sessions := []*session.Session{{}, {}, {}}
	var want []any
	chosen, sent := 0, 0
	zz.Stub("github.com/hrygo/gosms/smc_client.SelectSession", func(phone string) *session.Session {
		zz.Ensures("a session is chosen for each phone in turn", chosen < n && phone == names[chosen])
		chosen++
		if zz.Fork(zz.Bool("none")) {
			return nil
		}
		return sessions[chosen-1]
	})
	message := zz.Str("message", 0, 1000)
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).Send", func(s *session.Session, phone string, m string, o ...codec.OptionFunc) []any {
		zz.Ensures("a phone is sent to on its session", s == sessions[chosen-1] && phone == names[chosen-1])
		zz.Ensures("what is sent is the message", m == message)
		sent++
		rs := zvResults(zz.Enum("parts", 0, 2))
		want = append(want, rs...)
		return rs
	})
	added := 0
	zz.Stub("(*github.com/hrygo/gosms/smc_client/session.Session).AddCounter", func(s *session.Session) { added++ })
	other := zz.I64("otherId")
	before := Query(other)
	var id int64
	if n == 1 && zz.Fork(zz.Bool("single")) {
		id = Send(message, names[0])
	} else {
		id = SendN(message, names[:n])
	}
	zz.Ensures("every phone is considered", chosen == n)
	if n == 0 {
		zz.Ensures("without a phone there is no query", id == 0)
	} else {
		zz.Ensures("the query has a number of its own", id == codec.B64Seq.(*zvSeq64).last)
		zz.Ensures("what is sent is counted", added == sent)
		zz.Requires(other != id)
		got := Query(id)
		zz.Ensures("the query gives as many results as were sent", len(got) == len(want))
		for i := range got {
			zz.Ensures("the results in the order they were sent", got[i] == want[i])
			zz.Ensures("marked with the query", got[i].(*session.Result).QueryId == id)
		}
	}
	after := Query(other)
	zz.Ensures("another query is not touched", len(before) == len(after) && (len(before) == 0 || before[0] == after[0]))
}

// ================================================================ C19: expiry

// zvOld: whether a result sent at t is expired between the moments t0 and t1; the third case leaves it open.
func zvOld(t, t0, t1 time.Time) (old, young bool) {
	end := t.Add(zvLife())
	return end.Before(t0), !end.Before(t1)
}

func zvSent(name string) time.Time {
	t := zvNow()
	return t.Add(-time.Duration(zz.Int(name, 0, 10000000)) * time.Second)
}

// The results of a query are kept for the configured time and then handed over, all of them and once, and forgotten.
//
//gov:prop C19
//gov:func cleanQueryCacheMap
//gov:bounded at most three queries, of no, one or sixty-four results
//gov:split 3
func ZvExpireQueries() {
	zvWorld()
	n := zz.Enum("queries", 0, 3)
	handler := zz.Fork(zz.Bool("handler"))
	var lists [3][]any
	var sent [3]time.Time
	for i := 0; i < n; i++ {
		k := 0
		switch zz.Enum("size", 0, 2) {
		case 1:
			k = 1
		case 2:
			k = 64
		}
		sent[i] = zvSent("age")
		for j := 0; j < k; j++ {
			lists[i] = append(lists[i], &session.Result{QueryId: int64(i), SequenceId: uint64(j), SendTime: sent[i]})
		}
		resultQueryCacheMap.Store(int64(i), lists[i])
	}
	var got []any
	var parts [][]any
	var f func([]any)
	if handler {
		f = func(rs []any) {
			zz.Ensures("nothing empty is handed over", len(rs) > 0)
			parts = append(parts, rs)
		}
	}
	t0 := time.Now()
	cleanQueryCacheMap(f)
	t1 := time.Now()
	// the handler works in the background: what it was given is what it reads later
	for _, rs := range parts {
		got = append(got, rs...)
	}
	at := 0
	for i := 0; i < n; i++ {
		v, ok := resultQueryCacheMap.Load(int64(i))
		if len(lists[i]) == 0 {
			zz.Ensures("a query without results is forgotten", !ok)
			continue
		}
		old, young := zvOld(sent[i], t0, t1)
		if old {
			zz.Ensures("an expired query is forgotten", !ok)
		}
		if young {
			zz.Ensures("any other is kept", ok)
		}
		if ok {
			zz.Ensures("with its results", len(v.([]any)) == len(lists[i]))
			continue
		}
		if !handler {
			continue
		}
		// in whatever order the queries come
		p := 0
		for p < len(got) && got[p] != lists[i][0] {
			p++
		}
		zz.Ensures("the results forgotten are handed over", p+len(lists[i]) <= len(got))
		same := true
		for j, r := range lists[i] {
			same = same && got[p+j] == r
		}
		zz.Ensures("all of them and once", same)
		at += len(lists[i])
	}
	zz.Ensures("and no others", at == len(got))
}

// Pending and reported results are kept for the configured time and then forgotten.
//
//gov:prop C19
//gov:func cleanRequestIdCacheMap
//gov:func cleanMsgIdCacheMap
//gov:bounded at most two results in each cache
//gov:split 3
func ZvExpireResults() {
	zvWorld()
	n := zz.Enum("pending", 0, 2)
	msgs := []string{"a", "b"}
	var rs [2]*session.Result
	for i := 0; i < n; i++ {
		rs[i] = &session.Result{SequenceId: uint64(i), MsgId: msgs[i], SendTime: zvSent("age")}
		session.SequenceIdResultCacheMap.Store(uint64(i), rs[i])
		session.MsgIdResultCacheMap.Store(msgs[i], rs[i])
	}
	t0 := time.Now()
	cleanRequestIdCacheMap()
	cleanMsgIdCacheMap()
	t1 := time.Now()
	for i := 0; i < n; i++ {
		v, ok := session.SequenceIdResultCacheMap.Load(uint64(i))
		w, known := session.MsgIdResultCacheMap.Load(msgs[i])
		old, young := zvOld(rs[i].SendTime, t0, t1)
		if old {
			zz.Ensures("an expired result is not pending any more", !ok)
			zz.Ensures("nor known by its message id", !known)
		}
		if young {
			zz.Ensures("any other stays pending", ok && v == any(rs[i]))
			zz.Ensures("and known by its message id", known && w == any(rs[i]))
		}
	}
}
