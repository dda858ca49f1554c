package event_manager

import (
	"strings"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C17: events

// zvCalls records which functions ran, with the arguments they were given.
type zvCall struct {
	id   int
	args []any
}

var zvCalls []zvCall

func zvFn(id int) Event {
	return func(args ...any) { zvCalls = append(zvCalls, zvCall{id, args}) }
}

// zvAny makes the registry arbitrary: any other keys may be registered, with functions of their own.
func zvAny() {
	zvCalls = nil
	zz.LazySyncMap(&sMap, func(k any) any { return zvFn(-1) })
}

func zvArgs(n int) []any {
	var a []any
	for i := 0; i < n; i++ {
		a = append(a, zz.Int("arg", -1<<62, 1<<62))
	}
	return a
}

func zvKey(m *eventManage, key string) string {
	if strings.HasPrefix(key, m.prefix) {
		return key
	}
	return m.prefix + key
}

// zvRan: functions 0..n-1 ran once each, in order, with the arguments.
func zvRan(n int, args []any) {
	zz.Ensures("each function runs once", len(zvCalls) == n)
	for i := 0; i < n; i++ {
		zz.Ensures("functions run in order", zvCalls[i].id == i)
		zz.Ensures("functions get the arguments", len(zvCalls[i].args) == len(args))
		for j := range args {
			zz.Ensures("functions get the arguments in order", zvCalls[i].args[j] == args[j])
		}
	}
}

// Whatever is registered: a registration succeeds exactly when the key is free; calling the key then runs its functions in
// order with the arguments, and one registered before is kept.
//
//gov:prop C17
//gov:func eventManage.Register
//gov:func eventManage.Call
//gov:func eventManage.Get
//gov:func CreateEventManage
//gov:bounded at most 3 functions and 2 arguments
func ZvRegister() {
	zvAny()
	m := CreateEventManage(zz.Str("prefix", 0, 40))
	key := zz.Str("key", 0, 40)
	n := zz.Enum("n", 0, 3)
	args := zvArgs(zz.Enum("args", 0, 2))
	var fs []Event
	for i := 0; i < n; i++ {
		fs = append(fs, zvFn(i))
	}
	_, had := sMap.Load(zvKey(m, key))
	ok := m.Register(key, fs...)
	zz.Ensures("a registration succeeds exactly when the key is free and there is something to register", ok == (n > 0 && !had))
	zz.Ensures("registering runs nothing", len(zvCalls) == 0)
	f, got := m.Get(key)
	zz.Ensures("a key is found when registered", got == (ok || had) && (f != nil) == got)
	m.Call(key, args...)
	if ok {
		zvRan(n, args)
	} else if had {
		zz.Ensures("functions registered before are kept", len(zvCalls) == 1 && zvCalls[0].id == -1)
	} else {
		zz.Ensures("a call without registration runs nothing", len(zvCalls) == 0)
	}
}

// The function found under a key is the one registered, for any number of functions.
// A second registration is refused and changes nothing; deletion frees the key.
//
//gov:prop C17
//gov:func eventManage.Register
//gov:func eventManage.Delete
//gov:func eventManage.Get
//gov:func eventManage.Call
func ZvReregister() {
	zvAny()
	m := CreateEventManage(zz.Str("prefix", 0, 40))
	key := zz.Str("key", 0, 40)
	m.Register(key, zvFn(0))
	zz.Ensures("a second registration is refused", !m.Register(key, zvFn(7)))
	m.Call(key)
	zz.Ensures("the first registration is kept", len(zvCalls) == 1 && zvCalls[0].id != 7)
	zvCalls = nil
	m.Delete(key)
	_, got := m.Get(key)
	zz.Ensures("a deleted key is not found", !got)
	m.Call(key)
	zz.Ensures("a deleted event does not run", len(zvCalls) == 0)
	zz.Ensures("a deleted key can be registered again", m.Register(key, zvFn(1)))
	m.Call(key)
	zz.Ensures("and runs what was registered then", len(zvCalls) == 1 && zvCalls[0].id == 1)
}

// The prefix is put before a key once: the key with the prefix and the key without it name the same event.
//
//gov:prop C17
//gov:func eventManage.Register
//gov:func eventManage.Get
//gov:func eventManage.Call
//gov:func eventManage.Delete
func ZvPrefix() {
	zvAny()
	m := CreateEventManage(zz.Str("prefix", 0, 40))
	key := zz.Str("key", 0, 40)
	full := zvKey(m, key)
	ok := m.Register(key, zvFn(0))
	_, stored := sMap.Load(full)
	zz.Ensures("stored under the prefixed key", stored)
	m.Call(full)
	zz.Ensures("called by the prefixed key", len(zvCalls) == 1 && (zvCalls[0].id == 0) == ok)
	zvCalls = nil
	m.Delete(full)
	_, got := m.Get(key)
	zz.Ensures("deleted by the prefixed key", !got)
}

// No operation on one key touches another.
//
//gov:prop C17
//gov:func eventManage.Register
//gov:func eventManage.Delete
//gov:func eventManage.Call
func ZvOtherKeys() {
	zvAny()
	m := CreateEventManage(zz.Str("prefix", 0, 40))
	key, other := zz.Str("key", 0, 40), zz.Str("other", 0, 80)
	zz.Requires(other != zvKey(m, key))
	_, had := sMap.Load(other)
	m.Register(key, zvFn(0))
	m.Call(key)
	_, has := sMap.Load(other)
	zz.Ensures("other keys are not touched", has == had)
	m.Delete(key)
	_, has = sMap.Load(other)
	zz.Ensures("other keys are not deleted", has == had)
}

// Calling all events of a prefix runs those and no others, each once.
//
//gov:prop C17
//gov:func eventManage.FuzzyCall
//gov:func GracefullyShutdown
//gov:bounded at most 3 registered keys
func ZvFuzzyCall() {
	zvCalls = nil
	n := zz.Enum("n", 0, 3)
	var keys []string
	for i := 0; i < n; i++ {
		k := zz.Str("key", 0, 40)
		for _, o := range keys {
			zz.Requires(o != k)
		}
		keys = append(keys, k)
		zz.Ensures("a free key is registered", CreateEventManage("").Register(k, zvFn(i)))
	}
	p := zz.Str("prefix", 0, 40)
	if zz.Fork(zz.Bool("shutdown")) {
		p = ShutdownHookerPrefix
		GracefullyShutdown()
	} else {
		CreateEventManage(p).FuzzyCall()
	}
	for i := 0; i < n; i++ {
		c := 0
		for _, r := range zvCalls {
			if r.id == i {
				c++
				zz.Ensures("no arguments are passed", len(r.args) == 0)
			}
		}
		if strings.HasPrefix(keys[i], p) {
			zz.Ensures("every event of the prefix runs once", c == 1)
		} else {
			zz.Ensures("no other event runs", c == 0)
		}
	}
}

// Shutdown hooks: the functions run first, then the signal is sent; a key in use gives no channel.
//
//gov:prop C17
//gov:func RegisterShutdownHooker
//gov:func RegisterShutdownHookerAddChan
//gov:func GracefullyShutdown
func ZvShutdownHook() {
	zvCalls = nil
	k := zz.Str("key", 0, 40)
	c := RegisterShutdownHookerAddChan(k, zvFn(0))
	zz.Ensures("a free key gives a channel", c != nil)
	zz.Ensures("a key in use gives none", RegisterShutdownHookerAddChan(k, zvFn(1)) == nil && !RegisterShutdownHooker(k, zvFn(2)))
	zz.Ensures("nothing is signalled before the shutdown", len(c) == 0 && len(zvCalls) == 0)
	GracefullyShutdown()
	zz.Ensures("the hook runs once", len(zvCalls) == 1 && zvCalls[0].id == 0)
	zz.Ensures("the signal is sent", len(c) == 1 && <-c)
}
