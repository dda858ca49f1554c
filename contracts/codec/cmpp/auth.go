package cmpp

import (
	"fmt"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C06: authentication

// zvAuthSource: MD5(Source_Addr + 9 NUL + shared secret + timestamp in ten digits).
func zvAuthSource(client, secret string, ts uint32) string {
	return zz.Md5([]byte(client + "\x00\x00\x00\x00\x00\x00\x00\x00\x00" + secret + fmt.Sprintf("%010d", ts)))
}

// A login request is accepted exactly when account, version and authenticator agree; else the first failing check is named.
//
//gov:prop C06
//gov:func (*Connect).Check
func ZvCheck() {
	c := &Connect{}
	c.sourceAddr = zz.CStr("sourceAddr", 0, 6)
	c.authenticatorSource = zz.Bytes("auth", 16, 16)
	c.Version = Version(zz.U8("version"))
	c.timestamp = zz.U32("timestamp")
	zz.Ensures("unknown account is refused as such", c.Check(nil) == ConnStatusInvalidSrcAddr)
	ac := zvAccount()
	ac.ClientId = c.sourceAddr
	want := zvAuthSource(ac.ClientId, ac.SharedSecret, c.timestamp)
	st := c.Check(ac)
	if uint8(c.Version)&0xf0 != ac.Version&0xf0 {
		zz.Ensures("other major version is refused as such", st == ConnStatusVerTooHigh)
	} else if zz.Fork(string(c.authenticatorSource) != want) {
		zz.Ensures("wrong authenticator is refused as such", st == ConnStatusAuthFailed)
	} else {
		zz.Ensures("right credentials are accepted", st == ConnStatusOK)
	}
}

// The response to an accepted login authenticates the server; other responses carry the status and no authenticator.
//
//gov:prop C06
//gov:func (*Connect).ToResponse
//gov:func (*ConnectResp).Encode
func ZvAuthResponse() {
	c := &Connect{}
	c.SequenceId = zz.U32("seq")
	c.sourceAddr = zz.CStr("sourceAddr", 0, 6)
	c.timestamp = zz.U32("timestamp")
	c.Version = Version(zz.U8("version"))
	v3 := zz.Fork(uint8(c.Version)&0xf0 == 0x30)
	ac := zvAccount()
	ac.ClientId = c.sourceAddr
	ac.Version = byte(c.Version)
	c.authenticatorSource = []byte(zvAuthSource(ac.ClientId, ac.SharedSecret, c.timestamp))
	zz.Ensures("right credentials are accepted", c.Check(ac) == ConnStatusOK)
	r := c.ToResponse(uint32(ConnStatusOK)).(*ConnectResp)
	st := "\x00"
	if v3 {
		st = "\x00\x00\x00\x00"
	}
	zz.Ensures("response is a success", r.Status() == ConnStatusOK && r.SequenceId == c.SequenceId)
	zz.Ensures("response authenticator is MD5(status + request authenticator + shared secret)", string(r.AuthenticatorISMG()) == zz.Md5([]byte(st+string(c.authenticatorSource)+ac.SharedSecret)))
	f := r.Encode()
	i := 13
	if v3 {
		i = 16
	}
	zz.Ensures("authenticator stands in the frame", zz.EqBytes(f[i:i+16], r.AuthenticatorISMG()))
	code := zz.U32("code")
	zz.Requires(code != 0 && code < 256)
	b := c.ToResponse(code).(*ConnectResp)
	zz.Ensures("refusal carries its status and no authenticator", uint32(b.Status()) == code && string(b.AuthenticatorISMG()) == "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")
}

// A login request built from an account is accepted for that account when it arrives.
//
//gov:prop C06
//gov:func NewConnect
//gov:func (*Connect).Check
//gov:func (*Connect).Encode
//gov:func (*Connect).Decode
func ZvOwnLogin() {
	ac := zvAccount()
	zz.Requires(len(ac.ClientId) <= 6)
	seq := zz.U32("seq")
	c := NewConnect(ac, seq)
	zz.Ensures("request names the account", c.SourceAddr() == ac.ClientId && c.Version == Version(ac.Version) && c.SequenceId == seq)
	f := c.Encode()
	zz.Ensures("request is complete", len(f) == 39)
	d := &Connect{}
	err := d.Decode(seq, f[12:])
	zz.Ensures("request is decoded", err == nil && d.SourceAddr() == ac.ClientId)
	zz.Ensures("request is accepted", d.Check(ac) == ConnStatusOK)
}
