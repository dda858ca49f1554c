package smgp

import (
	"fmt"

	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C06: authentication

// zvAuthSource: MD5(client id + 7 NUL + shared secret + timestamp in ten digits).
func zvAuthSource(client, secret string, ts uint32) string {
	return zz.Md5([]byte(client + "\x00\x00\x00\x00\x00\x00\x00" + secret + fmt.Sprintf("%010d", ts)))
}

// A login request is accepted exactly when account, version and authenticator agree; else the first failing check is named.
//
//gov:prop C06
//gov:func (*Login).Check
func ZvCheck() {
	c := &Login{}
	c.clientID = zz.CStr("clientID", 0, 8)
	c.authenticatorClient = zz.Bytes("auth", 16, 16)
	c.Version = Version(zz.U8("version"))
	c.timestamp = zz.U32("timestamp")
	zz.Ensures("unknown account is refused as such", c.Check(nil) == Status(69))
	ac := zvAccount()
	ac.ClientId = c.clientID
	want := zvAuthSource(ac.ClientId, ac.SharedSecret, c.timestamp)
	st := c.Check(ac)
	if uint8(c.Version)&0xf0 != ac.Version&0xf0 {
		zz.Ensures("other major version is refused as such", st == Status(22))
	} else if zz.Fork(string(c.authenticatorClient) != want) {
		zz.Ensures("wrong authenticator is refused as such", st == Status(21))
	} else {
		zz.Ensures("right credentials are accepted", st == Status(0))
	}
}

// The response to an accepted login authenticates the server; other responses carry the status and no authenticator.
//
//gov:prop C06
//gov:func (*Login).ToResponse
//gov:func (*LoginRsp).Encode
func ZvAuthResponse() {
	c := &Login{}
	c.SequenceId = zz.U32("seq")
	c.clientID = zz.CStr("clientID", 0, 8)
	c.timestamp = zz.U32("timestamp")
	c.Version = Version(zz.U8("version"))
	ac := zvAccount()
	ac.ClientId = c.clientID
	ac.Version = byte(c.Version)
	c.authenticatorClient = []byte(zvAuthSource(ac.ClientId, ac.SharedSecret, c.timestamp))
	zz.Ensures("right credentials are accepted", c.Check(ac) == Status(0))
	r := c.ToResponse(uint32(Status(0))).(*LoginRsp)
	st := "\x00\x00\x00\x00"
	zz.Ensures("response is a success", r.Status() == Status(0) && r.SequenceId == c.SequenceId)
	zz.Ensures("response authenticator is MD5(status + request authenticator + shared secret)", string(r.AuthenticatorServer()) == zz.Md5([]byte(st+string(c.authenticatorClient)+ac.SharedSecret)))
	f := r.Encode()
	i := 16
	zz.Ensures("authenticator stands in the frame", zz.EqBytes(f[i:i+16], r.AuthenticatorServer()))
	code := zz.U32("code")
	zz.Requires(code != 0)
	b := c.ToResponse(code).(*LoginRsp)
	zz.Ensures("refusal carries its status and no authenticator", uint32(b.Status()) == code && string(b.AuthenticatorServer()) == "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")
}

// A login request built from an account is accepted for that account when it arrives.
//
//gov:prop C06
//gov:func NewLogin
//gov:func (*Login).Check
//gov:func (*Login).Encode
//gov:func (*Login).Decode
func ZvOwnLogin() {
	ac := zvAccount()
	zz.Requires(len(ac.ClientId) <= 8)
	seq := zz.U32("seq")
	c := NewLogin(ac, seq)
	zz.Ensures("request names the account", c.ClientID() == ac.ClientId && c.Version == Version(ac.Version) && c.SequenceId == seq)
	f := c.Encode()
	zz.Ensures("request is complete", len(f) == 42)
	d := &Login{}
	err := d.Decode(seq, f[12:])
	zz.Ensures("request is decoded", err == nil && d.ClientID() == ac.ClientId)
	zz.Ensures("request is accepted", d.Check(ac) == Status(0))
}
