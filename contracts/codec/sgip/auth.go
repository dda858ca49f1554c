package sgip

import (
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C06: authentication

// A login request is accepted exactly when an account exists and its name and password are the account's.
//
//gov:prop C06
//gov:func (*Bind).Check
//gov:func (*Bind).ToResponse
func ZvCheck() {
	b := &Bind{}
	b.SequenceNumber = zvSeq()
	b.LoginType = zz.U8("type")
	b.LoginName = zz.CStr("name", 0, 16)
	b.LoginPassword = zz.CStr("password", 0, 16)
	zz.Ensures("unknown account is refused", b.Check(nil) == 1)
	ac := zvAccount()
	st := b.Check(ac)
	if zz.Fork(b.LoginName == ac.LoginName && b.LoginPassword == ac.SharedSecret) {
		zz.Ensures("right credentials are accepted", st == 0)
	} else {
		zz.Ensures("wrong credentials are refused", st == 1)
	}
	r := b.ToResponse(uint32(st)).(*BindRsp)
	zz.Ensures("response carries the decision", r.Status == st && zvSeqIs(r.SequenceNumber, b.SequenceNumber))
}

// A login request built from an account is accepted for that account when it arrives.
//
//gov:prop C06
//gov:func NewBind
//gov:func (*Bind).Check
//gov:func (*Bind).Encode
//gov:func (*Bind).Decode
func ZvOwnLogin() {
	zvSequencer()
	ac := zvAccount()
	ac.LoginName = ac.ClientId
	c := NewBind(ac, zz.U8("type"))
	zz.Ensures("request names the account", c.LoginName == ac.ClientId)
	f := c.Encode()
	zz.Ensures("request is complete", len(f) == 61)
	d := &Bind{}
	err := d.Decode(c.SequenceNumber[0], f[12:])
	zz.Ensures("request is decoded", err == nil)
	zz.Ensures("request is accepted", d.Check(ac) == 0)
}
