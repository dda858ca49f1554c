package msc

import (
	"time"

	"github.com/hrygo/gosms/auth"
	zz "github.com/hrygo/gosms/utils/zzv"
)

// ================================================================ C18: accounts as the protocol code sees them

// zvAccounts finds one account, under one protocol and client id.
type zvAccounts struct {
	isp, cid string
	c        *auth.Client
	asked    int
}

func (s *zvAccounts) Load() {}

func (s *zvAccounts) FindByCid(isp, cid string) *auth.Client {
	s.asked++
	if isp == s.isp && cid == s.cid {
		return s.c
	}
	return nil
}

// The account handed to the protocol code has every value of the account found, and there is none when none is found.
//
//gov:prop C18
//gov:func FindAuthConf
func ZvFindAuthConf() {
	c := auth.Client{
		ISP: zz.Str("isp", 0, 20), ClientId: zz.Str("clientId", 0, 20), LoginName: zz.Str("login", 0, 20),
		SharedSecret: zz.Str("secret", 0, 20), Version: zz.U8("version"), NeedReport: zz.U8("report"),
		SmsDisplayNo: zz.Str("display", 0, 20), ServiceId: zz.Str("service", 0, 20), DefaultMsgLevel: zz.U8("level"),
		FeeUserType: zz.U8("feeUserType"), FeeTerminalType: zz.U8("feeTerminalType"), FeeTerminalId: zz.Str("feeTerminal", 0, 20),
		FeeType: zz.Str("feeType", 0, 20), FeeCode: zz.Str("feeCode", 0, 20), FixedFee: zz.Str("fixedFee", 0, 20),
		LinkId: zz.Str("link", 0, 20), MtValidDuration: time.Duration(zz.I64("valid")), MaxConns: zz.Int("conns", -1<<40, 1<<40),
		MtWindowSize: zz.Int("window", -1<<40, 1<<40), Throughput: zz.Int("throughput", -1<<40, 1<<40),
	}
	was := c
	st := &zvAccounts{isp: zz.Str("protocol", 0, 20), cid: zz.Str("cid", 0, 20), c: &c}
	auth.Cache = st
	q, id := zz.Str("protocol", 0, 20), zz.Str("cid", 0, 20)
	a := FindAuthConf(q, id)
	if q == st.isp && id == st.cid {
		zz.Ensures("an account found is handed on", a != nil)
		zz.Ensures("ISP", a.ISP == c.ISP)
		zz.Ensures("ClientId", a.ClientId == c.ClientId)
		zz.Ensures("LoginName", a.LoginName == c.LoginName)
		zz.Ensures("SharedSecret", a.SharedSecret == c.SharedSecret)
		zz.Ensures("Version", a.Version == c.Version)
		zz.Ensures("NeedReport", a.NeedReport == c.NeedReport)
		zz.Ensures("SmsDisplayNo", a.SmsDisplayNo == c.SmsDisplayNo)
		zz.Ensures("ServiceId", a.ServiceId == c.ServiceId)
		zz.Ensures("DefaultMsgLevel", a.DefaultMsgLevel == c.DefaultMsgLevel)
		zz.Ensures("FeeUserType", a.FeeUserType == c.FeeUserType)
		zz.Ensures("FeeTerminalType", a.FeeTerminalType == c.FeeTerminalType)
		zz.Ensures("FeeTerminalId", a.FeeTerminalId == c.FeeTerminalId)
		zz.Ensures("FeeType", a.FeeType == c.FeeType)
		zz.Ensures("FeeCode", a.FeeCode == c.FeeCode)
		zz.Ensures("FixedFee", a.FixedFee == c.FixedFee)
		zz.Ensures("LinkId", a.LinkId == c.LinkId)
		zz.Ensures("MtValidDuration", a.MtValidDuration == c.MtValidDuration)
		zz.Ensures("MaxConns", a.MaxConns == c.MaxConns)
		zz.Ensures("MtWindowSize", a.MtWindowSize == c.MtWindowSize)
		zz.Ensures("Throughput", a.Throughput == c.Throughput)
	} else {
		zz.Ensures("nothing when there is none", a == nil)
	}
	zz.Ensures("the stored account is not changed", c == was)
}
