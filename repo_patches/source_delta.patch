From 339d2a22d1951107afa31d7548a454db0327bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 01/45] fix: cmpp Delivery.Decode stores the service id in its
 own field

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..d2795c6 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -104,7 +104,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.SequenceId = seq
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From c22dfad4dfd6e2f405f7bc25ded15976d8dad6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 02/45] fix: cmpp Submit.Decode computes the receiver list
 length without uint8 overflow

---
 codec/cmpp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..40b6f10 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -207,7 +207,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
+	l := int(s.destUsrTl) * 21
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
-- 
2.43.0


From 6ce5c686dcec034a679fdbf3f1f4342be672727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 03/45] fix: cmpp decoders reject bodies too short for the
 fields they declare

---
 codec/cmpp/connect.go  |  6 ++++++
 codec/cmpp/delivery.go | 11 +++++++++++
 codec/cmpp/header.go   |  3 +++
 codec/cmpp/report.go   |  3 +++
 codec/cmpp/submit.go   | 19 ++++++++++++++++++-
 codec/packer.go        |  4 ++++
 6 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..3150b42 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -68,6 +68,9 @@ func (c *Connect) Encode() []byte {
 }
 
 func (c *Connect) Decode(seq uint32, frame []byte) error {
+	if len(frame) < ConnectPktLen-int(codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
@@ -174,6 +177,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	}
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
+	if len(frame) < int(r.TotalLength-codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 
 	var index int
 	if V30.MajorMatchV(r.Version) {
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index d2795c6..7fcc998 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -102,6 +102,14 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
+	// 消息内容之前的定长部分及消息内容之后的 linkID
+	fixed, tail := 65, 0
+	if V30.MajorMatchV(d.Version) {
+		fixed, tail = 77, 20
+	}
+	if len(frame) < fixed || len(frame) < fixed+int(frame[fixed-1])+tail {
+		return codec.ErrMalformedBody
+	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
 	d.serviceId = utils.TrimStr(frame[29:39])
@@ -285,6 +293,9 @@ func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
 	r.SequenceId = seq
+	if len(frame) < 9 || (V30.MajorMatchV(r.Version) && len(frame) < 12) {
+		return codec.ErrMalformedBody
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = DlyResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/cmpp/header.go b/codec/cmpp/header.go
index a9fe33d..4d9cbdc 100644
--- a/codec/cmpp/header.go
+++ b/codec/cmpp/header.go
@@ -26,6 +26,9 @@ func (header *MessageHeader) Encode() []byte {
 }
 
 func (header *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 	header.TotalLength = binary.BigEndian.Uint32(frame[0:4])
 	header.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	header.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..96d3a73 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -64,6 +64,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrMalformedBody
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 40b6f10..b6d2127 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -164,6 +164,14 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
+	// 接收号码之前的定长部分，接收号码之后（含消息长度）的定长部分
+	fixed, tail := 117, 1
+	if V30.MajorMatchV(s.Version) {
+		fixed, tail = 129, 2+20
+	}
+	if len(frame) < fixed {
+		return codec.ErrMalformedBody
+	}
 	// msgId uint64
 	index := 8
 	s.pkTotal = frame[index]
@@ -211,6 +219,9 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
+	if len(frame) < index+l+tail {
+		return codec.ErrMalformedBody
+	}
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -221,9 +232,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.destTerminalId = utils.TrimStr(s.termIds)
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < fixed+l+tail+int(s.msgLength) {
+		return codec.ErrMalformedBody
+	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.msgContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -297,6 +311,9 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
+	if len(frame) < 9 || (V30.MajorMatchV(r.Version) && len(frame) < 12) {
+		return codec.ErrMalformedBody
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = MtResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/packer.go b/codec/packer.go
index 35bf4ff..0e48f65 100644
--- a/codec/packer.go
+++ b/codec/packer.go
@@ -2,6 +2,7 @@ package codec
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/hrygo/log"
 )
@@ -14,6 +15,9 @@ const (
 	PacketMax        = 5120
 )
 
+// ErrMalformedBody 消息体长度不足，无法按协议解码
+var ErrMalformedBody = errors.New("malformed packet body")
+
 type Operation interface {
 	ToInt() uint32
 	OpLog() log.Field
-- 
2.43.0


From 34586efa1c095c8261d42841585fc9c7ffc197d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 04/45] fix: cmpp Submit.Decode converts only UCS-2 parts and
 strips only declared user data headers

---
 codec/cmpp/submit.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index b6d2127..b4285f8 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -237,9 +237,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.tpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		s.msgContent = content
+		if s.msgFmt == 8 {
+			s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	index += int(s.msgLength)
 	if V30.MajorMatchV(s.Version) {
-- 
2.43.0


From e16d6360b528b4895794652b6bdb110d63710d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:37 +0000
Subject: [PATCH 05/45] fix: the last part of a long message carries the end of
 the content

---
 utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..121e222 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -199,6 +199,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	tailLen := len(content) % bodyLen
 	if tailLen != 0 {
 		parts++
+	} else {
+		// 恰好整除，最后一片也是满的
+		tailLen = bodyLen
 	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(time.Now().UnixNano() & 0xff)
@@ -216,7 +219,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		if i != parts-1 {
 			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
 		} else {
-			copy(part[6:], content[0:tailLen])
+			copy(part[6:], content[bodyLen*i:])
 		}
 		rt = append(rt, part)
 	}
-- 
2.43.0


From 2946c6b46acba6884d2a99bb7ef26151fb78b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 06/45] fix: cmpp Delivery carries and returns its text whole
 in both formats

---
 codec/cmpp/delivery.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 7fcc998..24d8ac0 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -84,10 +84,11 @@ func (d *Delivery) Encode() []byte {
 		// 状态报告
 		copy(frame[index:index+l], d.report.Encode())
 	} else {
-		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
-		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
-		// 不支持长短信，固定选用第一片
-		content := slices[0]
+		// 上行短信，不支持长短信 （New时需处理）
+		content := []byte(d.msgContent)
+		if d.msgFmt == 8 {
+			content, _ = utils.Utf8ToUcs2(d.msgContent)
+		}
 		copy(frame[index:index+l], content)
 	}
 	index += l
@@ -139,7 +140,13 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		}
 		d.report = rpt
 	} else {
-		d.msgContent = utils.TrimStr(frame[index : index+l])
+		content := frame[index : index+l]
+		if d.msgFmt == 8 {
+			content, _ = utils.Ucs2ToUtf8(content)
+			d.msgContent = string(content)
+		} else {
+			d.msgContent = utils.TrimStr(content)
+		}
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
@@ -167,12 +174,17 @@ func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
 	var l int
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
+		// 基本多文种平面以外的字符占4个字节，以编码后的长度为准
+		bs, _ := utils.Utf8ToUcs2(msg)
+		l = len(bs)
 		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
+			// 只取前70个字符，不拆分代理对
 			l = 140
+			if bs[138]&0xfc == 0xd8 {
+				l = 138
+			}
+			bs, _ = utils.Ucs2ToUtf8(bs[:l])
+			msg = string(bs)
 		}
 	} else {
 		l = len(msg)
-- 
2.43.0


From cbcb321cb7bfcede91ca3cbf7843fc93449a4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 07/45] fix: smgp decoders reject bodies too short for the
 fields they declare

---
 codec/smgp/deliver.go | 14 ++++++++++++++
 codec/smgp/header.go  |  3 +++
 codec/smgp/login.go   |  6 ++++++
 codec/smgp/report.go  |  5 +++++
 codec/smgp/submit.go  | 23 +++++++++++++++++++----
 5 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..da50942 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -112,6 +112,11 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
+	// 消息内容之前的定长部分
+	const fixed = 69
+	if len(frame) < fixed {
+		return codec.ErrMalformedBody
+	}
 	var index int
 	d.msgId = frame[index : index+10]
 	index += 10
@@ -128,12 +133,18 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index += 1
 	if d.IsReport() {
+		if len(frame) < fixed+RptLen {
+			return codec.ErrMalformedBody
+		}
 		d.report = &Report{}
 		err := d.report.Decode(frame[index : index+RptLen])
 		if err != nil {
 			return err
 		}
 	} else {
+		if len(frame) < fixed+int(d.msgLength) {
+			return codec.ErrMalformedBody
+		}
 		bytes, err := GbDecoder.Bytes(frame[index : index+int(d.msgLength)])
 		if err != nil {
 			return err
@@ -215,6 +226,9 @@ func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
+	if len(frame) < 14 {
+		return codec.ErrMalformedBody
+	}
 	r.msgId = make([]byte, 10)
 	copy(r.msgId, frame[0:10])
 	r.status = Status(binary.BigEndian.Uint32(frame[10:14]))
diff --git a/codec/smgp/header.go b/codec/smgp/header.go
index 1d65812..7db14f9 100644
--- a/codec/smgp/header.go
+++ b/codec/smgp/header.go
@@ -27,6 +27,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.RequestId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..029c806 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -73,6 +73,9 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
+	if len(frame) < LoginLen-int(codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 	l.clientID = string(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
@@ -167,6 +170,9 @@ func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
+	if len(frame) < LoginRespLen-int(codec.HeadLen) {
+		return codec.ErrMalformedBody
+	}
 	var index int
 	r.status = Status(binary.BigEndian.Uint32(frame[0 : index+4]))
 	index = 4
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..7250962 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -83,6 +85,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen {
+		return codec.ErrMalformedBody
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..886c2eb 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -147,6 +147,11 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
+	// 接收号码之前（含号码数量）、接收号码之后（消息长度及保留字段）的定长部分
+	const fixed, tail = 105, 1 + 8
+	if len(frame) < fixed {
+		return codec.ErrMalformedBody
+	}
 
 	var index int
 	s.msgType = frame[index]
@@ -175,6 +180,10 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destTermIDCount = frame[index]
 	index++
+	l := int(s.destTermIDCount) * 21
+	if len(frame) < fixed+l+tail || len(frame) < fixed+l+tail+int(frame[fixed+l]) {
+		return codec.ErrMalformedBody
+	}
 	for i := byte(0); i < s.destTermIDCount; i++ {
 		s.destTermID = append(s.destTermID, utils.TrimStr(frame[index:index+21]))
 		index += 21
@@ -182,17 +191,20 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.msgLength = frame[index]
 	index++
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
 	s.msgContent, _ = GbDecoder.Bytes(content)
 	s.reserve = utils.TrimStr(frame[index : index+8])
 	index += 8
-	// 一个tlv至少5字节
-	if uint32(index+5) < s.PacketLength {
+	if index < len(frame) {
 		buf := bytes.NewBuffer(frame[index:])
-		s.tlvList, _ = utils.Read(buf)
+		tlvList, err := utils.Read(buf)
+		if err != nil {
+			return err
+		}
+		s.tlvList = tlvList
 	}
 	return nil
 }
@@ -235,6 +247,9 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
+	if len(frame) < 14 {
+		return codec.ErrMalformedBody
+	}
 	r.msgId = make([]byte, 10)
 	copy(r.msgId, frame[0:10])
 	r.status = Status(binary.BigEndian.Uint32(frame[10:14]))
-- 
2.43.0


From fbfc39fb8cc091fa67db1c11c8d756deebe7ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 08/45] fix: smgp Login.Decode strips the padding of the client
 id

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 029c806..effd3c1 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	if len(frame) < LoginLen-int(codec.HeadLen) {
 		return codec.ErrMalformedBody
 	}
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From 0d701d25332497687030661fa7e2e08345636707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 09/45] fix: smgp content is decoded by its declared format and
 only declared user data headers are stripped

---
 codec/smgp/deliver.go   |  6 +-----
 codec/smgp/submit.go    | 17 +++++++++++++----
 codec/smgp/variables.go | 16 ++++++++++++++++
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index da50942..9966277 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -145,11 +145,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		if len(frame) < fixed+int(d.msgLength) {
 			return codec.ErrMalformedBody
 		}
-		bytes, err := GbDecoder.Bytes(frame[index : index+int(d.msgLength)])
-		if err != nil {
-			return err
-		}
-		d.msgContent = string(bytes)
+		d.msgContent = string(decodeContent(d.msgFormat, frame[index:index+int(d.msgLength)]))
 	}
 	// 后续字节不解析了
 	return nil
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 886c2eb..667e09e 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -191,11 +191,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.msgLength = frame[index]
 	index++
 	content := frame[index : index+int(s.msgLength)]
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
-		content = content[6:]
-	}
 	index += int(s.msgLength)
-	s.msgContent, _ = GbDecoder.Bytes(content)
 	s.reserve = utils.TrimStr(frame[index : index+8])
 	index += 8
 	if index < len(frame) {
@@ -206,9 +202,22 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 		}
 		s.tlvList = tlvList
 	}
+	// TP_udhi声明内容带有长短信协议头时，去除协议头
+	if s.hasUdh() && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+		content = content[6:]
+	}
+	s.msgContent = decodeContent(s.msgFormat, content)
 	return nil
 }
 
+func (s *Submit) hasUdh() bool {
+	if s.tlvList == nil {
+		return false
+	}
+	tlv, err := s.tlvList.Get(TP_udhi)
+	return err == nil && len(tlv.Value()) > 0 && tlv.Value()[0] == 1
+}
+
 func (s *Submit) ToResponse(code uint32) codec.Pdu {
 	resp := &SubmitRsp{Version: s.Version}
 	resp.PacketLength = 26
diff --git a/codec/smgp/variables.go b/codec/smgp/variables.go
index 5f7f039..e967f1e 100644
--- a/codec/smgp/variables.go
+++ b/codec/smgp/variables.go
@@ -5,6 +5,8 @@ import (
 
 	"github.com/hrygo/log"
 	"golang.org/x/text/encoding/simplifiedchinese"
+
+	"github.com/hrygo/gosms/utils"
 )
 
 type Version uint8
@@ -62,6 +64,20 @@ func (t Version) MajorMatchV(v Version) bool {
 	return uint8(t)&0xf0 == uint8(v)&0xf0
 }
 
+// 按照msgFormat声明的编码解码消息内容，4：二进制，8：UCS2，其他：GB18030（兼容ASCII）
+func decodeContent(msgFormat byte, content []byte) []byte {
+	switch msgFormat {
+	case 4:
+		return append([]byte(nil), content...)
+	case 8:
+		text, _ := utils.Ucs2ToUtf8(content)
+		return text
+	default:
+		text, _ := GbDecoder.Bytes(content)
+		return text
+	}
+}
+
 // CommandId 命令定义
 type CommandId uint32
 
-- 
2.43.0


From 3236709f66c9187e2b134efcc308e20d858dc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:33 +0000
Subject: [PATCH 10/45] fix: smgp DeliverRsp carries the msg id of the delivery
 it answers

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 9966277..106b381 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -157,7 +157,7 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 	resp.PacketLength = 26
 	resp.SequenceId = d.SequenceId
 	resp.status = Status(code)
-	resp.msgId = codec.BcdSeq.NextVal()
+	resp.msgId = d.msgId
 	return resp
 }
 
-- 
2.43.0


From b79da54e4bd3106a54f4fd69d9a316f71c849117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 11/45] fix: smgp delivery report declares the real length of
 its content

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 106b381..8772e83 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-- 
2.43.0


From 575cfffe32bdea3db7b208df20d10c550229fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 12/45] fix: smgp NewDeliver keeps the encoded text within the
 one-byte length field

---
 codec/smgp/deliver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 8772e83..247d018 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -60,6 +60,11 @@ func NewDeliver(ac *codec.AuthConf, phone string, destNo string, txt string, seq
 		subTxt = string(rs)
 	}
 	gbs, _ := GbEncoder.String(subTxt)
+	// 四字节字符较多时会超出msgLength的取值范围，63个字符最长252字节
+	if len(gbs) > 255 {
+		subTxt = string(rs[:63])
+		gbs, _ = GbEncoder.String(subTxt)
+	}
 	msg := []byte(gbs)
 	dlv.msgBytes = msg
 	dlv.msgLength = byte(len(msg))
-- 
2.43.0


From 4f8eba2ec1d5925153e46d18763e2b2063939f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 13/45] fix: smgp PkNumber counts the parts of a long message
 from one

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 667e09e..12ad14f 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -95,7 +95,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From 96f9b591a93973e4bdaac7acd968faed3b2773a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 14/45] fix: smgp SetOptions keeps the account's report flag
 and priority when no option is given

---
 codec/smgp/submit.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 12ad14f..b4a55c0 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -390,14 +390,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
-- 
2.43.0


From 1c29bc8a60821c6e18d857060fc06d7497f296f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:14 +0000
Subject: [PATCH 15/45] fix: smgp SetOptions honours the validity option and
 the account's validity period

---
 codec/smgp/submit.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index b4a55c0..a4091f3 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -408,13 +408,11 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(time.Now().Add(ac.MtValidDuration))
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 894d42217ff122bad4a9f73aef3f070f6dd81895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 16/45] fix: WithMtOptions applies the given options

---
 codec/options_mt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..5a88492 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,7 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		*mtOps = *opt
 	}
 }
 
-- 
2.43.0


From e70947f4819fea013c34c203aa1eb23900f8ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:31 +0000
Subject: [PATCH 17/45] fix: login responses authenticate the request's
 authenticator, as the protocols define

---
 codec/cmpp/connect.go | 2 +-
 codec/smgp/login.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 3150b42..1231bcd 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -137,7 +137,7 @@ func (c *Connect) ToResponse(code uint32) codec.Pdu {
 	if rsp.status == ConnStatusOK {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
 			bs,
-			[]byte(c.sourceAddr),
+			c.authenticatorSource,
 			[]byte(c.secret),
 		}, nil))
 		rsp.authenticatorISMG = md5Auth[:]
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index effd3c1..445cfd8 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -125,8 +125,8 @@ func (l *Login) ToResponse(code uint32) codec.Pdu {
 	rsp.status = Status(code)
 	if rsp.status == Status(0) {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
-			{byte(code)},
-			[]byte(l.clientID),
+			{byte(code >> 24), byte(code >> 16), byte(code >> 8), byte(code)},
+			l.authenticatorClient,
 			[]byte(l.secret),
 		}, nil))
 		rsp.authenticatorServer = md5Auth[:]
-- 
2.43.0


From 738cdb258967bc8811eb8fe4e174e49c3e84c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 18/45] fix: sgip decoders reject bodies too short for the
 fields they declare

---
 codec/sgip/bind.go    |  6 ++++++
 codec/sgip/deliver.go | 11 +++++++++++
 codec/sgip/header.go  |  3 +++
 codec/sgip/report.go  |  6 ++++++
 codec/sgip/submit.go  | 17 ++++++++++++++++-
 codec/sgip/unbind.go  |  6 ++++++
 6 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..c0bf834 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -48,6 +48,9 @@ func (b *Bind) Encode() []byte {
 func (b *Bind) Decode(cid uint32, frame []byte) error {
 	b.PacketLength = codec.HeadLen + uint32(len(frame))
 	b.CommandId = SGIP_BIND
+	if len(frame) < 8+1+16+16 {
+		return codec.ErrMalformedBody
+	}
 	b.SequenceNumber = make([]uint32, 3)
 	b.SequenceNumber[0] = cid
 	index := 0
@@ -106,6 +109,9 @@ func (r *BindRsp) Encode() []byte {
 func (r *BindRsp) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_BIND_RESP
+	if len(frame) < 8+1 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	index := 0
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..295f3ee 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -80,6 +80,11 @@ func (d *Deliver) Encode() []byte {
 func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = SGIP_DELIVER
+	// 消息内容之前的定长部分
+	const fixed = 8 + 21 + 21 + 1 + 1 + 1 + 4
+	if len(frame) < fixed {
+		return codec.ErrMalformedBody
+	}
 	d.SequenceNumber = make([]uint32, 3)
 	d.SequenceNumber[0] = cid
 	index := 0
@@ -99,6 +104,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < fixed+uint64(d.MessageLength) {
+		return codec.ErrMalformedBody
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -142,6 +150,9 @@ func (d *Deliver) ToResponse(code uint32) codec.Pdu {
 func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_DELIVER_RESP
+	if len(frame) < 8+1 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
diff --git a/codec/sgip/header.go b/codec/sgip/header.go
index 140270f..651e227 100644
--- a/codec/sgip/header.go
+++ b/codec/sgip/header.go
@@ -30,6 +30,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen)+8 {
+		return codec.ErrMalformedBody
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceNumber = make([]uint32, 3)
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..f921bed 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -56,6 +56,9 @@ func (r *Report) Encode() []byte {
 func (r *Report) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT
+	if len(frame) < 8+12+1+21+1+1 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	index := 0
@@ -111,6 +114,9 @@ func (r *Report) ToResponse(code uint32) codec.Pdu {
 func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_REPORT_RESP
+	if len(frame) < 8+1 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..49ab05c 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -150,6 +150,11 @@ func (s *Submit) Encode() []byte {
 func (s *Submit) Decode(cid uint32, frame []byte) error {
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = SGIP_SUBMIT
+	// 接收号码之前（含号码数量）、接收号码与消息内容之间的定长部分
+	const fixed, tail = 8 + 21 + 21 + 1, 5 + 10 + 1 + 6 + 6 + 3 + 16 + 16 + 5 + 4
+	if len(frame) < fixed {
+		return codec.ErrMalformedBody
+	}
 	s.SequenceNumber = make([]uint32, 3)
 	s.SequenceNumber[0] = cid
 	index := 0
@@ -163,6 +168,10 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index += 21
 	s.UserCount = frame[index]
 	index++
+	l := int(s.UserCount) * 21
+	if len(frame) < fixed+l+tail {
+		return codec.ErrMalformedBody
+	}
 	s.UserNumber = make([]string, s.UserCount)
 	for i := 0; i < int(s.UserCount); i++ {
 		s.UserNumber[i] = utils.TrimStr(frame[index : index+21])
@@ -200,9 +209,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < uint64(fixed+l+tail)+uint64(s.MessageLength) {
+		return codec.ErrMalformedBody
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -302,6 +314,9 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = SGIP_SUBMIT_RESP
+	if len(frame) < 8+1 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..89f1b30 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -23,6 +23,9 @@ func (u *Unbind) Encode() []byte {
 func (u *Unbind) Decode(cid uint32, frame []byte) error {
 	u.PacketLength = codec.HeadLen + 8
 	u.CommandId = SGIP_UNBIND
+	if len(frame) < 8 {
+		return codec.ErrMalformedBody
+	}
 	u.SequenceNumber = make([]uint32, 3)
 	u.SequenceNumber[0] = cid
 	u.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
@@ -53,6 +56,9 @@ func (r *UnbindRsp) Encode() []byte {
 func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + 8
 	r.CommandId = SGIP_UNBIND_RESP
+	if len(frame) < 8 {
+		return codec.ErrMalformedBody
+	}
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
-- 
2.43.0


From bec0e78e4212dbfe54d9b37c555171397fbd7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 19/45] fix: sgip Submit.Decode converts only UCS-2 parts and
 strips only declared user data headers

---
 codec/sgip/submit.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 49ab05c..0129b22 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -214,9 +214,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.TpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		s.MessageContent = content
+		if s.MessageCoding == 8 {
+			s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	s.Reserve = ""
 	return nil
-- 
2.43.0


From 3766098435f48800486fbd6136d1ffe80088dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 20/45] fix: sgip NewReport builds a report and not a deliver
 packet

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index f921bed..90960c8 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -25,7 +25,7 @@ const DlvPackLen = 64
 func NewReport(phone string, mtSequence []uint32, status Status, code byte) codec.RequestPdu {
 	dlv := &Report{}
 	dlv.PacketLength = DlvPackLen
-	dlv.CommandId = SGIP_DELIVER
+	dlv.CommandId = SGIP_REPORT
 	dlv.SequenceNumber = Sequencer.NextVal()
 	dlv.MtSequence = mtSequence
 	dlv.UserNumber = phone
-- 
2.43.0


From c405a6886b4e1a865de7ce003c88077453685550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:50 +0000
Subject: [PATCH 21/45] fix: sgip encoders keep every text field within its
 width

---
 codec/sgip/deliver.go |  6 ++----
 codec/sgip/report.go  |  3 +--
 codec/sgip/submit.go  | 27 +++++++++------------------
 3 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index 295f3ee..15b8ec5 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -59,10 +59,8 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 func (d *Deliver) Encode() []byte {
 	frame := d.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], d.UserNumber)
-	index += 21
-	copy(frame[index:], d.SPNumber)
-	index += 21
+	index = utils.CopyStr(frame, d.UserNumber, index, 21)
+	index = utils.CopyStr(frame, d.SPNumber, index, 21)
 	frame[index] = d.TpPid
 	index++
 	frame[index] = d.TpUdhi
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 90960c8..ed3167c 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -43,8 +43,7 @@ func (r *Report) Encode() []byte {
 	}
 	frame[index] = r.ReportType
 	index++
-	copy(frame[index:], r.UserNumber)
-	index += 21
+	index = utils.CopyStr(frame, r.UserNumber, index, 21)
 	frame[index] = byte(r.State)
 	index++
 	frame[index] = r.ErrorCode
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 0129b22..2876dcd 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -99,36 +99,27 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
-	index += 21
-	copy(frame[index:], s.ChargeNumber)
-	index += 21
+	index = utils.CopyStr(frame, s.SPNumber, index, 21)
+	index = utils.CopyStr(frame, s.ChargeNumber, index, 21)
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
-		index += 21
+		index = utils.CopyStr(frame, p, index, 21)
 	}
-	copy(frame[index:], s.CorpId)
-	index += 5
-	copy(frame[index:], s.ServiceType)
-	index += 10
+	index = utils.CopyStr(frame, s.CorpId, index, 5)
+	index = utils.CopyStr(frame, s.ServiceType, index, 10)
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
-	index += 6
-	copy(frame[index:], s.GivenValue)
-	index += 6
+	index = utils.CopyStr(frame, s.FeeValue, index, 6)
+	index = utils.CopyStr(frame, s.GivenValue, index, 6)
 	frame[index] = s.AgentFlag
 	index++
 	frame[index] = s.MorelatetoMTFlag
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
-	index += 16
-	copy(frame[index:], s.ScheduleTime)
-	index += 16
+	index = utils.CopyStr(frame, s.ExpireTime, index, 16)
+	index = utils.CopyStr(frame, s.ScheduleTime, index, 16)
 	frame[index] = s.ReportFlag
 	index++
 	frame[index] = s.TpPid
-- 
2.43.0


From 888fc43295d480bc7a33c982ee71b2d48b4b16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 22/45] fix: TLV reader reports a stream that ends inside an
 object and reads across short reads

---
 utils/tlv.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/utils/tlv.go b/utils/tlv.go
index 82059d5..3eb041f 100644
--- a/utils/tlv.go
+++ b/utils/tlv.go
@@ -105,16 +105,14 @@ func ReadObject(r io.Reader) (TLV, error) {
 	var length uint16
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
-		return nil, err
+		return nil, ErrTLVRead
 	}
 	tlv.len = length
 
 	tlv.val = make([]byte, tlv.Length())
-	l, err := r.Read(tlv.val)
+	_, err = io.ReadFull(r, tlv.val)
 	if err != nil {
-		return nil, err
-	} else if uint16(l) != tlv.Length() {
-		return tlv, ErrTLVRead
+		return nil, ErrTLVRead
 	}
 
 	return tlv, nil
-- 
2.43.0


From d7cc029e0df168c6b767bcbdf57d224095ba7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:22 +0000
Subject: [PATCH 23/45] fix: CycleSequence places worker and datacenter in the
 documented bits

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From af12a3bbe63224265ee26fab0affa92b3d79a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 24/45] fix: snowflake32 does not wait a whole day when
 midnight passes

---
 utils/snowflake32/snowflake32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..0f30dc3 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -43,7 +43,7 @@ func (s *Snowflake) NextVal() int32 {
 		if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			for now == s.seconds {
 				time.Sleep(time.Microsecond)
 				now = passedSeconds()
 			}
-- 
2.43.0


From 5aab37d0c3ec96ca5e03cfa2c3596b3462ac6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:26 +0000
Subject: [PATCH 25/45] fix: events receive the arguments they are called with

---
 event_manager/event_manage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..0d0b5d1 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -66,7 +66,7 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if _, exists := m.Get(key); exists == false {
 		sMap.Store(key, func(args ...any) {
 			for _, fn := range events {
-				fn()
+				fn(args...)
 			}
 		})
 		return true
@@ -95,7 +95,7 @@ func (m *eventManage) Call(key string, args ...interface{}) {
 	}
 	if fn, exists := m.Get(key); exists {
 		log.Infof("Call: %#v, Key: %s", fn, key)
-		fn(args)
+		fn(args...)
 		log.Infof("Done: %#v, Key: %s", fn, key)
 
 	} else {
-- 
2.43.0


From ca258edcdcdb43716b9bf4a22ec203ac959d48b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:28 +0000
Subject: [PATCH 26/45] fix: concurrent registrations of one event key cannot
 both succeed

---
 event_manager/event_manage.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 0d0b5d1..0f15895 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -62,17 +62,16 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
-	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn(args...)
-			}
-		})
+	// 判断key下是否已有事件，没有则存储
+	var event Event = func(args ...any) {
+		for _, fn := range events {
+			fn(args...)
+		}
+	}
+	if _, exists := sMap.LoadOrStore(key, event); !exists {
 		return true
-	} else {
-		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
 	}
+	log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
 	return false
 }
 
-- 
2.43.0


From dc6faf6b9e95c1011a6e0cb6b3055dabb518bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 27/45] fix: client finds the pending result of a submit
 response by the key it was stored under

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..b2cac23 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -83,7 +83,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = sub.Result()
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..f10eda4 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -83,7 +83,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = uint32(sub.Status())
-- 
2.43.0


From 624a6714dc81e5eddfa5b7833497e8d2fc7e7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 28/45] fix: client registers a submit before sending it, so an
 early response is not lost

---
 msc_client/session/on_traffic_cmpp.go | 15 ++++++++-------
 msc_client/session/on_traffic_sgip.go | 15 ++++++++-------
 msc_client/session/on_traffic_smgp.go | 15 ++++++++-------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index b2cac23..74a7938 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,21 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		results = append(results, &r)
+		// 先登记再发送，避免响应先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			log.Error(err.Error())
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
-		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..f957875 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,21 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		results = append(results, &r)
+		// 先登记再发送，避免响应先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			log.Error(err.Error())
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
-		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index f10eda4..a76477b 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,21 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		results = append(results, &r)
+		// 先登记再发送，避免响应先于登记到达
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			log.Error(err.Error())
 			s.Close()
 			return nil
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
-		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
-- 
2.43.0


From 2781b8c8f0d9d01d971c7cfe94a758c19072b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 29/45] fix: client drops an undecodable packet before using it
 and survives a refused login response

---
 msc_client/session/on_traffic_cmpp.go | 13 +++++++++----
 msc_client/session/on_traffic_sgip.go | 23 ++++++++++++++++++-----
 msc_client/session/on_traffic_smgp.go | 13 +++++++++----
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 74a7938..1dce03f 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -43,10 +43,14 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_CONNECT_RESP:
 		resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != cmpp.ConnStatusOK {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != cmpp.ConnStatusOK {
+			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
 		act := &cmpp.ActiveTest{}
@@ -79,11 +83,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_SUBMIT_RESP:
 		sub := &cmpp.SubmitRsp{Version: cmpp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -96,12 +101,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index f957875..c34ca6e 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -43,14 +43,22 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status != sgip.Status(0) {
+			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
 		_, _ = s.con.Write(resp.Encode())
@@ -58,17 +66,22 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
 		term := &sgip.UnbindRsp{}
-		_ = term.Decode(seq, buff)
+		if err := term.Decode(seq, buff); err != nil {
+			log.Error(err.Error())
+			s.Close()
+			return
+		}
 		log.Info(receive, term.Log()...)
 		s.Close()
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index a76477b..17c69e4 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -43,10 +43,14 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_LOGIN_RESP:
 		resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != smgp.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != smgp.Status(0) {
+			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
 		act := &smgp.ActiveTest{}
@@ -79,11 +83,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_SUBMIT_RESP:
 		sub := &smgp.SubmitRsp{Version: smgp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -96,12 +101,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
-- 
2.43.0


From 6181c61fae7a433d1e79657611af20213fcd3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 30/45] fix: client reads whole packets however the stream is
 cut

---
 msc_client/session/session.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..4b7d559 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -102,6 +103,7 @@ func (s *Session) Close() {
 
 // startReceiver 启动接收服务
 func (s *Session) startReceiver() {
+	con := s.con
 	go func() {
 		// 无限循环接收
 		for {
@@ -117,8 +119,8 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					_, err := io.ReadFull(con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -137,8 +139,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
@@ -196,8 +198,8 @@ func (s *Session) login() error {
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
 	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	n, err := io.ReadFull(s.con, data)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From e1428a65675220cd27918a97ed69dfe3cfcf0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 31/45] fix: closing a client session twice or while it is in
 use does not crash or block

---
 msc_client/session/session.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 4b7d559..305495e 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -85,20 +85,23 @@ func (s *Session) LruPriority() uint64 {
 }
 
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
+	// 只有第一次关闭有效
+	if s.stat == StatClosing {
+		return
+	}
 
 	// 关闭连接
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
+	// con、authConf 可能正被接收或发送的协程使用，不置空
 	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
 }
 
 // startReceiver 启动接收服务
-- 
2.43.0


From d2eda775fca09ed1b0ff2d5813163f1428cc6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 32/45] fix: Query of a message that could not be sent returns
 no results instead of panicking

---
 msc_client/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..d430146 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -43,7 +43,7 @@ func Query(queryId int64) []any {
 	value, ok := resultQueryCacheMap.Load(queryId)
 	if ok {
 		result, ok := value.([]any)
-		if ok {
+		if ok && len(result) > 0 {
 			_, ok := result[0].(*session.Result)
 			if ok {
 				return result
-- 
2.43.0


From 049de04117f5d501247b3aca2e8f4ab836f03364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 33/45] fix: server handles every complete packet of a read
 event

---
 msc_server/server/on_traffic.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..1b9ef42 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次读事件可能包含多个完整的报文
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
-- 
2.43.0


From 23afb7cc79b7d9c035391abcd0f4b53597cff8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 34/45] fix: closing a refused connection neither panics nor
 changes the session count

---
 msc_server/server/on_close.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..2067506 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 连接数达到阈值时被拒绝的连接，没有会话
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
@@ -25,8 +30,10 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
+	s.Lock()
 	s.sessionPool.Delete(sc.Id())
 	s.activeSessions -= 1
+	s.Unlock()
 	c.SetContext(nil)
 	if sc != nil {
 		sc.conn = nil
-- 
2.43.0


From 13d1fceb396d2ab24999fdbea9b200e3b773fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 35/45] fix: connections opened at the same time cannot exceed
 the session limit

---
 msc_server/server/on_open.go | 4 ++--
 msc_server/server/server.go  | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..2b01941 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,13 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 创建会话，已达到连接数阈值时返回nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -103,6 +107,8 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 }
 
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From 03a75bf52035f8ed3a8018db3295efe705e16f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:17 +0000
Subject: [PATCH 36/45] fix: simultaneous logins cannot exceed the account's
 connection limit

---
 msc_server/server/cmpp_connect.go |  3 +--
 msc_server/server/server.go       | 16 ++++++++++++++++
 msc_server/server/sgip_bind.go    |  3 +--
 msc_server/server/smgp_login.go   |  3 +--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..8472df1 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -50,8 +50,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveLogin(sc, cli) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 2b01941..b0a98cc 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -11,6 +11,7 @@ import (
 	"github.com/panjf2000/gnet/v2"
 	"github.com/panjf2000/gnet/v2/pkg/pool/goroutine"
 
+	"github.com/hrygo/gosms/codec"
 	bs "github.com/hrygo/gosms/msc_server"
 )
 
@@ -96,6 +97,10 @@ func (s *Server) CreateSession(c gnet.Conn) *session {
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
+	return s.countSessionByClientId(clientId)
+}
+
+func (s *Server) countSessionByClientId(clientId string) (counter int) {
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
 		if ok && s.clientId == clientId {
@@ -106,6 +111,17 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	return
 }
 
+// 占用客户端的一个连接数，已达上限时返回false
+func (s *Server) reserveLogin(sc *session, ac *codec.AuthConf) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.countSessionByClientId(ac.ClientId) >= ac.MaxConns {
+		return false
+	}
+	sc.clientId = ac.ClientId
+	return true
+}
+
 func (s *Server) ActiveSessions() int {
 	s.Lock()
 	defer s.Unlock()
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..1d654ba 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -50,8 +50,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		if !s.reserveLogin(sc, ac) {
 			code = sgip.Status(3)
 		}
 	}
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..33156fe 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -50,8 +50,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.reserveLogin(sc, cli) {
 			code = smgp.Status(2)
 		}
 	}
-- 
2.43.0


From afbb9033324804ad3788652f663fe40fa7adb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 37/45] fix: yaml accounts with upper case ids can be found and
 odd file names do not panic

---
 auth/yaml_store.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..d5679e2 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -45,7 +45,7 @@ func (y *YamlStore) Load() {
 			log.Fatalf("Config file init error: %v", err)
 		}
 
-		unmarshal(data, strings.ToLower(key), y)
+		unmarshal(data, key, y)
 	}
 }
 
@@ -60,12 +60,19 @@ func unmarshal(data []byte, id string, y *YamlStore) {
 	y.Lock()
 	defer y.Unlock()
 
+	// id 格式：isp_clientId，其中仅isp不区分大小写
+	isp, cid, ok := strings.Cut(id, "_")
+	if !ok {
+		log.Errorf("Config file name error: %s", id)
+		return
+	}
+
 	cli := &Client{}
 	err := yaml.Unmarshal(data, cli)
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
 	} else {
-		cli.ISP = id[0:4]
-		y.Cache[id] = cli
+		cli.ISP = strings.ToLower(isp)
+		y.Cache[cli.ISP+"_"+cid] = cli
 	}
 }
-- 
2.43.0


From f734f5ed4948c35d9a980e7763d6d618db667dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 38/45] fix: smgp Submit.String does not slice a decoded
 content shorter than six bytes

---
 codec/smgp/submit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index a4091f3..9d4a69d 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -230,8 +230,8 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 
 func (s *Submit) String() string {
 	bts := s.msgContent
-	if s.msgLength > 6 {
-		bts = s.msgContent[:6]
+	if len(bts) > 6 {
+		bts = bts[:6]
 	}
 	return fmt.Sprintf("{ header: %s, msgType: %v, NeedReport: %v, LruPriority: %v, ServiceID: %v, "+
 		"feeType: %v, feeCode: %v, fixedFee: %v, msgFormat: %v, validTime: %v, AtTime: %v, SrcTermID: %v, "+
-- 
2.43.0


From 8d01b6a9bd0fc1a1759407b8c4287b26890986ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:21 +0000
Subject: [PATCH 39/45] fix: find accounts loaded from the database whatever
 the case of their protocol

Load stored accounts under the protocol as written in the document while FindByCid
lower-cases it, so an account stored as CMPP, SGIP or SMGP was never found.
---
 auth/mongo_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index a47b2c2..2f7e077 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -37,7 +37,7 @@ func (m *MongoStore) Load() {
 		if err != nil {
 			return
 		}
-		m.Cache[c.ISP+"_"+c.ClientId] = c
+		m.Cache[strings.ToLower(c.ISP)+"_"+c.ClientId] = c
 	}
 }
 
-- 
2.43.0


From e55f9fc7fa40dd6be454706f611adaea35ebaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 40/45] fix: smgp status report of a submit without receivers
 does not panic

---
 codec/smgp/deliver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 247d018..013eed6 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -84,7 +84,9 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-	dlv.srcTermID = mt.destTermID[0]
+	if len(mt.destTermID) > 0 {
+		dlv.srcTermID = mt.destTermID[0]
+	}
 	dlv.destTermID = mt.srcTermID
 	dlv.PacketLength = baseLen + uint32(RptLen)
 	return dlv
-- 
2.43.0


From 6c206b6b200fdfa491835fa2cd46155c878a495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:15 +0000
Subject: [PATCH 41/45] fix: requests in flight when their connection closes
 neither block forever nor panic

---
 msc_server/server/cmpp_active.go         |  7 +++++--
 msc_server/server/cmpp_active_resp.go    |  7 +++++--
 msc_server/server/cmpp_delivery_resp.go  |  7 +++++--
 msc_server/server/cmpp_submit.go         |  7 +++++--
 msc_server/server/cmpp_terminate.go      |  7 +++++--
 msc_server/server/cmpp_terminate_resp.go |  7 +++++--
 msc_server/server/on_close.go            |  6 +-----
 msc_server/server/session.go             | 23 +++++++++++++++++------
 msc_server/server/sgip_submit.go         |  7 +++++--
 msc_server/server/sgip_unbind.go         |  7 +++++--
 msc_server/server/sgip_unbind_resp.go    |  7 +++++--
 msc_server/server/smgp_active.go         |  7 +++++--
 msc_server/server/smgp_active_resp.go    |  7 +++++--
 msc_server/server/smgp_delivery_resp.go  |  7 +++++--
 msc_server/server/smgp_exit.go           |  7 +++++--
 msc_server/server/smgp_exit_resp.go      |  7 +++++--
 msc_server/server/smgp_submit.go         |  7 +++++--
 17 files changed, 93 insertions(+), 41 deletions(-)

diff --git a/msc_server/server/cmpp_active.go b/msc_server/server/cmpp_active.go
index d523875..c99f2fb 100644
--- a/msc_server/server/cmpp_active.go
+++ b/msc_server/server/cmpp_active.go
@@ -42,8 +42,11 @@ var cmppActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppActive(s *Server, sc *session, pdu *cmpp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_active_resp.go b/msc_server/server/cmpp_active_resp.go
index ce6b187..b384bfb 100644
--- a/msc_server/server/cmpp_active_resp.go
+++ b/msc_server/server/cmpp_active_resp.go
@@ -42,8 +42,11 @@ var cmppActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleCmppActiveResp(s *Server, sc *session, pdu *cmpp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..7b2c310 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -42,8 +42,11 @@ var cmppDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index e446a4d..40364ed 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -53,8 +53,11 @@ var cmppSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/cmpp_terminate.go b/msc_server/server/cmpp_terminate.go
index 6d94c53..57bb093 100644
--- a/msc_server/server/cmpp_terminate.go
+++ b/msc_server/server/cmpp_terminate.go
@@ -41,8 +41,11 @@ var cmppTerminate TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleCmppTerminate(s *Server, sc *session, term *cmpp.Terminate) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 2220091..430f953 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -41,8 +41,11 @@ var cmppTerminateResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet
 
 func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 2067506..258602a 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -29,14 +29,10 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 }
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
-	sc.closeResource() // 关闭通道，释放线程池
+	sc.closeResource() // 释放通道和线程池
 	s.Lock()
 	s.sessionPool.Delete(sc.Id())
 	s.activeSessions -= 1
 	s.Unlock()
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..80e56e0 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -94,16 +94,24 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
+// 占用流控窗口的一个位置，返回释放该位置的函数；会话资源已释放时返回nil
+func (s *session) enterWindow() func() {
+	window := s.window
+	if window == nil {
+		return nil
+	}
+	window <- struct{}{}
+	return func() { <-window }
+}
+
+// 释放通道和线程池
 func (s *session) closeResource() {
 	if s == nil {
 		return
 	}
 
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
-	}
+	// 正在处理的请求可能还占用着窗口，不能关闭通道
+	s.window = nil
 	if s.pool != nil {
 		s.pool.Release()
 		s.pool = nil
@@ -174,7 +182,10 @@ func (s *session) LogSession(size ...int) []log.Field {
 	}
 	remote := "closed"
 	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
+		// 连接关闭后没有地址
+		if addr := s.conn.RemoteAddr(); addr != nil {
+			remote = addr.String()
+		}
 	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index ce53561..4988372 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -52,8 +52,11 @@ var sgipSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/sgip_unbind.go b/msc_server/server/sgip_unbind.go
index ca5fd78..7492de3 100644
--- a/msc_server/server/sgip_unbind.go
+++ b/msc_server/server/sgip_unbind.go
@@ -41,8 +41,11 @@ var sgipUnbind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipUnbind(s *Server, sc *session, term *sgip.Unbind) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index b620c91..86903b8 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -41,8 +41,11 @@ var sgipUnbindRsp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active.go b/msc_server/server/smgp_active.go
index ae132eb..91b32a2 100644
--- a/msc_server/server/smgp_active.go
+++ b/msc_server/server/smgp_active.go
@@ -42,8 +42,11 @@ var smgpActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpActive(s *Server, sc *session, pdu *smgp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active_resp.go b/msc_server/server/smgp_active_resp.go
index 62cf4bc..bae29f5 100644
--- a/msc_server/server/smgp_active_resp.go
+++ b/msc_server/server/smgp_active_resp.go
@@ -42,8 +42,11 @@ var smgpActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleSmgpActiveResp(s *Server, sc *session, pdu *smgp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 3872e2f..1728342 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -42,8 +42,11 @@ var smgpDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit.go b/msc_server/server/smgp_exit.go
index eb8c9e8..8a98f34 100644
--- a/msc_server/server/smgp_exit.go
+++ b/msc_server/server/smgp_exit.go
@@ -41,8 +41,11 @@ var smgpExit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 func handleSmgpExit(s *Server, sc *session, term *smgp.Exit) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 06f199b..5484843 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -41,8 +41,11 @@ var smgpExitResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn
 
 func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 29e8bba..0dcb1b5 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -54,8 +54,11 @@ var smgpSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	leave := sc.enterWindow()
+	if leave == nil {
+		return
+	}
+	defer leave()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
-- 
2.43.0


From d32130c422130bc40c58c36fadad362958423587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 42/45] fix: a login whose response cannot be written leaves no
 session behind

---
 msc_server/server/cmpp_connect.go | 4 ++++
 msc_server/server/sgip_bind.go    | 4 ++++
 msc_server/server/smgp_login.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 8472df1..0462da0 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -58,6 +58,10 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
+		if Session(c) != sc {
+			// 响应写失败时连接已关闭，会话已释放
+			return nil
+		}
 		if code == cmpp.ConnStatusOK {
 			sc.completeLogin(cli)
 			// 更新会话
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d654ba..d77125e 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -58,6 +58,10 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
+		if Session(c) != sc {
+			// 响应写失败时连接已关闭，会话已释放
+			return nil
+		}
 		if code == sgip.Status(0) {
 			sc.completeLogin(ac)
 			// 更新会话
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 33156fe..2a0d1f8 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -58,6 +58,10 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	resp := login.ToResponse(uint32(code))
 	pack := resp.Encode()
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
+		if Session(c) != sc {
+			// 响应写失败时连接已关闭，会话已释放
+			return nil
+		}
 		if code == smgp.Status(0) {
 			sc.completeLogin(cli)
 			// 更新会话
-- 
2.43.0


From 3ff453ac2196a5b955858bed3cb9e855028fc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 43/45] fix: cmpp login response with a status above one byte
 is not taken as success

---
 codec/cmpp/connect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1231bcd..65371aa 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -186,6 +186,10 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 		index += 3
 	}
 	r.status = ConnStatus(frame[index])
+	if index > 0 && binary.BigEndian.Uint32(frame) > 0xff {
+		// 3.x 的 Status 为 4 字节，超出单字节的值不可截断为登录成功
+		r.status = ConnStatusOthers
+	}
 	index += 1
 	r.authenticatorISMG = frame[index : index+16]
 	index += 16
-- 
2.43.0


From 232b330220c3b6fa594824c4bd8db868db43ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:14 +0000
Subject: [PATCH 44/45] fix: client closes the connection of a failed login

---
 msc_client/session/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 305495e..60a97d6 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -50,6 +50,7 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	err := sc.login()
 	if err != nil {
 		log.Error("create session error: " + err.Error())
+		_ = con.Close()
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-- 
2.43.0


From e42fb1254f550f7c143762d4ed71645364d3938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 45/45] fix: client window size is taken from mt-window-size

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..dfc7935 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -118,7 +118,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0

