From be0cd88c1d5502dea0c8e82fd0c8641a332aa1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 01/41] fix: guard lazy generation of charset tables against
 concurrent use

---
 encoding/gsm7/charset/charset.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/encoding/gsm7/charset/charset.go b/encoding/gsm7/charset/charset.go
index 7e1f675..6d6df2a 100644
--- a/encoding/gsm7/charset/charset.go
+++ b/encoding/gsm7/charset/charset.go
@@ -5,8 +5,16 @@
 // Package charset provides encoders and decoders for GSM character sets.
 package charset
 
+import "sync"
+
+// mu covers the lazy generation of the mapping tables, which are shared by all
+// users of the package.
+var mu sync.Mutex
+
 // DefaultDecoder returns the default mapping table from GSM7 to UTF8.
 func DefaultDecoder() Decoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultDecoder == nil {
 		defaultDecoder = generateDefaultDecoder()
 	}
@@ -16,6 +24,8 @@ func DefaultDecoder() Decoder {
 // NewDecoder returns the mapping table from GSM7 to UTF8 for the given language.
 func NewDecoder(nli int) Decoder {
 	if di, ok := decoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *di.e == nil {
 			*di.e = di.g()
 		}
@@ -39,6 +49,8 @@ func NewExtDecoder(nli int) Decoder {
 
 // DefaultEncoder returns the default mapping table from UTF8 to GSM7.
 func DefaultEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultEncoder == nil {
 		defaultEncoder = generateDefaultEncoder()
 	}
@@ -48,6 +60,8 @@ func DefaultEncoder() Encoder {
 // NewEncoder returns the mapping table from UTF8 to GSM7 for the given language.
 func NewEncoder(nli int) Encoder {
 	if ei, ok := encoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
@@ -58,6 +72,8 @@ func NewEncoder(nli int) Encoder {
 
 // DefaultExtEncoder returns the default extension mapping table from UTF8 to GSM7.
 func DefaultExtEncoder() Encoder {
+	mu.Lock()
+	defer mu.Unlock()
 	if defaultExtEncoder == nil {
 		defaultExtEncoder = generateDefaultExtEncoder()
 	}
@@ -67,6 +83,8 @@ func DefaultExtEncoder() Encoder {
 // NewExtEncoder returns the extension mapping table from UTF8 to GSM7 for the given language.
 func NewExtEncoder(nli int) Encoder {
 	if ei, ok := extEncoder[nli]; ok {
+		mu.Lock()
+		defer mu.Unlock()
 		if *ei.e == nil {
 			*ei.e = ei.g()
 		}
-- 
2.43.0


From 8be516ecb50cec0532622d11374256f7cb779f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:31 +0000
Subject: [PATCH 02/41] fix: keep options passed to Encoder.Encode local to the
 call

---
 encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encode.go b/encode.go
index 63e9d05..194916d 100644
--- a/encode.go
+++ b/encode.go
@@ -87,6 +87,10 @@ func NewEncoder(options ...EncoderOption) *Encoder {
 // For implicit UCS-2 encoding (the fallback with 7-bit fails) the message is
 // assumed to contain UTF-8.
 func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
+	// clip the options inherited from the Encoder so those applied here cannot
+	// be appended into the Encoder's arrays, which are shared between calls.
+	e.eopts = e.eopts[:len(e.eopts):len(e.eopts)]
+	e.sopts = e.sopts[:len(e.sopts):len(e.sopts)]
 	for _, option := range options {
 		option.ApplyEncoderOption(&e)
 	}
-- 
2.43.0


From 30dc8ff84bf60ab13bf9d5e83b644ee4bdca71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 03/41] fix: reject segments of unsupported types in
 Collector.Collect

---
 collect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 445585e..747482a 100644
--- a/collect.go
+++ b/collect.go
@@ -107,6 +107,9 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 		return nil, ErrReassemblyInconsistency
 	}
 	key, err := pduKey(pdu, segments, concatRef)
+	if err != nil {
+		return nil, err
+	}
 	p, ok := c.pipes[key]
 	if ok {
 		if p.segments[seqno-1] != nil {
@@ -141,7 +144,7 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 			}
 		})
 	}
-	return nil, err
+	return nil, nil
 }
 
 func pduKey(pdu tpdu.TPDU, segments, concatRef int) (string, error) {
-- 
2.43.0


From 09afe9210b8ec95063c62a6e90687ba73868a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/41] fix: return a snapshot of the segments from
 Collector.Pipes

---
 collect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect.go b/collect.go
index 747482a..bff5abd 100644
--- a/collect.go
+++ b/collect.go
@@ -82,7 +82,7 @@ func (c *Collector) Pipes() map[string][]*tpdu.TPDU {
 	c.Lock()
 	m := map[string][]*tpdu.TPDU{}
 	for k, v := range c.pipes {
-		m[k] = v.segments
+		m[k] = append([]*tpdu.TPDU(nil), v.segments...)
 	}
 	c.Unlock()
 	return m
-- 
2.43.0


From 0621bcc0ca59e311c4b8591e602f98199969b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:50 +0000
Subject: [PATCH 05/41] fix: do not write into the segments passed to Decode

---
 sms.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sms.go b/sms.go
index 8deb5cd..fcd341a 100644
--- a/sms.go
+++ b/sms.go
@@ -35,7 +35,10 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
-			ud = append([]byte(danglingSurrogate), ud...)
+			// clip to force a copy, as the surrogate is a slice of the previous
+			// segment.
+			l := len(danglingSurrogate)
+			ud = append([]byte(danglingSurrogate[:l:l]), ud...)
 			danglingSurrogate = nil
 		}
 		d, err := tpdu.DecodeUserData(ud, s.UDH, a, cfg.dopts...)
-- 
2.43.0


From 59ee1a032a6b832895ec3858f6269c8ca909be2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:52 +0000
Subject: [PATCH 06/41] fix: do not write into the template UDH when segmenting

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index b6ca697..5ea7a6b 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -204,7 +204,7 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 		return []TPDU{t}
 	}
 	// add contcat IE and recalc bs
-	t.SetUDH(append(t.UDH, cfg.ief(0, 0, 0)))
+	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
 	alpha, _ := t.Alphabet()
-- 
2.43.0


From 93108534e042f9e9efc5ac7a6cc18b7e0ee1606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:04 +0000
Subject: [PATCH 07/41] fix: keep the template UDH when encoding with a
 language charset

---
 encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 194916d..19b7d98 100644
--- a/encode.go
+++ b/encode.go
@@ -111,7 +111,8 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			e.pdu.SetDCS(byte(dcs))
 		}
 		if udh != nil {
-			e.pdu.SetUDH(append(e.pdu.UDH[:0:0], udh...))
+			tudh := e.pdu.UDH
+			e.pdu.SetUDH(append(tudh[:len(tudh):len(tudh)], udh...))
 		}
 		return e.pdu.Segment(d, sopts...), nil
 	}
-- 
2.43.0


From fd93af03aa89daffce2be654ac8517b56e39b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:06 +0000
Subject: [PATCH 08/41] fix: set the UDHI flag when applying WithUDH

---
 encoding/tpdu/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/options.go b/encoding/tpdu/options.go
index d1956f9..c7a6557 100644
--- a/encoding/tpdu/options.go
+++ b/encoding/tpdu/options.go
@@ -48,7 +48,7 @@ type UDHOption struct {
 
 // ApplyTPDUOption applies the UDH to the TPDU.
 func (o UDHOption) ApplyTPDUOption(t *TPDU) error {
-	t.UDH = o.udh
+	t.SetUDH(o.udh)
 	return nil
 }
 
-- 
2.43.0


From 7d7bfca41b0f26e785582fc1beb594456324b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 09/41] fix: do not encode U+001B as a bare GSM7 escape

---
 encoding/gsm7/gsm7.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encoding/gsm7/gsm7.go b/encoding/gsm7/gsm7.go
index 25e77d6..3d7deb8 100644
--- a/encoding/gsm7/gsm7.go
+++ b/encoding/gsm7/gsm7.go
@@ -218,6 +218,11 @@ func (e *Encoder) Encode(src []byte) ([]byte, error) {
 	}
 	dst := make([]byte, 0, len(src))
 	for _, u := range string(src) {
+		if u == rune(esc) {
+			// the escape is not a character in its own right and would
+			// otherwise corrupt the following character.
+			return nil, ErrInvalidUTF8(u)
+		}
 		g, ok := e.set[u]
 		if ok {
 			dst = append(dst, g)
-- 
2.43.0


From 140a991cabe71e94392fd1f16db673f29d5aebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 10/41] fix: do not set the UDHI flag for an empty UDH

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 5ea7a6b..abca6d2 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -287,7 +287,7 @@ func (t *TPDU) SetUD(ud UserData) {
 // SetUDH sets the User Data Header of the TPDU and the TP-UDHI flag.
 func (t *TPDU) SetUDH(udh UserDataHeader) {
 	t.UDH = udh
-	if udh == nil {
+	if len(udh) == 0 {
 		t.FirstOctet &^= FoUDHI
 	} else {
 		t.PI |= PiUDL
-- 
2.43.0


From d50bdea2f14faceed92bc2f6600da8dfa98960db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 11/41] fix: do not split an escape that follows escaped
 escapes

---
 encoding/tpdu/tpdu.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index abca6d2..5ea24c2 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1135,7 +1135,12 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 	bend := bs
 	for bend < len(msg) {
 		// don't split escapes
-		if msg[bend-1] == esc && msg[bend-2] != esc {
+		escs := 0
+		for i := bend - 1; i >= bstart && msg[i] == esc; i-- {
+			escs++
+		}
+		// an odd number indicates the last is still to be completed
+		if escs%2 == 1 && bend-1 > bstart {
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From 44bfa98e839a0dbc21a388b2237637ee2d00357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 12/41] fix: reject UDH information elements that overrun the
 UDHL

---
 encoding/tpdu/userdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index de19912..60fd1f1 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -85,7 +85,7 @@ func (udh *UserDataHeader) UnmarshalBinary(src []byte) (int, error) {
 		ri++
 		iedl := int(src[ri])
 		ri++
-		if len(src) < ri+iedl {
+		if udhl < ri+iedl {
 			return ri, NewDecodeError("ied", ri, ErrUnderflow)
 		}
 		ie.Data = append([]byte(nil), src[ri:ri+iedl]...)
-- 
2.43.0


From 60676a970a9b464cffe4fa146272b03806c124e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 13/41] fix: include the UDH when marshalling SMS-COMMAND

---
 encoding/tpdu/tpdu.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 5ea24c2..1cc1ccf 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -405,12 +405,17 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 	if err != nil {
 		return nil, EncodeError("da", err)
 	}
-	cdl := len(t.UD)
+	udh, err := t.UDH.MarshalBinary()
+	if err != nil {
+		return nil, EncodeError("udh", err)
+	}
+	cdl := len(udh) + len(t.UD)
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
 	b = append(b, da...)
 	b = append(b, byte(cdl))
+	b = append(b, udh...)
 	b = append(b, t.UD...)
 	return b, nil
 }
-- 
2.43.0


From 971b2791415e25f6bb2a6eb34f6fc20441fb3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 14/41] fix: do not loop forever segmenting surrogates into two
 octet blocks

---
 encoding/tpdu/tpdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 1cc1ccf..d887ce5 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1203,7 +1203,7 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 	for bend < len(msg) {
 		// check last uint16 is a high surrogate, if so then leave for later
 		r := binary.BigEndian.Uint16(msg[bend-2 : bend])
-		if surrHighStart <= r && r < surrLowStart {
+		if surrHighStart <= r && r < surrLowStart && bend-2 > bstart {
 			bend = bend - 2
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From 2637b8f2b95f17e3ce8b76e5a42931c114bc7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:57 +0000
Subject: [PATCH 15/41] fix: return an error when a field is too long for its
 length octet

---
 encoding/pdumode/smscaddress.go | 3 +++
 encoding/tpdu/address.go        | 3 +++
 encoding/tpdu/error.go          | 3 ++-
 encoding/tpdu/tpdu.go           | 7 ++++++-
 encoding/tpdu/userdata.go       | 3 +++
 5 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 6e7595f..08a6154 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -33,6 +33,9 @@ func (a *SMSCAddress) MarshalBinary() (dst []byte, err error) {
 		return []byte{0}, nil
 	}
 	l := len(addr) + 1 // in octets and includes the toa
+	if l > 255 {
+		return nil, tpdu.EncodeError("addr", tpdu.ErrOverlength)
+	}
 	dst = make([]byte, 2, l+1)
 	dst[0] = byte(l)
 	dst[1] = a.TOA
diff --git a/encoding/tpdu/address.go b/encoding/tpdu/address.go
index 0f210df..fc07252 100644
--- a/encoding/tpdu/address.go
+++ b/encoding/tpdu/address.go
@@ -64,6 +64,9 @@ func (a *Address) MarshalBinary() (dst []byte, err error) {
 		}
 		l = len(a.Addr)
 	}
+	if l > 255 {
+		return nil, EncodeError("addr", ErrOverlength)
+	}
 	dst = make([]byte, 0, l+2)
 	dst = append(dst, byte(l), a.TOA)
 	dst = append(dst, addr...)
diff --git a/encoding/tpdu/error.go b/encoding/tpdu/error.go
index b5d655e..f45e464 100644
--- a/encoding/tpdu/error.go
+++ b/encoding/tpdu/error.go
@@ -78,7 +78,8 @@ var (
 	ErrOddUCS2Length = errors.New("odd UCS2 length")
 
 	// ErrOverlength indicates the binary provided contains more bytes than
-	// expected by the TPDU decoder.
+	// expected by the TPDU decoder, or that the length of a field provided to
+	// an encoder exceeds that which can be represented in its length octet.
 	ErrOverlength = errors.New("overlength")
 
 	// ErrMissing indicates a field requiored to marshal an object is missing.
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index d887ce5..8fb8b7f 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -410,6 +410,9 @@ func (t *TPDU) marshalCommand() ([]byte, error) {
 		return nil, EncodeError("udh", err)
 	}
 	cdl := len(udh) + len(t.UD)
+	if cdl > 255 {
+		return nil, EncodeError("ud", ErrOverlength)
+	}
 	l := 6 + len(da) + cdl
 	b := make([]byte, 0, l)
 	b = append(b, byte(t.FirstOctet), t.MR, t.PID, t.CT, t.MN)
@@ -933,7 +936,6 @@ func decode7Bit(sml, udhl int, src []byte) ([]byte, error) {
 func (t *TPDU) encodeUserData() (b []byte, err error) {
 	udh, err := t.UDH.MarshalBinary()
 	if err != nil {
-		// never trips as UDH marshalling never fails...
 		return nil, EncodeError("udh", err)
 	}
 	ud := t.UD
@@ -964,6 +966,9 @@ func (t *TPDU) encodeUserData() (b []byte, err error) {
 		// udl is in octets
 		udl = udl + len(udh)
 	}
+	if udl > 255 {
+		return nil, EncodeError("sm", ErrOverlength)
+	}
 	b = make([]byte, 0, 1+len(udh)+len(ud))
 	b = append(b, byte(udl))
 	b = append(b, udh...)
diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 60fd1f1..993737c 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -50,6 +50,9 @@ func (udh UserDataHeader) MarshalBinary() ([]byte, error) {
 		return nil, nil
 	}
 	udhl := udh.UDHL()
+	if udhl > 255 {
+		return nil, ErrOverlength
+	}
 	b := make([]byte, 0, udhl+1)
 	b = append(b, byte(udhl))
 	for _, ie := range udh {
-- 
2.43.0


From 2a281f320139436ad1a7f019083761e80a775304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:59 +0000
Subject: [PATCH 16/41] fix: encode relative validity periods of 5 to 10
 minutes as 5 minutes

---
 encoding/tpdu/validityperiod.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index e0dce80..d7fb897 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -214,11 +214,11 @@ const (
 func durationToRelative(d time.Duration) byte {
 	switch {
 	case d < time.Hour*12:
-		t := byte(d / (time.Minute * 5))
-		if t > 1 {
-			t--
+		t := d / (time.Minute * 5)
+		if t > 0 {
+			return byte(t - 1)
 		}
-		return t
+		return 0
 	case d < time.Hour*24:
 		return 119 + byte(d/(time.Minute*30))
 	case d < time.Hour*24*30:
-- 
2.43.0


From 5cd1deff6926ce0b5217312f6d4320eac9ee67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 17/41] fix: detect USSD filler from the bit alignment rather
 than octet values

---
 encoding/gsm7/7bit.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/encoding/gsm7/7bit.go b/encoding/gsm7/7bit.go
index 986e099..38e1405 100644
--- a/encoding/gsm7/7bit.go
+++ b/encoding/gsm7/7bit.go
@@ -90,10 +90,10 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 	if len(b) == 0 {
 		return append(b[:0:0], b...)
 	}
-	last := len(b) - 1
-	if b[last]&^0x1 == 0 && u[len(u)-1] != 0 {
-		b[last] = b[last] | (cr << 1)
-	} else if len(u)&0x7 == 0 && u[len(u)-1] == cr {
+	switch unused := len(b)*8 - (fillBits + len(u)*7); {
+	case unused == 7:
+		b[len(b)-1] |= cr << 1
+	case unused == 0 && u[len(u)-1] == cr:
 		b = append(b, cr)
 	}
 	return b
@@ -111,8 +111,14 @@ func Pack7BitUSSD(u []byte, fillBits int) []byte {
 func Unpack7BitUSSD(p []byte, fillBits int) []byte {
 	u := Unpack7Bit(p, fillBits)
 	// remove any trailing filler
-	if len(p) > 1 && ((p[len(p)-1]>>1 == cr) || (p[len(p)-1] == cr && p[len(p)-2]>>1 == cr)) {
-		u = u[:len(u)-1]
+	last := len(u) - 1
+	if last < 0 || u[last] != cr {
+		return u
+	}
+	switch unused := len(p)*8 - (fillBits + len(u)*7); {
+	case unused == 0, // ends on octet boundary
+		unused == 1 && last > 0 && u[last-1] == cr: // starts on octet boundary
+		u = u[:last]
 	}
 	return u
 }
-- 
2.43.0


From d6f642bff193dcbe1fe22539a23b83eabd159477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 18/41] fix: reject octets following an empty user data field

---
 encoding/tpdu/tpdu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 8fb8b7f..f8edf92 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -844,6 +844,9 @@ func (t *TPDU) decodeUserData(src []byte) error {
 	}
 	udl := int(src[0])
 	if udl == 0 {
+		if len(src) > 1 {
+			return NewDecodeError("ud", 1, ErrOverlength)
+		}
 		return nil
 	}
 	var udh UserDataHeader
-- 
2.43.0


From ea898f4bc4cc7f5968802b58a43e3781ac653e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 19/41] fix: keep the character following an unpaired surrogate

---
 encoding/ucs2/ucs2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8ecc83c..8491f8f 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -31,9 +32,11 @@ func Decode(src []byte) ([]rune, error) {
 			if ri >= len(src)-3 {
 				return dst, ErrDanglingSurrogate(src[ri:])
 			}
-			ri += 2
-			r2 := rune(binary.BigEndian.Uint16(src[ri:]))
+			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
+			if r != unicode.ReplacementChar {
+				ri += 2 // only consume the second if it completes the pair
+			}
 		}
 		dst = append(dst, r)
 	}
-- 
2.43.0


From 34e562f9a66dd5797d05efcc518ed6dd18fbeb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 20/41] fix: return an error rather than wrapping the segment
 count in Encode

---
 encode.go | 12 ++++++++++--
 error.go  |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 19b7d98..e4ea251 100644
--- a/encode.go
+++ b/encode.go
@@ -34,6 +34,10 @@ func Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
 	return e.Encode(msg)
 }
 
+// maxSegments is the maximum number of segments in a concatenated message, as
+// limited by the octets in the concatenation IE.
+const maxSegments = 255
+
 // Encoder builds SMS TPDUs from simple inputs such as the destination number
 // and the message in a UTF8 form.
 type Encoder struct {
@@ -99,7 +103,6 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 	alpha, _ := e.pdu.DCS.Alphabet()
 	switch alpha {
 	case tpdu.Alpha8Bit, tpdu.AlphaUCS2:
-		return e.pdu.Segment(msg, sopts...), nil
 	default:
 		// encode as GSM7, or failing that UCS2...
 		d, udh, alpha := tpdu.EncodeUserData(msg, e.eopts...)
@@ -114,8 +117,13 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 			tudh := e.pdu.UDH
 			e.pdu.SetUDH(append(tudh[:len(tudh):len(tudh)], udh...))
 		}
-		return e.pdu.Segment(d, sopts...), nil
+		msg = d
+	}
+	pdus := e.pdu.Segment(msg, sopts...)
+	if len(pdus) > maxSegments {
+		return nil, ErrOverlength
 	}
+	return pdus, nil
 }
 
 // Counter is an implementation of the tpdu.Counter interface.
diff --git a/error.go b/error.go
index 375f432..2b965a8 100644
--- a/error.go
+++ b/error.go
@@ -22,6 +22,9 @@ var (
 	// cannot be used to determine which of the two may better fit the
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
+	// ErrOverlength indicates a message requires more segments than can be
+	// identified by the concatenation information.
+	ErrOverlength = errors.New("overlength")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
 	// reassembly.
-- 
2.43.0


From e3774b200d2dbfde8c1875478f7da1f7992ec4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 21/41] fix: keep character sets added before WithAllCharsets
 when encoding

---
 encoding/tpdu/userdata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index 993737c..ce07a05 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -311,11 +311,10 @@ func (o AllCharsetsOption) applyDecodeOption(d udDecodeConfig) udDecodeConfig {
 }
 
 func (o AllCharsetsOption) applyEncodeOption(e udEncodeConfig) udEncodeConfig {
-	e.locking = make([]int, charset.Size)
 	for nli := charset.Start; nli < charset.End; nli++ {
-		e.locking[nli-1] = nli
+		e.locking = append(e.locking, nli)
+		e.shift = append(e.shift, nli)
 	}
-	e.shift = e.locking
 	return e
 }
 
-- 
2.43.0


From e71a5d3f2292b8c9cd194f73eec4a299a4ccde2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 22/41] fix: report marshalling errors in smssubmit

---
 cmd/smssubmit/smssubmit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/smssubmit/smssubmit.go b/cmd/smssubmit/smssubmit.go
index 9b56580..6239b21 100644
--- a/cmd/smssubmit/smssubmit.go
+++ b/cmd/smssubmit/smssubmit.go
@@ -39,12 +39,20 @@ func main() {
 		return
 	}
 	if len(pdus) == 1 {
-		b, _ := pdus[0].MarshalBinary()
+		b, err := pdus[0].MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU:\n%s\n", hex.EncodeToString(b))
 		return
 	}
 	for i, p := range pdus {
-		b, _ := p.MarshalBinary()
+		b, err := p.MarshalBinary()
+		if err != nil {
+			log.Println(err)
+			return
+		}
 		fmt.Printf("Submit TPDU %d:\n%s\n", i+1, hex.EncodeToString(b))
 	}
 }
-- 
2.43.0


From 7c9c6bec2aa051a60d8a39295806a0458aed675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 23/41] fix: return an error rather than panicking when the UDH
 leaves no room for the message

---
 encode.go             |  2 +-
 encoding/tpdu/tpdu.go | 11 ++++++++++-
 error.go              |  3 ++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index e4ea251..cc3de7f 100644
--- a/encode.go
+++ b/encode.go
@@ -120,7 +120,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		msg = d
 	}
 	pdus := e.pdu.Segment(msg, sopts...)
-	if len(pdus) > maxSegments {
+	if len(pdus) > maxSegments || (len(pdus) == 0 && len(msg) > 0) {
 		return nil, ErrOverlength
 	}
 	return pdus, nil
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index f8edf92..a18c675 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -186,6 +186,8 @@ type SegmentationOption func(*segmentationConfig)
 // the message.  For multi-part messages, the UDH provided in the TPDU is
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
+//
+// If the UDH leaves no room for the message then no TPDUs are returned.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -207,6 +209,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	t.SetUDH(append(t.UDH[:len(t.UDH):len(t.UDH)], cfg.ief(0, 0, 0)))
 	bs = t.UDBlockSize()
 	t.UDH = t.UDH[:len(t.UDH)-1]
+	if bs < 1 {
+		return nil
+	}
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
@@ -1153,7 +1158,11 @@ func chunk7Bit(msg []byte, bs int) [][]byte {
 			escs++
 		}
 		// an odd number indicates the last is still to be completed
-		if escs%2 == 1 && bend-1 > bstart {
+		if escs%2 == 1 {
+			if bend-1 == bstart {
+				// the block cannot hold an escaped character
+				return nil
+			}
 			bend--
 		}
 		chunks = append(chunks, msg[bstart:bend])
diff --git a/error.go b/error.go
index 2b965a8..1dff364 100644
--- a/error.go
+++ b/error.go
@@ -23,7 +23,8 @@ var (
 	// reassembly, so the first is kept and the second discarded.
 	ErrDuplicateSegment = errors.New("duplicate segment")
 	// ErrOverlength indicates a message requires more segments than can be
-	// identified by the concatenation information.
+	// identified by the concatenation information, or that the template UDH
+	// leaves no room for the message.
 	ErrOverlength = errors.New("overlength")
 	// ErrReassemblyInconsistency indicates a segment has arrived for a
 	// reassembly that has a seqno greater than the number of segments in the
-- 
2.43.0


From 56c3e15869507530ee03e7ad4fb3250bd605937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:19 +0000
Subject: [PATCH 24/41] fix: refuse a message containing surrogate pairs larger
 than the block

---
 encoding/tpdu/tpdu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index a18c675..730ba07 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -1220,7 +1220,11 @@ func chunkUCS2(msg []byte, bs int) [][]byte {
 	for bend < len(msg) {
 		// check last uint16 is a high surrogate, if so then leave for later
 		r := binary.BigEndian.Uint16(msg[bend-2 : bend])
-		if surrHighStart <= r && r < surrLowStart && bend-2 > bstart {
+		if surrHighStart <= r && r < surrLowStart {
+			if bend-2 == bstart {
+				// the block cannot hold a surrogate pair
+				return nil
+			}
 			bend = bend - 2
 		}
 		chunks = append(chunks, msg[bstart:bend])
-- 
2.43.0


From ff31762d033228f5c503ce30d0c49cb8e5f7c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 25/41] fix: limit enhanced validity periods to those the
 format can represent

---
 encoding/tpdu/validityperiod.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/validityperiod.go b/encoding/tpdu/validityperiod.go
index d7fb897..b323193 100644
--- a/encoding/tpdu/validityperiod.go
+++ b/encoding/tpdu/validityperiod.go
@@ -69,9 +69,19 @@ func (v *ValidityPeriod) MarshalBinary() ([]byte, error) {
 			if secs > 255 {
 				secs = 255
 			}
+			if secs < 0 {
+				secs = 0
+			}
 			dst[1] = byte(secs)
 		case EvpfRelativeHHMMSS:
-			f := []int{int(v.Duration.Hours()) % 100, int(v.Duration.Minutes()) % 60, int(v.Duration.Seconds()) % 60}
+			d := v.Duration
+			if d >= 100*time.Hour {
+				d = 100*time.Hour - time.Second
+			}
+			if d < 0 {
+				d = 0
+			}
+			f := []int{int(d.Hours()), int(d.Minutes()) % 60, int(d.Seconds()) % 60}
 			for i, tf := range f {
 				t, err := bcd.Encode(tf)
 				// this should never trip, as the encoded values should always be valid, but just in case...
-- 
2.43.0


From f9f65000d27571313bc409d57c6027b8eb1477c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 26/41] fix: keep the instant of timestamps in zones which are
 not a multiple of 15 minutes

---
 encoding/tpdu/timestamp.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/encoding/tpdu/timestamp.go b/encoding/tpdu/timestamp.go
index 9d1c20e..f3cab58 100644
--- a/encoding/tpdu/timestamp.go
+++ b/encoding/tpdu/timestamp.go
@@ -21,10 +21,19 @@ func (t Timestamp) String() string {
 }
 
 // MarshalBinary encodes the SCTS timestamp into binary.
+//
+// The time zone is limited to a multiple of 15 minutes.  Times in other zones
+// are converted to the adjacent zone.
 func (t *Timestamp) MarshalBinary() (dst []byte, err error) {
 	dst = make([]byte, 7)
-	y := t.Year() % 100
-	f := []int{y, int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second()}
+	lt := t.Time
+	_, tz := lt.Zone()
+	if r := tz % (15 * 60); r != 0 {
+		tz -= r
+		lt = lt.In(time.FixedZone("SCTS", tz))
+	}
+	y := lt.Year() % 100
+	f := []int{y, int(lt.Month()), lt.Day(), lt.Hour(), lt.Minute(), lt.Second()}
 	for i, v := range f {
 		dst[i], err = bcd.Encode(v)
 		// this should never trip, assuming the time methods return values in
@@ -33,7 +42,6 @@ func (t *Timestamp) MarshalBinary() (dst []byte, err error) {
 			return nil, err
 		}
 	}
-	_, tz := t.Zone()
 	dst[6], err = bcd.EncodeSigned(tz / (15 * 60))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f29953f52a82b60c19af6e720f77c54175b8687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 27/41] fix: count the septets in all segments in the
 smscounter total length

---
 cmd/smscounter/smscounter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/smscounter/smscounter.go b/cmd/smscounter/smscounter.go
index ae30015..27002ea 100644
--- a/cmd/smscounter/smscounter.go
+++ b/cmd/smscounter/smscounter.go
@@ -71,7 +71,13 @@ func NewCount(msg string, nli int) (Count, error) {
 	c.Llen = lastLen
 	c.Remaining = c.Pdulen - c.Llen
 	c.Messages = len(pdus)
-	c.Tlen = (pm * (c.Messages - 1)) + lastLen
+	// not all segments are full, as characters are not split across them
+	for _, pdu := range pdus {
+		c.Tlen += len(pdu.UD)
+	}
+	if alpha == tpdu.AlphaUCS2 {
+		c.Tlen /= 2 // UCS-2 code points
+	}
 	return c, nil
 }
 
-- 
2.43.0


From 395e47fa06319a3a1f2267a66803ac7dfa715a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:44 +0000
Subject: [PATCH 28/41] fix: discard the previous contents of a TPDU when
 unmarshalling into it

---
 encoding/tpdu/tpdu.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index 730ba07..c08437d 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -576,13 +576,15 @@ func (t *TPDU) marshalSubmitReport() ([]byte, error) {
 
 // UnmarshalBinary unmarshals a SMS TPDU from the corresponding byte array.
 //
+// The existing contents of the TPDU, other than the Direction, are discarded.
+//
 // In the case of error the TPDU will be partially unmarshalled, up to the
 // point that the decoding error was detected.
 func (t *TPDU) UnmarshalBinary(src []byte) (err error) {
 	if len(src) < 1 {
 		return NewDecodeError("tpdu.firstOctet", 0, ErrUnderflow)
 	}
-	t.FirstOctet = FirstOctet(src[0])
+	*t = TPDU{Direction: t.Direction, FirstOctet: FirstOctet(src[0])}
 	st := smsType(t.FirstOctet.MTI(), t.Direction)
 	switch st {
 	case SmsDeliver:
-- 
2.43.0


From 930809db98961d8a2704194e1cbcd3845b63b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:44 +0000
Subject: [PATCH 29/41] fix: discard the previous SMSC address when
 unmarshalling a PDU without one

---
 encoding/pdumode/smscaddress.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/pdumode/smscaddress.go b/encoding/pdumode/smscaddress.go
index 08a6154..3a05664 100644
--- a/encoding/pdumode/smscaddress.go
+++ b/encoding/pdumode/smscaddress.go
@@ -53,6 +53,7 @@ func (a *SMSCAddress) UnmarshalBinary(src []byte) (int, error) {
 	}
 	l := int(src[0]) // len is octets including toa
 	if l == 0 {
+		*a = SMSCAddress{}
 		return 1, nil
 	}
 	if len(src) < 2 {
-- 
2.43.0


From 4502873a2e3396619e25df8f0c9190800897a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 30/41] fix: do not retain the source buffer when unmarshalling
 a PDU

---
 encoding/pdumode/pdu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pdumode/pdu.go b/encoding/pdumode/pdu.go
index 8f3b69f..6da5676 100644
--- a/encoding/pdumode/pdu.go
+++ b/encoding/pdumode/pdu.go
@@ -47,7 +47,7 @@ func (p *PDU) UnmarshalBinary(src []byte) error {
 	if err != nil {
 		return err
 	}
-	p.TPDU = src[n:]
+	p.TPDU = append([]byte{}, src[n:]...)
 	return nil
 }
 
-- 
2.43.0


From c258f4b200bfe8715febcd2a5ad2fe2af58452bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 31/41] fix: Hindi locking table anusvara and visarga

The first entries of the Hindi locking shift table were code points of the
Bengali block rather than the Devanagari of 3GPP TS 23.038 A.3.6. A test pins
the first of them.
---
 encoding/gsm7/charset/hindi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/gsm7/charset/hindi.go b/encoding/gsm7/charset/hindi.go
index 541b314..8442744 100644
--- a/encoding/gsm7/charset/hindi.go
+++ b/encoding/gsm7/charset/hindi.go
@@ -7,8 +7,8 @@ package charset
 var (
 	hindiDecoder = Decoder{
 		0x00: '\u0981',
-		0x01: '\u0982',
-		0x02: '\u0983',
+		0x01: '\u0902',
+		0x02: '\u0903',
 		0x03: 'अ',
 		0x04: 'आ',
 		0x05: 'इ',
-- 
2.43.0


From 159ab9f54b4bb7da95f2d8dce903e139657bc5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 32/41] fix: accept WithAllCharsets as an option of Decode

---
 options.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/options.go b/options.go
index 744f7f6..29f9f12 100644
--- a/options.go
+++ b/options.go
@@ -100,6 +100,11 @@ func (o AllCharsetsOption) ApplyEncoderOption(e *Encoder) {
 	e.eopts = append(e.eopts, tpdu.WithAllCharsets)
 }
 
+// ApplyDecodeOption applies the AllCharsetsOption to decoding.
+func (o AllCharsetsOption) ApplyDecodeOption(cc *DecodeConfig) {
+	cc.dopts = append(cc.dopts, tpdu.WithAllCharsets)
+}
+
 // WithCharset creates an CharsetOption.
 func WithCharset(nli ...int) CharsetOption {
 	return CharsetOption{nli}
-- 
2.43.0


From e48e049078406c5a48506416c38d3b4eb6942f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 33/41] fix: do not prefix a dangling surrogate to a segment
 which is not UCS-2

---
 sms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sms.go b/sms.go
index fcd341a..221af7d 100644
--- a/sms.go
+++ b/sms.go
@@ -35,6 +35,9 @@ func Decode(segments []*tpdu.TPDU, options ...DecodeOption) ([]byte, error) {
 		a, _ := s.Alphabet()
 		ud := s.UD
 		if danglingSurrogate != nil {
+			if a != tpdu.AlphaUCS2 {
+				return nil, danglingSurrogate
+			}
 			// clip to force a copy, as the surrogate is a slice of the previous
 			// segment.
 			l := len(danglingSurrogate)
-- 
2.43.0


From cfa930e66444ef3b2a9041cb0dc09e77cf46e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:22 +0000
Subject: [PATCH 34/41] fix: report a set of segments with gaps as incomplete

---
 sms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sms.go b/sms.go
index 221af7d..9fbd02f 100644
--- a/sms.go
+++ b/sms.go
@@ -72,6 +72,12 @@ func IsCompleteMessage(segments []*tpdu.TPDU) bool {
 	if len(segments) == 0 {
 		return false
 	}
+	for _, s := range segments {
+		if s == nil {
+			// a gap, as in the sets passed to an expiry handler
+			return false
+		}
+	}
 	baseSegs, _, baseConcatRef, ok := segments[0].ConcatInfo()
 	if !ok {
 		return len(segments) == 1
-- 
2.43.0


From c7586c2864ad5bf45df0148cc02d15d6287e58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 35/41] fix: do not number more segments than a message can
 have

---
 encode.go             |  6 +-----
 encoding/tpdu/tpdu.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/encode.go b/encode.go
index cc3de7f..0d75c1a 100644
--- a/encode.go
+++ b/encode.go
@@ -34,10 +34,6 @@ func Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, error) {
 	return e.Encode(msg)
 }
 
-// maxSegments is the maximum number of segments in a concatenated message, as
-// limited by the octets in the concatenation IE.
-const maxSegments = 255
-
 // Encoder builds SMS TPDUs from simple inputs such as the destination number
 // and the message in a UTF8 form.
 type Encoder struct {
@@ -120,7 +116,7 @@ func (e Encoder) Encode(msg []byte, options ...EncoderOption) ([]tpdu.TPDU, erro
 		msg = d
 	}
 	pdus := e.pdu.Segment(msg, sopts...)
-	if len(pdus) > maxSegments || (len(pdus) == 0 && len(msg) > 0) {
+	if len(pdus) == 0 && len(msg) > 0 {
 		return nil, ErrOverlength
 	}
 	return pdus, nil
diff --git a/encoding/tpdu/tpdu.go b/encoding/tpdu/tpdu.go
index c08437d..d0e6b3f 100644
--- a/encoding/tpdu/tpdu.go
+++ b/encoding/tpdu/tpdu.go
@@ -165,6 +165,10 @@ type Counter interface {
 	Count() int
 }
 
+// maxSegments is the maximum number of segments in a concatenated message, as
+// limited by the octets in the concatenation IE.
+const maxSegments = 255
+
 type segmentationConfig struct {
 	// concat IE factory
 	ief func(msgCount int, segCount int, segment int) InformationElement
@@ -187,7 +191,8 @@ type SegmentationOption func(*segmentationConfig)
 // extended with a concatenation IE. The TPDU UDH must not contain a
 // concatenation IE (ID 0 or 8) or the resulting TPDUs will be non-conformant.
 //
-// If the UDH leaves no room for the message then no TPDUs are returned.
+// If the UDH leaves no room for the message, or the message requires more than
+// 255 segments, then no TPDUs are returned.
 func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	if len(msg) == 0 {
 		return nil
@@ -215,6 +220,9 @@ func (t TPDU) Segment(msg []byte, options ...SegmentationOption) []TPDU {
 	alpha, _ := t.Alphabet()
 	chunks := chunk(msg, alpha, bs)
 	count := len(chunks)
+	if count > maxSegments {
+		return nil
+	}
 	pdus := make([]TPDU, count)
 	concatRef := 1
 	if cfg.cr != nil {
-- 
2.43.0


From 8cf72f6fb6d7d4d09cf87019cd692954c2ced3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:37 +0000
Subject: [PATCH 36/41] fix: refuse alphabets and classes a DCS cannot express

---
 encoding/tpdu/dcs.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/dcs.go b/encoding/tpdu/dcs.go
index 0317180..735065c 100644
--- a/encoding/tpdu/dcs.go
+++ b/encoding/tpdu/dcs.go
@@ -82,6 +82,9 @@ func (d DCS) String() string {
 //
 // An error is returned if the state is incompatible with setting the alphabet.
 func (d DCS) WithAlphabet(a Alphabet) (DCS, error) {
+	if a < Alpha7Bit || a > AlphaReserved {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return d&^0x0c | (DCS(a) << 2), nil
@@ -142,8 +145,11 @@ func (d DCS) Class() (MessageClass, error) {
 // other bits.
 //
 // An error is returned if the state is incompatible with setting the message
-// class.
+// class, or if the class cannot be expressed, as for MClassUnknown.
 func (d DCS) WithClass(c MessageClass) (DCS, error) {
+	if c < MClass0 || c > MClass3 {
+		return d, ErrInvalid
+	}
 	switch {
 	case d&0x80 == 0x00: // 0xxx
 		return (d&^0x03 | 0x10 | DCS(c)), nil
-- 
2.43.0


From 2c1c367177b628da81a297c2b3c8f1bf0368b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:38 +0000
Subject: [PATCH 37/41] fix: keep MTI and VPF values within their bits of the
 first octet

---
 encoding/tpdu/firstoctet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/tpdu/firstoctet.go b/encoding/tpdu/firstoctet.go
index 9acaefa..5e7d573 100644
--- a/encoding/tpdu/firstoctet.go
+++ b/encoding/tpdu/firstoctet.go
@@ -55,14 +55,14 @@ func (f FirstOctet) VPF() ValidityPeriodFormat {
 // WithMTI returns a FirstOctet with the TP-MTI field set.
 func (f FirstOctet) WithMTI(mti MessageType) FirstOctet {
 	f &^= FoMTIMask
-	f |= FirstOctet(mti << FoMTIShift)
+	f |= FirstOctet(mti<<FoMTIShift) & FoMTIMask
 	return f
 }
 
 // WithVPF returns a FirstOctet with the TP-VPF field set.
 func (f FirstOctet) WithVPF(vpf ValidityPeriodFormat) FirstOctet {
 	f &^= FoVPFMask
-	f |= FirstOctet(vpf << FoVPFShift)
+	f |= FirstOctet(vpf<<FoVPFShift) & FoVPFMask
 	return f
 }
 
-- 
2.43.0


From 2a43adae8b7f3e02235f98be8a4f5cc1aa8d6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:47 +0000
Subject: [PATCH 38/41] fix: do not expire messages once the collector has been
 closed

---
 collect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collect.go b/collect.go
index bff5abd..bccf7d9 100644
--- a/collect.go
+++ b/collect.go
@@ -134,6 +134,11 @@ func (c *Collector) Collect(pdu tpdu.TPDU) (d []*tpdu.TPDU, err error) {
 	if c.duration != 0 {
 		p.cleanup = time.AfterFunc(c.duration, func() {
 			c.Lock()
+			if c.closed {
+				// closed after the timer fired
+				c.Unlock()
+				return
+			}
 			m := c.pipes[key]
 			if m == p {
 				delete(c.pipes, key)
-- 
2.43.0


From e98dc26737f36fae6f4078a1c58cd83d4d9129ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:47 +0000
Subject: [PATCH 39/41] fix: do not alias the source in ErrDanglingSurrogate

---
 encoding/ucs2/ucs2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/ucs2/ucs2.go b/encoding/ucs2/ucs2.go
index 8491f8f..3d86552 100644
--- a/encoding/ucs2/ucs2.go
+++ b/encoding/ucs2/ucs2.go
@@ -30,7 +30,7 @@ func Decode(src []byte) ([]rune, error) {
 		r := rune(binary.BigEndian.Uint16(src[ri:]))
 		if utf16.IsSurrogate(r) {
 			if ri >= len(src)-3 {
-				return dst, ErrDanglingSurrogate(src[ri:])
+				return dst, append(ErrDanglingSurrogate(nil), src[ri:]...)
 			}
 			r2 := rune(binary.BigEndian.Uint16(src[ri+2:]))
 			r = utf16.DecodeRune(r, r2)
-- 
2.43.0


From 3004db6fd2709a322e3740444edd9a72dd9a6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:21 +0000
Subject: [PATCH 40/41] fix: do not return the user data itself as decoded 8
 bit data

---
 encoding/tpdu/userdata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoding/tpdu/userdata.go b/encoding/tpdu/userdata.go
index ce07a05..0eb0611 100644
--- a/encoding/tpdu/userdata.go
+++ b/encoding/tpdu/userdata.go
@@ -195,7 +195,8 @@ func DecodeUserData(ud UserData, udh UserDataHeader, alpha Alphabet, options ...
 		m, err := ucs2.Decode(ud)
 		return []byte(string(m)), err
 	case Alpha8Bit:
-		return ud, nil
+		// copied, as the other alphabets are, so it is not an alias of the UD
+		return append(ud[:0:0], ud...), nil
 	case Alpha7Bit:
 		fallthrough
 	default:
-- 
2.43.0


From d7ef0cbdf6c5c0fb8327050989139c7c886edeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:51 +0000
Subject: [PATCH 41/41] fix: smsdecode reports the command data of an
 SMS-COMMAND with its header, and no timestamp

---
 cmd/smsdecode/smsdecode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/smsdecode/smsdecode.go b/cmd/smsdecode/smsdecode.go
index f1c1c46..047b9b3 100644
--- a/cmd/smsdecode/smsdecode.go
+++ b/cmd/smsdecode/smsdecode.go
@@ -101,8 +101,14 @@ func dumpCommand(w io.Writer, t *tpdu.TPDU) {
 	fmt.Fprintf(w, "TP-CT: 0x%02x\n", t.CT)
 	fmt.Fprintf(w, "TP-MN: %d\n", t.MN)
 	fmt.Fprintf(w, "TP-DA: %s\n", t.DA.Number())
-	fmt.Fprintf(w, "TP-SCTS: %s\n", t.SCTS)
-	fmt.Fprintf(w, "TP-CDL: %d\n", len(t.UD))
+	cdl := len(t.UD)
+	if len(t.UDH) != 0 {
+		cdl += t.UDHL() + 1 // the command data begins with the header
+	}
+	fmt.Fprintf(w, "TP-CDL: %d\n", cdl)
+	if t.UDH != nil {
+		dumpUDH(w, t.UDH)
+	}
 	dumpCD(w, t.UD)
 }
 
-- 
2.43.0

