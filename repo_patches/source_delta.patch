From 4bd9a91680b4e43ed1e1641a2d6d32eb230d7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 01/69] fix: decode every varint that fits its field

The decoder compared the length of the encoding with the size of the field,
so e.g. 64 in a uint8 was encoded in two bytes that could not be decoded.
---
 syntax/decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..a7950d3 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -165,9 +165,9 @@ func uintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 func varintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 	l, val := readVarint(d)
 
-	uintLen := int(v.Elem().Type().Size())
-	if uintLen < l {
-		panic(fmt.Errorf("Uint too small to fit varint: %d < %d", uintLen, l))
+	// The encoding can be longer than the type, since it also holds the length.
+	if v.Elem().OverflowUint(val) {
+		panic(fmt.Errorf("Uint too small to fit varint: %d", val))
 	}
 
 	v.Elem().SetUint(val)
-- 
2.43.0


From 778387be04402d5417c4b18b84664a397db36407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 02/69] fix: return an error for an optional field that is
 missing altogether

Unmarshal indexed the flag byte without checking that there was one.
---
 syntax/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index a7950d3..a7d0767 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -412,6 +412,10 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read optional flag"))
+		}
+
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0


From 76b71f2a6fb55d70aecb31f45cec38f69f79841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 03/69] fix: do not loop for ever decoding a vector of empty
 elements

Elements that consume nothing never use up the vector's data, so Unmarshal
appended elements until memory ran out.
---
 syntax/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index a7d0767..b91d7ed 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -290,7 +290,11 @@ func (sd *sliceDecoder) decode(d *decodeState, v reflect.Value, opts fieldOption
 	elems := []reflect.Value{}
 	for elemBuf.Len() > 0 {
 		elem := reflect.New(sd.elementType)
-		read += sd.elementDec(elemBuf, elem, opts)
+		elemRead := sd.elementDec(elemBuf, elem, opts)
+		if elemRead == 0 {
+			panic(fmt.Errorf("Vector contains data but its elements are empty"))
+		}
+		read += elemRead
 		elems = append(elems, elem)
 	}
 
-- 
2.43.0


From c7d03f60252904e2b077a3fe80efd83b8649077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 04/69] fix: reject vector lengths that overflow an int

With head=8 a length of 2^63 or more became negative and made Unmarshal
panic.
---
 syntax/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index b91d7ed..ec4560b 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -258,6 +258,9 @@ func decodeLength(d *decodeState, opts fieldOptions) (int, int) {
 	}
 
 	// Check that the length is OK
+	if length < 0 {
+		panic(fmt.Errorf("Length of vector is too big"))
+	}
 	if opts.maxSize > 0 && length > opts.maxSize {
 		panic(fmt.Errorf("Length of vector exceeds declared max"))
 	}
-- 
2.43.0


From 4dec0c41934441c651bb59bc0283dd5e37f8584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 05/69] fix: encode the session ID of a ClientHello

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From aeaded8747ef3b435e8cdbffd336ef645343ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 06/69] fix: accept ClientHellos with key shares for groups we
 do not know

---
 extensions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions.go b/extensions.go
index 07cb16c..48d0c85 100644
--- a/extensions.go
+++ b/extensions.go
@@ -266,7 +266,8 @@ func (ks *KeyShareExtension) Unmarshal(data []byte) (int, error) {
 		}
 
 		for _, share := range inner.ClientShares {
-			if !share.SizeValid() {
+			// Shares for groups we do not know are for somebody else.
+			if keyExchangeSizeFromNamedGroup(share.Group) != 0 && !share.SizeValid() {
 				return 0, fmt.Errorf("tls.keyshare: Key share has wrong size for group")
 			}
 		}
-- 
2.43.0


From 08fb50b0f01b0a015515d4fd736de8cd0e7585b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 07/69] fix: limit the plaintext length of records, not the
 ciphertext length

---
 record-layer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index ccb90bd..a5c9718 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -461,6 +461,10 @@ func (r *DefaultRecordLayer) WriteRecordWithPadding(pt *TLSPlaintext, padLen int
 func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *cipherState, padLen int) error {
 	seq := cipher.combineSeq(r.datagram)
 	length := len(pt.fragment)
+	// The limit is on the plaintext.  Padding must not take it past the limit.
+	if length > maxFragmentLen || (padLen > 0 && length+1+padLen > maxFragmentLen) {
+		return fmt.Errorf("tls.record: Record size too big")
+	}
 	var contentType RecordType
 	if cipher.cipher != nil {
 		length += 1 + padLen + cipher.cipher.Overhead()
@@ -495,10 +499,6 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
-		return fmt.Errorf("tls.record: Record size too big")
-	}
-
 	record := append(header, ciphertext...)
 
 	logf(logTypeIO, "%s RecordLayer.WriteRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), cipher.seq, contentType, ciphertext)
-- 
2.43.0


From dbf490df81a8e0f2d5ab473275e1d459a754ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 08/69] fix: return an error for a record that holds nothing
 but padding

---
 record-layer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index a5c9718..4aca673 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -285,7 +285,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, DecryptError("tls.record.decrypt: No content type")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From 7ddb6a28d2c9636372bf136e4ab91a372af3c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 09/69] fix: decrypt records of an older epoch with that
 epoch's key

---
 record-layer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 4aca673..9828e16 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -262,22 +262,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -433,7 +433,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 984f0c3fd4baf00fb7f6ea98a8c09a19630bbee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 10/69] fix: read the largest encrypted DTLS record whole

---
 record-layer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index 9828e16..fb46b56 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -356,7 +356,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			// Room for a whole datagram with the largest encrypted record.
+			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
-- 
2.43.0


From 1cb84f4ea7461e5aa4c6372bf50ecd80f5dc15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 11/69] fix: refuse a server's choice of a PSK the client did
 not offer

---
 client-state-machine.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..c8b2811 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -454,7 +454,17 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// The only identity a server can select is the one we offered, if any,
+		// and it has to suit the ciphersuite.
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
+		if cipherSuiteMap[sh.CipherSuite].Hash != state.earlyHash {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK for another hash")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
-- 
2.43.0


From 6652219d85ec689a10a1cd503e660c2c7cd140e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 12/69] fix: check the server's key share and the mode it
 selects

---
 client-state-machine.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index c8b2811..c9a78b2 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -468,6 +468,23 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		state.Params.UsingPSK = true
 	}
 
+	// The combination has to be one that we allowed: A certificate needs a key
+	// share, and a PSK needs one of the modes we offered.
+	modeAllowed := !state.Params.UsingPSK && foundExts[ExtensionTypeKeyShare]
+	if state.Params.UsingPSK {
+		neededMode := PSKModeKE
+		if foundExts[ExtensionTypeKeyShare] {
+			neededMode = PSKModeDHEKE
+		}
+		for _, mode := range state.Config.PSKModes {
+			modeAllowed = modeAllowed || (mode == neededMode)
+		}
+	}
+	if !modeAllowed {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a key exchange mode that was not offered")
+		return nil, nil, AlertIllegalParameter
+	}
+
 	var dhSecret []byte
 	if foundExts[ExtensionTypeKeyShare] {
 		sks := serverKeyShare.Shares[0]
@@ -478,7 +495,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid key share [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	suite := sh.CipherSuite
-- 
2.43.0


From 57926664a352b545e5a2c4ec7bd716877abde24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 13/69] fix: reject key shares that are not valid public keys

---
 crypto.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..55ec902 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Public key is not a point on the curve")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -286,6 +289,11 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		// RFC 7919, Section 5.1: The public key has to be in 2..p-2.
+		one := big.NewInt(1)
+		if Y.Cmp(one) <= 0 || Y.Cmp(big.NewInt(0).Sub(p, one)) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Public key out of range")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -303,6 +311,11 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
 
+		// RFC 8446, Section 7.4.2: The shared secret must not be all zero.
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Public key of small order")
+		}
+
 		return ret[:], nil
 
 	default:
-- 
2.43.0


From 8e1aef9681ce44e163db705251a2f50e0f298341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 14/69] fix: refuse an empty certificate list from a server

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index c9a78b2..0e2a21d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -849,6 +849,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server did not provide a certificate")
+		return nil, nil, AlertDecodeError
+	}
+
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From f45f0d205407f617bebe7295be13752f93e4ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 15/69] fix: refuse a cookie when none was asked for

---
 server-state-machine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..3771a3b 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -172,6 +172,11 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// The client sent a cookie. So this is probably the second ClientHello (sent as a response to a HRR)
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
+	if clientSentCookie && !state.Config.RequireCookie {
+		// We never sent one.
+		logf(logTypeHandshake, "[ServerStateStart] Unsolicited cookie")
+		return nil, nil, AlertIllegalParameter
+	}
 	if clientSentCookie {
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
@@ -179,7 +184,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
-- 
2.43.0


From 3359a71b4695c1c0726710c02369745d53ac07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 16/69] fix: handle malformed and reserved alerts from the peer

---
 alert.go           | 16 +++++++++++++++-
 conn.go            |  2 +-
 handshake-layer.go | 29 +++++------------------------
 3 files changed, 21 insertions(+), 26 deletions(-)

diff --git a/alert.go b/alert.go
index 430e455..f7ca57b 100644
--- a/alert.go
+++ b/alert.go
@@ -4,7 +4,10 @@
 
 package mint
 
-import "strconv"
+import (
+	"fmt"
+	"strconv"
+)
 
 type Alert uint8
 
@@ -99,3 +102,14 @@ func (e Alert) String() string {
 func (e Alert) Error() string {
 	return e.String()
 }
+
+// receivedAlert is the error that reports an alert sent by the peer. A peer must
+// not be able to produce the values that signal something else internally.
+func receivedAlert(description byte) error {
+	switch alert := Alert(description); alert {
+	case AlertStatelessRetry, AlertWouldBlock, AlertNoAlert:
+		return fmt.Errorf("tls.alert: received alert(%d)", description)
+	default:
+		return alert
+	}
+}
diff --git a/conn.go b/conn.go
index ccf8dc1..e0ce01b 100644
--- a/conn.go
+++ b/conn.go
@@ -378,7 +378,7 @@ func (c *Conn) consumeRecord() error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..cb0c5b4 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -2,8 +2,6 @@ package mint
 
 import (
 	"fmt"
-	"io"
-	"net"
 )
 
 const (
@@ -202,12 +200,12 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		if len(pt.fragment) < 2 {
-			h.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+		if len(pt.fragment) != 2 {
+			logf(logTypeIO, "read malformed alert [%x]", pt.fragment)
+			return AlertDecodeError
 		}
-		return Alert(pt.fragment[1])
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
+		return receivedAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
@@ -228,23 +226,6 @@ func (h *HandshakeLayer) readRecord() error {
 	return nil
 }
 
-// sendAlert sends a TLS alert message.
-func (h *HandshakeLayer) sendAlert(err Alert) error {
-	tmp := make([]byte, 2)
-	tmp[0] = AlertLevelError
-	tmp[1] = byte(err)
-	h.conn.WriteRecord(&TLSPlaintext{
-		contentType: RecordTypeAlert,
-		fragment:    tmp},
-	)
-
-	// closeNotify is a special case in that it isn't an error:
-	if err != AlertCloseNotify {
-		return &net.OpError{Op: "local error", Err: err}
-	}
-	return nil
-}
-
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
 	var i int
-- 
2.43.0


From 1d2cf33557a478157bee3712cfdc0587eda63e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 17/69] fix: send the level of an alert before its description

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index e0ce01b..55720a6 100644
--- a/conn.go
+++ b/conn.go
@@ -521,7 +521,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From c256e1cc9aee40f3d36b391337681b3c4674e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 18/69] fix: remember that a handshake failed

---
 conn.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 55720a6..03c1e78 100644
--- a/conn.go
+++ b/conn.go
@@ -277,7 +277,7 @@ type Conn struct {
 }
 
 func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
-	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}}
+	c := &Conn{conn: conn, config: config, isClient: isClient, hsCtx: &HandshakeContext{}, handshakeAlert: AlertNoAlert}
 	if !config.UseDTLS {
 		if config.RecordLayer == nil {
 			c.in = NewRecordLayerTLS(c.conn, DirectionRead)
@@ -726,14 +726,8 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 // determines whether a client or server handshake is performed.  If a
 // handshake has already been performed, then its result will be returned.
 func (c *Conn) Handshake() Alert {
-	label := "[server]"
-	if c.isClient {
-		label = "[client]"
-	}
-
 	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
+	if c.handshakeAlert != AlertNoAlert {
 		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
 		return c.handshakeAlert
 	}
@@ -741,6 +735,22 @@ func (c *Conn) Handshake() Alert {
 		return AlertNoAlert
 	}
 
+	alert := c.continueHandshake()
+	switch alert {
+	case AlertNoAlert, AlertWouldBlock, AlertStatelessRetry:
+	default:
+		// A handshake that failed stays failed.
+		c.handshakeAlert = alert
+	}
+	return alert
+}
+
+func (c *Conn) continueHandshake() Alert {
+	label := "[server]"
+	if c.isClient {
+		label = "[client]"
+	}
+
 	if c.hState == nil {
 		logf(logTypeHandshake, "%s First time through handshake (or after stateless retry), setting up", label)
 		alert := c.HandshakeSetup()
-- 
2.43.0


From 48b8d670b5b2706b783c4fd68f65dec95bebe556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 19/69] fix: neither send nor return data after the handshake
 failed

---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 03c1e78..88eafde 100644
--- a/conn.go
+++ b/conn.go
@@ -412,6 +412,10 @@ func readPartial(in *[]byte, buffer []byte) int {
 // Read application data up to the size of buffer.  Handshake and alert records
 // are consumed by the Conn object directly.
 func (c *Conn) Read(buffer []byte) (int, error) {
+	if c.handshakeAlert != AlertNoAlert {
+		return 0, c.handshakeAlert
+	}
+
 	if _, connected := c.hState.(stateConnected); !connected {
 		// Clients can't call Read prior to handshake completion.
 		if c.isClient {
@@ -917,6 +921,10 @@ func (c *Conn) ConnectionState() ConnectionState {
 }
 
 func (c *Conn) Writable() bool {
+	// If the handshake failed, we never become writable.
+	if c.handshakeAlert != AlertNoAlert {
+		return false
+	}
 	// If we're connected, we're writable.
 	if _, connected := c.hState.(stateConnected); connected {
 		return true
-- 
2.43.0


From 6a7f96e32cda0cd3e25c9bbbda8d6c368fe3e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 20/69] fix: derive updated traffic secrets with the label of
 RFC 8446

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index 55ec902..baa1c4d 100644
--- a/crypto.go
+++ b/crypto.go
@@ -549,6 +549,7 @@ const (
 	labelDerived                        = "derived"
 	labelFinished                       = "finished"
 	labelResumption                     = "resumption"
+	labelTrafficUpdate                  = "traffic upd"
 )
 
 // struct HkdfLabel {
diff --git a/state-machine.go b/state-machine.go
index f0635c8..2d7ba7f 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From 594d74b55f9cbf6d1ceba19bdcb23a7bc739963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 21/69] fix: sign a client's CertificateVerify in the client's
 context

---
 client-state-machine.go |  2 +-
 handshake-messages.go   | 25 ++++++++++++++++++++-----
 server-state-machine.go |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 0e2a21d..1a78385 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -1057,7 +1057,7 @@ func (state clientStateWaitFinished) Next(hr handshakeMessageReader) (HandshakeS
 			certificateVerify := &CertificateVerifyBody{Algorithm: certScheme}
 			logf(logTypeHandshake, "Creating CertVerify: %04x %v", certScheme, state.cryptoParams.Hash)
 
-			err = certificateVerify.Sign(cert.PrivateKey, hcv)
+			err = certificateVerify.signInContext(clientSignatureContext, cert.PrivateKey, hcv)
 			if err != nil {
 				logf(logTypeHandshake, "[ClientStateWaitFinished] Error signing CertificateVerify [%v]", err)
 				return nil, nil, AlertInternalError
diff --git a/handshake-messages.go b/handshake-messages.go
index 54e66d7..5791b54 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -351,10 +351,17 @@ func (cv *CertificateVerifyBody) Unmarshal(data []byte) (int, error) {
 	return syntax.Unmarshal(data, cv)
 }
 
+const (
+	serverSignatureContext = "TLS 1.3, server CertificateVerify"
+	clientSignatureContext = "TLS 1.3, client CertificateVerify"
+)
+
+// EncodeSignatureInput, Sign and Verify are for the server's signature.
 func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
-	// TODO: Change context for client auth
-	// TODO: Put this in a const
-	const context = "TLS 1.3, server CertificateVerify"
+	return encodeSignatureInput(serverSignatureContext, data)
+}
+
+func encodeSignatureInput(context string, data []byte) []byte {
 	sigInput := bytes.Repeat([]byte{0x20}, 64)
 	sigInput = append(sigInput, []byte(context)...)
 	sigInput = append(sigInput, []byte{0}...)
@@ -363,14 +370,22 @@ func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
 }
 
 func (cv *CertificateVerifyBody) Sign(privateKey crypto.Signer, handshakeHash []byte) (err error) {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.signInContext(serverSignatureContext, privateKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) signInContext(context string, privateKey crypto.Signer, handshakeHash []byte) (err error) {
+	sigInput := encodeSignatureInput(context, handshakeHash)
 	cv.Signature, err = sign(cv.Algorithm, privateKey, sigInput)
 	logf(logTypeHandshake, "Signed: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return
 }
 
 func (cv *CertificateVerifyBody) Verify(publicKey crypto.PublicKey, handshakeHash []byte) error {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.verifyInContext(serverSignatureContext, publicKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) verifyInContext(context string, publicKey crypto.PublicKey, handshakeHash []byte) error {
+	sigInput := encodeSignatureInput(context, handshakeHash)
 	logf(logTypeHandshake, "About to verify: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return verify(cv.Algorithm, publicKey, sigInput, cv.Signature)
 }
diff --git a/server-state-machine.go b/server-state-machine.go
index 3771a3b..5050fc0 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1066,7 +1066,7 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
 	clientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey
-	if err := certVerify.Verify(clientPublicKey, hcv); err != nil {
+	if err := certVerify.verifyInContext(clientSignatureContext, clientPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ServerStateWaitCV] Failure in client auth verification [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
-- 
2.43.0


From e2e2c9cc6395b7c4e09e2f56ee00fe88b3ceb65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 22/69] fix: lock the output channel for key updates, alerts
 and retransmissions

---
 conn.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 88eafde..0440f24 100644
--- a/conn.go
+++ b/conn.go
@@ -314,6 +314,11 @@ func (c *Conn) consumeRecord() error {
 	switch pt.contentType {
 	case RecordTypeHandshake:
 		logf(logTypeHandshake, "Received post-handshake message")
+		// The connected state and the output channel are shared with
+		// writers.
+		c.out.Lock()
+		defer c.out.Unlock()
+
 		// We do not support fragmentation of post-handshake handshake messages.
 		// TODO: Factor this more elegantly; coalesce with handshakeLayer.ReadMessage()
 		start := 0
@@ -366,6 +371,9 @@ func (c *Conn) consumeRecord() error {
 		}
 	case RecordTypeAlert:
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
+		c.out.Lock()
+		defer c.out.Unlock()
+
 		if len(pt.fragment) != 2 {
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
@@ -389,6 +397,9 @@ func (c *Conn) consumeRecord() error {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
 			return AlertUnexpectedMessage
 		}
+		c.out.Lock()
+		defer c.out.Unlock()
+
 		return c.hsCtx.processAck(pt.fragment)
 
 	case RecordTypeApplicationData:
@@ -445,16 +456,20 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 		return 0, nil
 	}
 
+	// Lock the input channel
+	c.in.Lock()
+	defer c.in.Unlock()
+
 	// Run our timers.
 	if c.config.UseDTLS {
-		if err := c.hsCtx.timers.check(time.Now()); err != nil {
+		c.out.Lock()
+		err := c.hsCtx.timers.check(time.Now())
+		c.out.Unlock()
+		if err != nil {
 			return 0, AlertInternalError
 		}
 	}
 
-	// Lock the input channel
-	c.in.Lock()
-	defer c.in.Unlock()
 	for len(c.readBuffer) == 0 {
 		err := c.consumeRecord()
 
@@ -860,6 +875,10 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		request = KeyUpdateRequested
 	}
 
+	// Lock the output channel
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	// Create the key update and update state
 	actions, alert := c.state.KeyUpdate(request)
 	if alert != AlertNoAlert {
-- 
2.43.0


From 5325d9430e7fdeb6e3c5e10550dfcb6a961ec4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 23/69] fix: put the length of the message_hash message in the
 transcript

---
 client-state-machine.go | 1 +
 server-state-machine.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 1a78385..36fc08a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -411,6 +411,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    h.Sum(nil),
+			length:  uint32(params.Hash.Size()),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index 5050fc0..e6e7f41 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -192,6 +192,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
-- 
2.43.0


From 6df00fa004f7bc79b05bd6f23d5eaa2e48a3d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 24/69] fix: compute PSK binders over the retry exchange

---
 client-state-machine.go | 2 ++
 server-state-machine.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 36fc08a..cbff399 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -240,6 +240,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
diff --git a/server-state-machine.go b/server-state-machine.go
index e6e7f41..30d5ae7 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -226,7 +226,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			hrr, err := state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
-- 
2.43.0


From 096d6f98f4ac17560603d297eea4d49ceca17744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 25/69] fix: do not change the shared configuration on a retry
 request

---
 client-state-machine.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index cbff399..94ee3f5 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -58,6 +58,7 @@ type clientStateStart struct {
 	cookie            []byte
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
+	retrySuite        CipherSuite
 	hsCtx             *HandshakeContext
 }
 
@@ -285,6 +286,7 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 
 		firstClientHello:  state.firstClientHello,
 		helloRetryRequest: state.helloRetryRequest,
+		retrySuite:        state.retrySuite,
 		clientHello:       clientHello,
 	}
 
@@ -315,6 +317,7 @@ type clientStateWaitSH struct {
 
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
+	retrySuite        CipherSuite
 	clientHello       *HandshakeMessage
 }
 
@@ -373,15 +376,18 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertHandshakeFailure
 	}
 
+	// 4. Check that it didn't change its mind after a retry.
+	if state.helloRetryRequest != nil && sh.CipherSuite != state.retrySuite {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server changed the ciphersuite [%04x]", sh.CipherSuite)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	// Now check for the sentinel.
 
 	if sh.Random == hrrRandomSentinel {
 		// This is actually HRR.
 		hrr := sh
 
-		// Narrow the supported ciphersuites to the server-provided one
-		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
-
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
@@ -430,6 +436,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			cookie:            serverCookie.Cookie,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
+			retrySuite:        hrr.CipherSuite,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
 	}
 
-- 
2.43.0


From 97c751c775ba4493e3dad325b14e9e72507d445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 26/69] fix: refuse a second retry request

---
 client-state-machine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 94ee3f5..ee475d7 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -388,6 +388,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
+		// There can only be one.
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
 			err := state.Config.ExtensionHandler.Receive(HandshakeTypeHelloRetryRequest, &hrr.Extensions)
-- 
2.43.0


From e74c403cc984863654cc8406ec25dc46c0505694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 27/69] fix: repeat the ClientHello's random and key shares
 after a retry

---
 client-state-machine.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index ee475d7..45c1e64 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -59,6 +59,9 @@ type clientStateStart struct {
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	retrySuite        CipherSuite
+	retryRandom       []byte
+	retryShares       []KeyShareEntry
+	retryDH           map[NamedGroup][]byte
 	hsCtx             *HandshakeContext
 }
 
@@ -75,7 +78,14 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		HandshakeType: HandshakeTypeClientHello,
 		Shares:        make([]KeyShareEntry, len(state.Config.Groups)),
 	}
-	for i, group := range state.Config.Groups {
+	newGroups := state.Config.Groups
+	if state.helloRetryRequest != nil {
+		// The new ClientHello is the old one, plus the cookie.
+		newGroups = nil
+		ks.Shares = state.retryShares
+		offeredDH = state.retryDH
+	}
+	for i, group := range newGroups {
 		pub, priv, err := newKeyShare(group)
 		if err != nil {
 			logf(logTypeHandshake, "[ClientStateStart] Error generating key share [%v]", err)
@@ -109,6 +119,9 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		CipherSuites:  state.Config.CipherSuites,
 	}
 	_, err := prng.Read(ch.Random[:])
+	if state.helloRetryRequest != nil {
+		copy(ch.Random[:], state.retryRandom)
+	}
 	if err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
 		return nil, nil, AlertInternalError
@@ -287,6 +300,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello:  state.firstClientHello,
 		helloRetryRequest: state.helloRetryRequest,
 		retrySuite:        state.retrySuite,
+		retryRandom:       ch.Random[:],
+		retryShares:       ks.Shares,
 		clientHello:       clientHello,
 	}
 
@@ -318,6 +333,8 @@ type clientStateWaitSH struct {
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	retrySuite        CipherSuite
+	retryRandom       []byte
+	retryShares       []KeyShareEntry
 	clientHello       *HandshakeMessage
 }
 
@@ -443,6 +460,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
 			retrySuite:        hrr.CipherSuite,
+			retryRandom:       state.retryRandom,
+			retryShares:       state.retryShares,
+			retryDH:           state.OfferedDH,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
 	}
 
-- 
2.43.0


From a40771f34ff5f409aad6b25931ef0091d5dd341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 28/69] fix: check what the server accepts in
 EncryptedExtensions was offered

---
 client-state-machine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 45c1e64..7f782a8 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -669,8 +669,20 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
+	if state.Params.UsingEarlyData && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that was not offered")
+		return nil, nil, AlertIllegalParameter
+	}
 
-	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
+	if foundExts[ExtensionTypeALPN] {
+		offered := false
+		for _, proto := range state.Config.NextProtos {
+			offered = offered || (len(serverALPN.Protocols) == 1 && proto == serverALPN.Protocols[0])
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server selected a protocol that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.NextProto = serverALPN.Protocols[0]
 	}
 
-- 
2.43.0


From d30328a6c3769be6d3b0e44c280da747e03726e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 29/69] fix: let an extension handler add to a retry request

---
 client-state-machine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 7f782a8..8133852 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -422,14 +422,15 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 
 		// The only thing we know how to respond to in an HRR is the Cookie
 		// extension, so if there is either no Cookie extension or anything other
-		// than a Cookie extension and SupportedVersions we have to fail.
+		// than a Cookie extension and SupportedVersions we have to fail, unless
+		// there is an external extension handler that looks after it.
 		serverCookie := new(CookieExtension)
 		foundCookie, err := hrr.Extensions.Find(serverCookie)
 		if err != nil {
 			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid server cookie extension [%v]", err)
 			return nil, nil, AlertDecodeError
 		}
-		if !foundCookie || len(hrr.Extensions) != 2 {
+		if !foundCookie || (len(hrr.Extensions) != 2 && state.Config.ExtensionHandler == nil) {
 			logf(logTypeHandshake, "[ClientStateWaitSH] No Cookie or extra extensions [%v] [%d]", foundCookie, len(hrr.Extensions))
 			return nil, nil, AlertIllegalParameter
 		}
-- 
2.43.0


From 761aa41f0dc2673b56fa847aefdc29e8fb557f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 30/69] fix: number the messages of a DTLS server after a retry
 request

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index 30d5ae7..1585bfb 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -323,6 +323,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
 			}
+			state.hsCtx.receivedEndOfFlight()
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
@@ -442,6 +443,9 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 			return nil, err
 		}
 	}
+	// We come here more than once per connection, but for the same message,
+	// which is the first one we send.
+	state.hsCtx.hOut.msgSeq = 0
 	helloRetryRequest, err := state.hsCtx.hOut.HandshakeMessageFromBody(hrr)
 	if err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
-- 
2.43.0


From 0ad76ba58d589d36fd5bb84709d4b3da1ff0926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 31/69] fix: reassemble DTLS messages from reordered and
 inconsistent fragments

---
 handshake-layer.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index cb0c5b4..c4accb7 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -228,12 +228,9 @@ func (h *HandshakeLayer) readRecord() error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
@@ -243,6 +240,10 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	if uint64(hm.offset)+uint64(len(hm.body)) > uint64(hm.length) {
+		return nil, fmt.Errorf("DTLS fragment exceeds its message")
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
@@ -261,7 +262,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
@@ -293,7 +294,7 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 
 	// OK, this at least might complete the message.
 	end := uint32(0)
-	buf := make([]byte, hm.length)
+	buf := []byte{}
 
 	for _, f := range h.queued {
 		// Out of fragments
@@ -301,8 +302,8 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 			break
 		}
 
-		if f.length != uint32(len(buf)) {
-			return nil, fmt.Errorf("Mismatched DTLS length")
+		if f.length != hm.length || f.msgType != hm.msgType {
+			return nil, fmt.Errorf("Mismatched DTLS length or type")
 		}
 
 		if f.offset > end {
@@ -311,7 +312,7 @@ func (h *HandshakeLayer) checkMessageAvailable() (*HandshakeMessage, error) {
 
 		if f.offset+uint32(len(f.body)) > end {
 			// OK, this is adding something we don't know about
-			copy(buf[f.offset:], f.body)
+			buf = append(buf[:f.offset], f.body...)
 			end = f.offset + uint32(len(f.body))
 			if end == hm.length {
 				h2 := *hm
-- 
2.43.0


From 1fe0f9cc1c2c1db6cab28d1272d9b0ab6b67a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 32/69] fix: acknowledge DTLS records by the numbers they were
 sent with

---
 handshake-layer.go | 2 +-
 record-layer.go    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index c4accb7..1a407ab 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -456,7 +456,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
diff --git a/record-layer.go b/record-layer.go
index fb46b56..d480fe6 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -441,6 +441,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		}
 	}
 	pt.epoch = cipher.epoch
+	pt.seq = seq
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-- 
2.43.0


From 2e4b81770d14bf2ad980f8a0b9a331d013920cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 33/69] fix: do not join a truncated DTLS record or fragment
 with the next one

---
 handshake-layer.go | 4 ++++
 record-layer.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 1a407ab..2b40fd8 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -221,6 +221,10 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	h.recvdRecords = append(h.recvdRecords, pt.seq)
+	if h.datagram {
+		// Fragments do not span records, so forget an incomplete one.
+		h.frame = newFrameReader(h.frame.details)
+	}
 	h.frame.addChunk(pt.fragment)
 
 	return nil
diff --git a/record-layer.go b/record-layer.go
index d480fe6..9d3f8bf 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -371,6 +371,10 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 			logf(logTypeIO, "%s Read %v bytes", r.label, n)
 
 			buf = buf[:n]
+			if r.datagram {
+				// Records do not span datagrams, so forget an incomplete one.
+				r.frame = newFrameReader(r.frame.details)
+			}
 			r.frame.addChunk(buf)
 		}
 
-- 
2.43.0


From 54c92baa5e911a73b618cc0aaa23869dfe4e80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 34/69] fix: do not keep DTLS fragments received under older
 keys

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 0440f24..178cf53 100644
--- a/conn.go
+++ b/conn.go
@@ -624,6 +624,10 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			logf(logTypeHandshake, "%s Rekey with data still in handshake buffers", label)
 			return AlertDecodeError
 		}
+		// Nothing received under the old keys can be a later message.
+		if c.config.UseDTLS {
+			c.hsCtx.hIn.queued = nil
+		}
 		err := c.in.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey inbound: %v", label, err)
-- 
2.43.0


From 58b835061179dbe7ce4af46c8b46e5e149f0a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 35/69] fix: remove timers that fire from the timer list

---
 timer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..5a471c9 100644
--- a/timer.go
+++ b/timer.go
@@ -56,9 +56,12 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
+	// Callbacks may start and cancel timers, so look at the list afresh
+	// each time.
+	for len(ts.ts) > 0 {
+		t := ts.ts[0]
 		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
+			ts.ts = ts.ts[1:]
 			if t.cb != nil {
 				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
 				cb := t.cb
-- 
2.43.0


From b5103fef19ec28ed3989d1439ab00f2b40072cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 36/69] fix: hash the context of exported keying material

---
 conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 178cf53..1106581 100644
--- a/conn.go
+++ b/conn.go
@@ -922,8 +922,9 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
-	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", h.Sum(nil), keyLength), nil
 }
 
 func (c *Conn) ConnectionState() ConnectionState {
-- 
2.43.0


From a59c9912c28af861e19310d85643092286c951c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 37/69] fix: reject exporter labels and lengths that HKDF
 cannot represent

---
 conn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn.go b/conn.go
index 1106581..3779972 100644
--- a/conn.go
+++ b/conn.go
@@ -919,6 +919,12 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 		return nil, fmt.Errorf("Internal error: no exporter secret")
 	}
 
+	// HKDF-Expand can produce up to 255 blocks, and the label, with its
+	// prefix, can be up to 255 bytes long.
+	if keyLength < 0 || keyLength > 255*c.state.cryptoParams.Hash.Size() || len("tls13 ")+len(label) > 255 {
+		return nil, fmt.Errorf("Label or length of exported keying material out of range")
+	}
+
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-- 
2.43.0


From 88aa1309a65ea0483c1b50dfedfa6074c19a649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 38/69] fix: clone the RecordLayer setting of a Config

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 3779972..a517585 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From 315852b7bb42fd5e4e6a26b375006972564b0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 39/69] fix: lock the PSK cache that connections share

---
 conn.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/conn.go b/conn.go
index a517585..f302e23 100644
--- a/conn.go
+++ b/conn.go
@@ -49,16 +49,29 @@ type CookieHandler interface {
 
 type PSKMapCache map[string]PreSharedKey
 
+// A cache is shared by the connections that use a Config, which may run
+// concurrently.
+var pskMapMutex sync.RWMutex
+
 func (cache PSKMapCache) Get(key string) (psk PreSharedKey, ok bool) {
+	pskMapMutex.RLock()
+	defer pskMapMutex.RUnlock()
+
 	psk, ok = cache[key]
 	return
 }
 
 func (cache *PSKMapCache) Put(key string, psk PreSharedKey) {
+	pskMapMutex.Lock()
+	defer pskMapMutex.Unlock()
+
 	(*cache)[key] = psk
 }
 
 func (cache PSKMapCache) Size() int {
+	pskMapMutex.RLock()
+	defer pskMapMutex.RUnlock()
+
 	return len(cache)
 }
 
-- 
2.43.0


From 4897f85f2b296a9d7eac0c981b0f908f54506a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 40/69] fix: lock the Config while setting its default
 CookieProtector

---
 conn.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index f302e23..0c8c62d 100644
--- a/conn.go
+++ b/conn.go
@@ -212,6 +212,30 @@ func (c *Config) Init(isClient bool) error {
 	return nil
 }
 
+// initCookieProtector provides a server that requires a cookie with the default
+// CookieProtector, if it has none.
+func (c *Config) initCookieProtector() Alert {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if !c.RequireCookie || c.CookieProtector != nil {
+		return AlertNoAlert
+	}
+
+	logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
+	if c.NonBlocking {
+		logf(logTypeHandshake, "Not possible in non-blocking mode.")
+		return AlertInternalError
+	}
+	protector, err := NewDefaultCookieProtector()
+	if err != nil {
+		logf(logTypeHandshake, "Error initializing cookie source: %v", err)
+		return AlertInternalError
+	}
+	c.CookieProtector = protector
+	return AlertNoAlert
+}
+
 func (c *Config) ValidForServer() bool {
 	return (reflect.ValueOf(c.PSKs).IsValid() && c.PSKs.Size() > 0) ||
 		(len(c.Certificates) > 0 &&
@@ -709,18 +733,8 @@ func (c *Conn) HandshakeSetup() Alert {
 			}
 		}
 	} else {
-		if c.config.RequireCookie && c.config.CookieProtector == nil {
-			logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
-			if c.config.NonBlocking {
-				logf(logTypeHandshake, "Not possible in non-blocking mode.")
-				return AlertInternalError
-			}
-			var err error
-			c.config.CookieProtector, err = NewDefaultCookieProtector()
-			if err != nil {
-				logf(logTypeHandshake, "Error initializing cookie source: %v", alert)
-				return AlertInternalError
-			}
+		if alert := c.config.initCookieProtector(); alert != AlertNoAlert {
+			return alert
 		}
 		state = serverStateStart{Config: c.config, conn: c, hsCtx: c.hsCtx}
 	}
-- 
2.43.0


From cc54c51343cadc42547880ef2cb7d1cf8e35e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 41/69] fix: refuse a KeyUpdate with an invalid request

---
 state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state-machine.go b/state-machine.go
index 2d7ba7f..6764f75 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -196,6 +196,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 	switch body := bodyGeneric.(type) {
 	case *KeyUpdateBody:
+		if body.KeyUpdateRequest > KeyUpdateRequested {
+			logf(logTypeHandshake, "Received key update with an invalid request [%v]", body.KeyUpdateRequest)
+			return nil, nil, AlertIllegalParameter
+		}
+
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-- 
2.43.0


From c577307576caaf0c2c3a2105f1e903b2c0abb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 42/69] fix: refuse a ServerHello with trailing data

---
 client-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 8133852..b56867a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -356,7 +356,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	sh := &ServerHelloBody{}
-	if _, err := sh.Unmarshal(hm.body); err != nil {
+	if err := safeUnmarshal(sh, hm.body); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitSH] unexpected message")
 		return nil, nil, AlertUnexpectedMessage
 	}
-- 
2.43.0


From 950f7b8def46cf624f6fab1a93a0885b4a20b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 43/69] fix: select only signature schemes that the key can
 sign with

---
 crypto.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crypto.go b/crypto.go
index baa1c4d..01462e5 100644
--- a/crypto.go
+++ b/crypto.go
@@ -183,11 +183,24 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	sigType := sigMap[alg]
-	switch key.(type) {
+	hash := hashMap[alg]
+	if hash == crypto.SHA1 {
+		return false
+	}
+
+	switch key := key.(type) {
 	case *rsa.PrivateKey:
-		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
+		switch sigType {
+		case signatureAlgorithmRSA_PKCS1:
+			return true
+		case signatureAlgorithmRSA_PSS:
+			// The hash and a salt of the same length have to fit the modulus
+			return (key.N.BitLen()+6)/8 >= 2*hash.Size()+2
+		default:
+			return false
+		}
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		return sigType == signatureAlgorithmECDSA && curveMap[alg] == namedGroupFromECDSAKey(&key.PublicKey)
 	default:
 		return false
 	}
-- 
2.43.0


From 758a7dc5c948fa910b521cd804c65bb56673b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 44/69] fix: accept only signatures made with an offered scheme

---
 client-state-machine.go | 5 +++++
 negotiation.go          | 9 +++++++++
 server-state-machine.go | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index b56867a..6f4d799 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -903,6 +903,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !schemeOffered(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server used a signature scheme that was not offered [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
diff --git a/negotiation.go b/negotiation.go
index 7463953..15290cc 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -168,6 +168,15 @@ func CertificateSelection(serverName *string, signatureSchemes []SignatureScheme
 	return nil, 0, fmt.Errorf("No certificates compatible with signature schemes")
 }
 
+func schemeOffered(scheme SignatureScheme, offered []SignatureScheme) bool {
+	for _, s := range offered {
+		if s == scheme {
+			return true
+		}
+	}
+	return false
+}
+
 func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData bool) (using bool, rejected bool) {
 	using = gotEarlyData && usingPSK && allowEarlyData
 	rejected = gotEarlyData && !using
diff --git a/server-state-machine.go b/server-state-machine.go
index 1585bfb..4370d11 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1070,6 +1070,11 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if !schemeOffered(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Client used a signature scheme that was not offered [%04x]", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	clientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.verifyInContext(clientSignatureContext, clientPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ServerStateWaitCV] Failure in client auth verification [%v]", err)
-- 
2.43.0


From aa9701292f4a5d359ae15a77815766f784eaa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 45/69] fix: refuse to negotiate a cipher suite that is not
 implemented

---
 client-state-machine.go | 2 +-
 server-state-machine.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 6f4d799..931bce5 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -388,7 +388,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	for _, suite := range state.Config.CipherSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
-	if !supportedCipherSuite {
+	if _, implemented := cipherSuiteMap[sh.CipherSuite]; !supportedCipherSuite || !implemented {
 		logf(logTypeHandshake, "[ClientStateWaitSH] Unsupported ciphersuite [%04x]", sh.CipherSuite)
 		return nil, nil, AlertHandshakeFailure
 	}
diff --git a/server-state-machine.go b/server-state-machine.go
index 4370d11..42b0b3a 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -256,6 +256,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		logf(logTypeHandshake, "[ServerStateStart] No common ciphersuite found [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
+	if _, ok := cipherSuiteMap[connParams.CipherSuite]; !ok {
+		logf(logTypeHandshake, "[ServerStateStart] Cipher suite not implemented [%v]", connParams.CipherSuite)
+		return nil, nil, AlertHandshakeFailure
+	}
 	if clientSentCookie && initialCipherSuite.Suite != connParams.CipherSuite {
 		logf(logTypeHandshake, "[ServerStateStart] Would have selected a different CipherSuite after receiving the client's Cookie")
 		return nil, nil, AlertInternalError
-- 
2.43.0


From a9aa017e4822ff8df96bfdbd41838843a3e73183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 46/69] fix: accept a DTLS client's second hello after a
 stateless retry

---
 conn.go            | 1 +
 handshake-layer.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 0c8c62d..9e298f1 100644
--- a/conn.go
+++ b/conn.go
@@ -736,6 +736,7 @@ func (c *Conn) HandshakeSetup() Alert {
 		if alert := c.config.initCookieProtector(); alert != AlertNoAlert {
 			return alert
 		}
+		c.hsCtx.hIn.statelessRetry = c.config.RequireCookie
 		state = serverStateStart{Config: c.config, conn: c, hsCtx: c.hsCtx}
 	}
 
diff --git a/handshake-layer.go b/handshake-layer.go
index 2b40fd8..78c7266 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -126,6 +126,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	statelessRetry bool // May we have sent a retry request on another connection?
 }
 
 type handshakeLayerFrameDetails struct {
@@ -244,6 +245,12 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	// The first message that a server sees when it retried statelessly is the
+	// second that the client sends.
+	if h.statelessRetry && h.msgSeq == 0 && hm.seq == 1 && hm.msgType == HandshakeTypeClientHello {
+		h.msgSeq = 1
+	}
+
 	if uint64(hm.offset)+uint64(len(hm.body)) > uint64(hm.length) {
 		return nil, fmt.Errorf("DTLS fragment exceeds its message")
 	}
-- 
2.43.0


From 1403fe3a9cb4e838bc85804e63ddede51f519d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 47/69] fix: read past early data after a retry request

---
 record-layer.go         |  4 +++-
 server-state-machine.go | 41 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 9d3f8bf..80828ec 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -16,6 +16,8 @@ const (
 	labelForIV          = "iv"
 )
 
+var errPlaintextTooBig = fmt.Errorf("tls.record: Plaintext size too big")
+
 type DecryptError string
 
 func (err DecryptError) Error() string {
@@ -449,7 +451,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-		return nil, fmt.Errorf("tls.record: Plaintext size too big")
+		return nil, errPlaintextTooBig
 	}
 
 	logf(logTypeIO, "%s RecordLayer.ReadRecord [%d] [%x]", r.label, pt.contentType, pt.fragment)
diff --git a/server-state-machine.go b/server-state-machine.go
index 42b0b3a..8ab6261 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -76,9 +76,10 @@ type cookie struct {
 }
 
 type serverStateStart struct {
-	Config *Config
-	conn   *Conn
-	hsCtx  *HandshakeContext
+	Config        *Config
+	conn          *Conn
+	hsCtx         *HandshakeContext
+	skipEarlyData bool
 }
 
 var _ HandshakeState = &serverStateStart{}
@@ -87,7 +88,40 @@ func (state serverStateStart) State() State {
 	return StateServerStart
 }
 
+// readPastEarlyData discards the early data that a client sent before it got
+// our retry request.
+func (state serverStateStart) readPastEarlyData() Alert {
+	in := state.hsCtx.hIn
+	for !in.datagram {
+		contentType, err := in.conn.PeekRecordType(!in.nonblocking)
+		if err == AlertWouldBlock {
+			return AlertWouldBlock
+		}
+		if err == errPlaintextTooBig {
+			// The encryption of a full-size fragment.
+			continue
+		}
+		if err == nil && contentType != RecordTypeApplicationData {
+			break
+		}
+		if err == nil {
+			_, err = in.conn.ReadRecord()
+		}
+		if err != nil {
+			logf(logTypeHandshake, "[ServerStateStart] Error reading past early data [%v]", err)
+			return AlertCloseNotify
+		}
+	}
+	return AlertNoAlert
+}
+
 func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, []HandshakeAction, Alert) {
+	if state.skipEarlyData {
+		if alert := state.readPastEarlyData(); alert != AlertNoAlert {
+			return nil, nil, alert
+		}
+	}
+
 	hm, alert := hr.ReadMessage()
 	if alert != AlertNoAlert {
 		return nil, nil, alert
@@ -328,6 +362,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				SendQueuedHandshake{},
 			}
 			state.hsCtx.receivedEndOfFlight()
+			state.skipEarlyData = foundExts[ExtensionTypeEarlyData]
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
-- 
2.43.0


From 905e9d016391679a229abd03afd4229ce74c3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 48/69] fix: reject early data that is not protected with the
 selected PSK

---
 server-state-machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 8ab6261..caf26f6 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -407,7 +407,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	// Early data is protected with the first PSK that the client offers.
+	firstPSK := connParams.UsingPSK && selectedPSK == 0
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(firstPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From 1599c81db52c5432f320985aca073bacdc8882d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 49/69] fix: resume a session that did not negotiate a protocol

---
 negotiation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/negotiation.go b/negotiation.go
index 15290cc..3d94f70 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -220,7 +220,7 @@ func ALPNNegotiation(psk *PreSharedKey, offered, supported []string) (string, er
 
 	// If the client offers ALPN on resumption, it must match the earlier one
 	var err error
-	if psk != nil && psk.IsResumption && (len(offered) > 0) {
+	if psk != nil && psk.IsResumption && psk.NextProto != "" && (len(offered) > 0) {
 		err = fmt.Errorf("ALPN for PSK not provided")
 	}
 	return "", err
-- 
2.43.0


From 8f485b15818c60511373d4567eab6b653a3eff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 50/69] fix: give a DTLS record layer a version to start with

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 80828ec..60b950c 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -158,6 +158,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
+	r.version = tls10Version
 	return &r
 }
 
-- 
2.43.0


From fb286626dac9c957efe5b7884ef0a3a87b6925b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 51/69] fix: get out of reading past rejected early data

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index caf26f6..a92607f 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -806,9 +806,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 7e6770d4f9ae8f5db5456b62991c5066a6f2717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 52/69] fix: accept only a cipher suite that the ClientHello
 offered

---
 client-state-machine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 931bce5..77e6014 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -294,6 +294,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
 
+		offeredSuites: ch.CipherSuites,
+
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
 
@@ -327,6 +329,8 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
+	offeredSuites []CipherSuite
+
 	earlySecret []byte
 	earlyHash   crypto.Hash
 
@@ -385,7 +389,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 	// 3. Check that the server provided a supported ciphersuite
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if _, implemented := cipherSuiteMap[sh.CipherSuite]; !supportedCipherSuite || !implemented {
-- 
2.43.0


From 36083869f4066618c6f068fd27d30db18e29cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 53/69] fix: do not read on after an error or the peer's close

---
 conn.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 9e298f1..2c38bee 100644
--- a/conn.go
+++ b/conn.go
@@ -310,6 +310,7 @@ type Conn struct {
 	handshakeComplete bool
 
 	readBuffer []byte
+	readError  error // what ended the incoming stream
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -342,8 +343,23 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 }
 
 // Read up
-func (c *Conn) consumeRecord() error {
+func (c *Conn) consumeRecord() (err error) {
 	pt, err := c.in.ReadRecord()
+
+	// Nothing that follows a fatal error or the peer's close is to be read.
+	// A datagram that is not a valid record says nothing about the others.
+	defer func() {
+		if pt == nil && c.config.UseDTLS {
+			return
+		}
+		if nerr, ok := err.(net.Error); ok && nerr.Timeout() {
+			return
+		}
+		if err != nil && err != AlertWouldBlock {
+			c.readError = err
+		}
+	}()
+
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
 		return err
@@ -509,6 +525,9 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 	}
 
 	for len(c.readBuffer) == 0 {
+		if c.readError != nil {
+			return 0, c.readError
+		}
 		err := c.consumeRecord()
 
 		// err can be nil if consumeRecord processed a non app-data
-- 
2.43.0


From cbc753bf92d44209138bf1a66d96f97b0f300ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 54/69] fix: look for the rest of a handshake message in what
 was received

---
 handshake-layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 78c7266..31b3c0f 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -365,7 +365,9 @@ func (h *HandshakeLayer) ReadMessage() (*HandshakeMessage, error) {
 		if err == nil {
 			break
 		}
-		if err != nil && (h.nonblocking || err != AlertWouldBlock) {
+		// An incomplete message needs another record, which may already
+		// have been received.
+		if err != AlertWouldBlock {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 40495d5f70cf62d8333ca48c73ff02f5b6c5253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 55/69] fix: use a PSK only in a mode that the client offered

---
 negotiation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 3d94f70..624d50f 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -118,14 +118,14 @@ func PSKNegotiation(identities []PSKIdentity, binders []PSKBinderEntry, context
 func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (bool, bool) {
 	logf(logTypeNegotiation, "Negotiating PSK modes [%v] [%v] [%+v]", canDoDH, canDoPSK, modes)
 	dhAllowed := false
-	dhRequired := true
+	pskOnlyAllowed := false
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		pskOnlyAllowed = pskOnlyAllowed || (mode == PSKModeKE)
 	}
 
-	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	// Use PSK if the client offered a mode that we can meet
+	usingPSK := canDoPSK && (pskOnlyAllowed || (dhAllowed && canDoDH))
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
-- 
2.43.0


From 61b2dbd59c9e7632d2ae868cbf36e1de948afadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 56/69] fix: report the alert that ended a handshake

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 2c38bee..e7a02f2 100644
--- a/conn.go
+++ b/conn.go
@@ -783,6 +783,10 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 		}
 		if err != nil {
 			logf(logTypeHandshake, "Error reading message: %v", err)
+			if alert, ok := err.(Alert); ok {
+				// An alert of the peer's, for one
+				return nil, alert
+			}
 			return nil, AlertCloseNotify
 		}
 		if hm != nil {
-- 
2.43.0


From 77a72c32c3c26657e67272e72afd3d8b801550db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:37 +0000
Subject: [PATCH 57/69] fix: report a failure after the handshake as an error,
 not the end of the stream

---
 conn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index e7a02f2..7bf6363 100644
--- a/conn.go
+++ b/conn.go
@@ -401,7 +401,7 @@ func (c *Conn) consumeRecord() (err error) {
 			if alert != AlertNoAlert {
 				logf(logTypeHandshake, "Error in state transition: %v", alert)
 				c.sendAlert(alert)
-				return io.EOF
+				return alert
 			}
 
 			for _, action := range actions {
@@ -409,7 +409,7 @@ func (c *Conn) consumeRecord() (err error) {
 				if alert != AlertNoAlert {
 					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
 					c.sendAlert(alert)
-					return io.EOF
+					return alert
 				}
 			}
 
@@ -430,7 +430,7 @@ func (c *Conn) consumeRecord() (err error) {
 
 		if len(pt.fragment) != 2 {
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			return AlertUnexpectedMessage
 		}
 		if Alert(pt.fragment[1]) == AlertCloseNotify {
 			return io.EOF
@@ -443,7 +443,7 @@ func (c *Conn) consumeRecord() (err error) {
 			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			return AlertUnexpectedMessage
 		}
 
 	case RecordTypeAck:
-- 
2.43.0


From 1f320932766ca187f0ac4d977b39d8db63271c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 58/69] fix: do not connect a server that fails to send its
 tickets

---
 conn.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 7bf6363..f9b0ea6 100644
--- a/conn.go
+++ b/conn.go
@@ -874,12 +874,9 @@ func (c *Conn) continueHandshake() Alert {
 			}
 		}
 
-		c.hState = state
-		logf(logTypeHandshake, "state is now %s", c.GetHsState())
 		_, connected = state.(stateConnected)
 		if connected {
 			c.state = state.(stateConnected)
-			c.handshakeComplete = true
 
 			if !c.isClient {
 				// Send NewSessionTicket if configured to
@@ -908,8 +905,14 @@ func (c *Conn) continueHandshake() Alert {
 			} else {
 				assert(c.hsCtx.earlyData == nil)
 			}
+
+			// Only now that nothing can fail any more
+			c.handshakeComplete = true
 		}
 
+		c.hState = state
+		logf(logTypeHandshake, "state is now %s", c.GetHsState())
+
 		if c.config.NonBlocking {
 			if alert == AlertStatelessRetry {
 				return AlertStatelessRetry
-- 
2.43.0


From b5d50cf77cddf4984c2c596cdd23a815a6042d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 59/69] fix: go on with the next DTLS record after skipping one

---
 record-layer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 60b950c..1c64dfb 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -18,6 +18,10 @@ const (
 
 var errPlaintextTooBig = fmt.Errorf("tls.record: Plaintext size too big")
 
+// errRecordSkipped is what readFrame returns for a DTLS record of an epoch that
+// we cannot or do not want to read.
+var errRecordSkipped = fmt.Errorf("tls.record: Record skipped")
+
 type DecryptError string
 
 func (err DecryptError) Error() string {
@@ -341,6 +345,16 @@ func (r *DefaultRecordLayer) ReadRecordAnyEpoch() (*TLSPlaintext, error) {
 }
 
 func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, error) {
+	for {
+		// The record after a skipped one may have been received with it.
+		pt, err := r.readFrame(allowOldEpoch)
+		if err != errRecordSkipped {
+			return pt, err
+		}
+	}
+}
+
+func (r *DefaultRecordLayer) readFrame(allowOldEpoch bool) (*TLSPlaintext, error) {
 	cipher := r.cipher
 	if r.cachedRecord != nil {
 		logf(logTypeIO, "%s Returning cached record", r.label)
@@ -426,14 +440,14 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		c, ok := r.readCiphers[epoch]
 		if !ok {
 			logf(logTypeIO, "%s Message from unknown epoch: [%v]", r.label, epoch)
-			return nil, AlertWouldBlock
+			return nil, errRecordSkipped
 		}
 
 		if epoch != cipher.epoch {
 			logf(logTypeIO, "%s Message from non-current epoch: [%v != %v] out-of-epoch reads=%v", r.label, epoch,
 				cipher.epoch, allowOldEpoch)
 			if !allowOldEpoch {
-				return nil, AlertWouldBlock
+				return nil, errRecordSkipped
 			}
 			cipher = c
 		}
-- 
2.43.0


From c145100bd32d5b77d883a26958aeb6c847bbd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 60/69] fix: do not use DTLS record numbers again after a retry
 request

---
 record-layer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/record-layer.go b/record-layer.go
index 1c64dfb..15f2a56 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -171,6 +171,11 @@ func (r *DefaultRecordLayer) SetVersion(v uint16) {
 }
 
 func (r *DefaultRecordLayer) ResetClear(seq uint64) {
+	if r.datagram && r.cipher.epoch == EpochClear && r.cipher.seq > seq {
+		// Record numbers are not used again, and a retransmission may have
+		// used this one.
+		seq = r.cipher.seq
+	}
 	r.cipher = newCipherStateNull()
 	r.cipher.seq = seq
 }
-- 
2.43.0


From 9584c70dec5076303986226fe4f68ff312a7fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 61/69] fix: ignore change_cipher_spec records during the
 handshake

---
 record-layer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index 15f2a56..6b541f2 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -1,6 +1,7 @@
 package mint
 
 import (
+	"bytes"
 	"crypto/cipher"
 	"fmt"
 	"io"
@@ -14,12 +15,14 @@ const (
 	maxFragmentLen      = 1 << 14 // max number of bytes in a record
 	labelForKey         = "key"
 	labelForIV          = "iv"
+
+	recordTypeChangeCipherSpec = 20
 )
 
 var errPlaintextTooBig = fmt.Errorf("tls.record: Plaintext size too big")
 
 // errRecordSkipped is what readFrame returns for a DTLS record of an epoch that
-// we cannot or do not want to read.
+// we cannot or do not want to read, and for a change_cipher_spec record.
 var errRecordSkipped = fmt.Errorf("tls.record: Record skipped")
 
 type DecryptError string
@@ -412,6 +415,12 @@ func (r *DefaultRecordLayer) readFrame(allowOldEpoch bool) (*TLSPlaintext, error
 	// Validate content type
 	switch RecordType(header[0]) {
 	default:
+		// Until the handshake is over a peer may send change_cipher_spec
+		// records, for the benefit of middleboxes, and they mean nothing.
+		if !r.datagram && header[0] == recordTypeChangeCipherSpec && bytes.Equal(body, []byte{1}) && cipher.epoch < EpochApplicationData {
+			logf(logTypeIO, "%s Ignoring change_cipher_spec", r.label)
+			return nil, errRecordSkipped
+		}
 		return nil, fmt.Errorf("tls.record: Unknown content type %02x", header[0])
 	case RecordTypeAlert, RecordTypeHandshake, RecordTypeApplicationData, RecordTypeAck:
 		pt.contentType = RecordType(header[0])
-- 
2.43.0


From 53fc7e84757c2cdcc98035b6b2fdf39a73a9a5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 62/69] fix: close a connection whose handshake fails in Accept

---
 tls.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tls.go b/tls.go
index 4d22869..6aadb9a 100644
--- a/tls.go
+++ b/tls.go
@@ -40,11 +40,12 @@ func (l *Listener) Accept() (c net.Conn, err error) {
 	}
 	server := Server(c, l.config)
 	err = server.Handshake()
-	if err == AlertNoAlert {
-		err = nil
+	if err != AlertNoAlert {
+		// The caller gets no connection to close.
+		c.Close()
+		return nil, err
 	}
-	c = server
-	return
+	return server, nil
 }
 
 // NewListener creates a Listener which accepts connections from an inner
-- 
2.43.0


From aa45bcb1d742516cc829b4ff4952e63f5083772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 63/69] fix: do not keep listening when Listen is refused

---
 tls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 6aadb9a..1568352 100644
--- a/tls.go
+++ b/tls.go
@@ -74,7 +74,12 @@ func Listen(network, laddr string, config *Config) (net.Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return NewListener(l, config)
+	listener, err := NewListener(l, config)
+	if err != nil {
+		l.Close()
+		return nil, err
+	}
+	return listener, nil
 }
 
 type TimeoutError struct{}
-- 
2.43.0


From b5dd0ea2909e40e276ef63c67cf33eb9f100a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 64/69] fix: dial DTLS over udp4 and udp6 too

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1568352..0a710df 100644
--- a/tls.go
+++ b/tls.go
@@ -146,7 +146,7 @@ func DialWithDialer(dialer *net.Dialer, network, addr string, config *Config) (*
 	}
 
 	// Set up DTLS as needed.
-	config.UseDTLS = (network == "udp")
+	config.UseDTLS = strings.HasPrefix(network, "udp")
 
 	conn := Client(rawConn, config)
 
-- 
2.43.0


From deb243d7e04502fededa2659883452166e8e171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 65/69] fix: refuse records of an unexpected type after the
 handshake

---
 conn.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index f9b0ea6..b05b493 100644
--- a/conn.go
+++ b/conn.go
@@ -447,12 +447,14 @@ func (c *Conn) consumeRecord() (err error) {
 		}
 
 	case RecordTypeAck:
+		c.out.Lock()
+		defer c.out.Unlock()
+
 		if !c.hsCtx.hIn.datagram {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
+			c.sendAlert(AlertUnexpectedMessage)
 			return AlertUnexpectedMessage
 		}
-		c.out.Lock()
-		defer c.out.Unlock()
 
 		return c.hsCtx.processAck(pt.fragment)
 
@@ -460,6 +462,13 @@ func (c *Conn) consumeRecord() (err error) {
 		c.readBuffer = append(c.readBuffer, pt.fragment...)
 		logf(logTypeIO, "extended buffer: [%d] %x", len(c.readBuffer), c.readBuffer)
 
+	default:
+		logf(logTypeIO, "Received a record of unexpected type %v", pt.contentType)
+		c.out.Lock()
+		defer c.out.Unlock()
+
+		c.sendAlert(AlertUnexpectedMessage)
+		return AlertUnexpectedMessage
 	}
 
 	return err
-- 
2.43.0


From 464d804653d15e7728485a31716aefb79c3f8411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 66/69] fix: refuse a ServerHello with a session ID or
 compression

---
 client-state-machine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 77e6014..bba7714 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -372,6 +372,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertIllegalParameter
 	}
 
+	// We never send a session ID nor offer compression.
+	if len(sh.LegacySessionID) != 0 || sh.LegacyCompressionMethod != 0 {
+		logf(logTypeHandshake, "[ClientStateWaitSH] illegal session ID [%x] or compression method [%v]", sh.LegacySessionID, sh.LegacyCompressionMethod)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	// 2. Check that it responded with a valid version.
 	supportedVersions := SupportedVersionsExtension{HandshakeType: HandshakeTypeServerHello}
 	foundSupportedVersions, err := sh.Extensions.Find(&supportedVersions)
-- 
2.43.0


From 2d3d3107aa866d976c97e602fc5c135d39da128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 67/69] fix: mark a server's retry requests and alerts as
 version 1.2 records

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index a92607f..bb2f8d2 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -131,6 +131,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		return nil, nil, AlertUnexpectedMessage
 	}
 
+	state.hsCtx.SetVersion(tls12Version) // Everything from here on should be 1.2.
+
 	ch := &ClientHelloBody{LegacyVersion: wireVersion(state.hsCtx.hIn)}
 	if err := safeUnmarshal(ch, hm.body); err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error decoding message: %v", err)
@@ -430,7 +432,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	state.hsCtx.receivedEndOfFlight()
 
 	logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateNegotiated]")
-	state.hsCtx.SetVersion(tls12Version) // Everything after this should be 1.2.
 	return serverStateNegotiated{
 		Config:                   state.Config,
 		Params:                   connParams,
-- 
2.43.0


From 130722dec2488fe722117bac1b45b33ace2f877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 68/69] fix: report writes after a failed one as failed

---
 conn.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/conn.go b/conn.go
index b05b493..806b57f 100644
--- a/conn.go
+++ b/conn.go
@@ -311,6 +311,7 @@ type Conn struct {
 
 	readBuffer []byte
 	readError  error // what ended the incoming stream
+	writeError error // why nothing more can be written
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -562,6 +563,11 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 		return 0, errors.New("Write called before the handshake completed (and early data not in use)")
 	}
 
+	// After a failed write, the peer cannot decrypt any further records.
+	if c.writeError != nil {
+		return 0, c.writeError
+	}
+
 	// Send full-size fragments
 	var start int
 	sent := 0
@@ -572,6 +578,7 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 		})
 
 		if err != nil {
+			c.noteWriteError(err)
 			return sent, err
 		}
 		sent += maxFragmentLen
@@ -585,6 +592,7 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 		})
 
 		if err != nil {
+			c.noteWriteError(err)
 			return sent, err
 		}
 		sent += len(buffer[start:])
@@ -592,6 +600,15 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 	return sent, nil
 }
 
+// noteWriteError makes all further writes fail. On a datagram transport, one
+// lost record does not affect the next.
+// c.out.Mutex <= L.
+func (c *Conn) noteWriteError(err error) {
+	if !c.config.UseDTLS {
+		c.writeError = err
+	}
+}
+
 // sendAlert sends a TLS alert message.
 // c.out.Mutex <= L.
 func (c *Conn) sendAlert(err Alert) error {
-- 
2.43.0


From d591abe210b5f692d7f37fb2531c25065e97a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 69/69] fix: do not loop for ever decoding a map of empty
 elements

Keys and values that consume nothing never use up the map's data, so Unmarshal
never returned.
---
 syntax/decode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index ec4560b..59ac2fe 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -343,10 +343,15 @@ func (md mapDecoder) decode(d *decodeState, v reflect.Value, opts fieldOptions)
 	elemBuf.Write(elemData)
 	for elemBuf.Len() > 0 {
 		key := reflect.New(md.keyType)
-		read += md.keyDec(elemBuf, key, nullOpts)
+		elemRead := md.keyDec(elemBuf, key, nullOpts)
 
 		val := reflect.New(md.valType)
-		read += md.valDec(elemBuf, val, nullOpts)
+		elemRead += md.valDec(elemBuf, val, nullOpts)
+
+		if elemRead == 0 {
+			panic(fmt.Errorf("Map contains data but its elements are empty"))
+		}
+		read += elemRead
 
 		v.Elem().SetMapIndex(key.Elem(), val.Elem())
 	}
-- 
2.43.0

