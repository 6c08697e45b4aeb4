From 9bb919815f8947687e11c47fc122dffa33600076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 01/44] fix: refuse an empty array instead of panicking when
 deserializing

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..5c25cc3 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("invalid message: empty array")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From 1ec8faea6c542bd978741536e0bcea5edb664cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 02/44] fix: refuse HELLO and AUTHENTICATE without their last
 element instead of panicking

---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From f089575bf45126ce8c4fe9bb57e0a1e9d7c31c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 03/44] fix: encode missing args of ABORT with kwargs as an
 empty list, not null

---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 2a230ba2669ca981735aa3e07af75918b62f1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 04/44] fix: encode nil details of WELCOME and nil extra of
 CHALLENGE as an empty map

---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 75a17b32cd626261018f6a0f007115b5964ceb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 05/44] fix: tell whether a RESULT payload is binary by its
 flag, not its serializer id

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From e259d5c468cd8effae08888cc5f856e0d3aff25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 06/44] fix: AsInt refuses floats just above the largest int
 instead of wrapping around

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index f09eba5..6f308a0 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < -float32(intMin) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < -float64(intMin) {
 			return int(v), true
 		}
 	}
-- 
2.43.0


From 1a7aaffb4f777a422d17356b72ff0853e0147e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 07/44] fix: AsUInt64 accepts int16 and refuses negative, NaN
 and too large numbers

---
 util/util.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/util/util.go b/util/util.go
index 6f308a0..cf80331 100644
--- a/util/util.go
+++ b/util/util.go
@@ -48,19 +48,33 @@ func AsInt(i any) (int, bool) {
 }
 
 func AsUInt64(i any) (uint64, bool) {
+	const maxUint64 = float64(math.MaxUint64) // rounds up to 2^64
+
 	switch v := i.(type) {
 	case int64:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case uint64:
 		return v, true // #nosec
 	case uint8:
 		return uint64(v), true
 	case int:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case int8:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
+	case int16:
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case int32:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case uint:
 		return uint64(v), true // #nosec
 	case uint16:
@@ -68,9 +82,13 @@ func AsUInt64(i any) (uint64, bool) {
 	case uint32:
 		return uint64(v), true
 	case float64:
-		return uint64(v), true
+		if v >= 0 && v < maxUint64 {
+			return uint64(v), true
+		}
 	case float32:
-		return uint64(v), true
+		if v >= 0 && float64(v) < maxUint64 {
+			return uint64(v), true
+		}
 	}
 
 	return 0, false
-- 
2.43.0


From b1d732bb1422c956257adfb0d2651488da72ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 08/44] fix: AsFloat64 accepts int16

---
 util/util.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/util.go b/util/util.go
index cf80331..3d82286 100644
--- a/util/util.go
+++ b/util/util.go
@@ -108,6 +108,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From deb8e13451510cc6886e2aa07900e8334361a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 09/44] fix: decode the empty payload that encoding no args and
 no kwargs produces

---
 serializers/payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..d7c3ace 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 8ffb2f88a854c7296e430d9549921f9d1b960806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 10/44] fix: DecodeCBOR accepts absent args or kwargs and
 refuses a short array instead of panicking

---
 serializers/cbor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..7649969 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,13 +64,18 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) < 2 {
+		return nil, nil, fmt.Errorf("invalid payload length: %d", len(payload))
+	}
+
+	// absent args and kwargs are encoded as null
 	args, ok := payload[0].([]any)
-	if !ok {
+	if !ok && payload[0] != nil {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
 	}
 
 	kwargs, ok := payload[1].(map[string]any)
-	if !ok {
+	if !ok && payload[1] != nil {
 		return nil, nil, fmt.Errorf("invalid kwargs type: %T", payload[1])
 	}
 
-- 
2.43.0


From 47ce9e950416fd4e928575b7bbce0b175abdee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 11/44] fix: SendHandshake refuses a size of zero or less
 instead of panicking

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..0206059 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() < 1<<9 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From 8da9f96390d18473e5d95f54e6be84d076bca32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 12/44] fix: ReceiveMessageHeader refuses a header that is not
 4 bytes long

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 0206059..a4f1438 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -110,6 +110,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From e8a01b4d5b80c862a228187b660bd19a708ab383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 13/44] fix: default to anonymous auth only if the server has
 it enabled

---
 auth/helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..4605c2f 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -11,7 +11,11 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var method Method
 
 	if len(proposedMethods) == 0 {
-		return Anonymous, nil
+		if slices.Contains(allowedMethods, Anonymous) {
+			return Anonymous, nil
+		}
+
+		return "", fmt.Errorf("server does not have %s auth enabled", Anonymous)
 	}
 
 	for _, proposed := range proposedMethods {
-- 
2.43.0


From cc222209b9ad202c7ced2d0ccb309e830215afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 14/44] fix: accept a cryptosign signature only over the
 challenge that was issued

---
 acceptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..0dd8472 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -1,9 +1,11 @@
 package wampproto
 
 import (
+	"crypto/ed25519"
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -240,7 +242,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			if !verified || !strings.EqualFold(authenticate.Signature()[2*ed25519.SignatureSize:], a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From 5d452a463d84a0bd9396d591209c6ba558fe1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 15/44] fix: an acceptor that has sent ABORT accepts no further
 messages

---
 acceptor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/acceptor.go b/acceptor.go
index 0dd8472..2bd018b 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -18,6 +18,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -102,6 +103,10 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("session was aborted, not expecting any new messages")
+	}
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
@@ -111,6 +116,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		authMethod, err := auth.SelectAuthMethod(a.authenticator.Methods(), hello.AuthMethods())
 		if err != nil {
 			abort := messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, []any{err.Error()}, nil)
+			a.state = AcceptorStateAborted
 			return abort, nil
 		}
 
@@ -123,6 +129,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
@@ -135,6 +142,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
@@ -182,6 +190,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
@@ -212,6 +221,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
@@ -229,6 +239,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 
 			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
@@ -244,6 +255,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
 			if !verified || !strings.EqualFold(authenticate.Signature()[2*ed25519.SignatureSize:], a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
+				a.state = AcceptorStateAborted
 				return abort, nil
 			}
 
-- 
2.43.0


From bc48ed9cab8cf2ee0fb61ce32c9b11120645a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 16/44] fix: a joiner that was aborted does not join on a later
 WELCOME

---
 joiner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..4ccf57d 100644
--- a/joiner.go
+++ b/joiner.go
@@ -142,6 +142,7 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return authenticate, nil
 	} else if msg.Type() == messages.MessageTypeAbort {
 		abort := msg.(*messages.Abort)
+		j.state = joinerStateNone
 
 		errStr := abort.Reason()
 		if len(abort.Args()) > 0 {
-- 
2.43.0


From da5c5389c58c98823f1d7116bab957df0745588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 17/44] fix: joiner does not panic on a WELCOME without authid
 or authrole

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 4ccf57d..d5b3d07 100644
--- a/joiner.go
+++ b/joiner.go
@@ -121,9 +121,11 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod,
+			j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From 95f9d98070031f10f0542c4e79d9a360cbf77ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 18/44] fix: state the auth method in WELCOME as a plain string

---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 2bd018b..ee674f2 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -274,7 +274,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From d342d54d6dffbc4274d99fa0e4c8a1932decf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 19/44] fix: refuse cryptosign private keys of the wrong length
 instead of panicking

---
 auth/cryptosign.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..d27e024 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -29,6 +29,10 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 		return nil, errors.New("invalid private key")
 	}
 
+	if len(privateKeyRaw) != ed25519.SeedSize {
+		return nil, fmt.Errorf("invalid private key length %d", len(privateKeyRaw))
+	}
+
 	privateKey := ed25519.NewKeyFromSeed(privateKeyRaw)
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
@@ -80,6 +84,10 @@ func SignCryptoSignChallenge(challenge string, privateKey ed25519.PrivateKey) (s
 		return "", fmt.Errorf("failed to decode challenge: %w", err)
 	}
 
+	if len(privateKey) != ed25519.PrivateKeySize {
+		return "", fmt.Errorf("invalid private key length %d", len(privateKey))
+	}
+
 	signedRaw := ed25519.Sign(privateKey, challengeRaw)
 	signedHex := hex.EncodeToString(signedRaw)
 
-- 
2.43.0


From 6d5ea3e1d6dbce7743ce9ed8910b51ce0f848c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 20/44] fix: do not pad or truncate a cryptosign public key of
 the wrong length

---
 auth/cryptosign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index d27e024..921dbd6 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -104,6 +104,10 @@ func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error)
 		return false, fmt.Errorf("signed message has invalid length (was %v, but should have been 96)", len(signatureBytes))
 	}
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been 32)", len(publicKey))
+	}
+
 	signedOut := make([]byte, 32)
 	var pubkey [32]byte
 	copy(pubkey[:], publicKey)
-- 
2.43.0


From ebf4d5f2f720c5ba7682d3e6ee6d74be379dc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 21/44] fix: a WAMP-CRA challenge with a bad key length cannot
 panic the client

---
 auth/wampcra.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..af3b082 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,8 @@ import (
 
 const MethodCRA = "wampcra"
 
+const maxKeyLength = 1 << 16
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -58,6 +60,10 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
 
+		if keylen > maxKeyLength {
+			return nil, fmt.Errorf("key length %d in challenge is too large", keylen)
+		}
+
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
 		rawSecret = []byte(a.secret)
@@ -85,10 +91,10 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	// If salting info give, then compute a derived key using PBKDF2.
 	salt := []byte(saltStr)
 
-	if iterations == 0 {
+	if iterations <= 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From 9e4b65652a3d34ebd0ac3dc373cda95bf887dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 22/44] fix: accept SUBSCRIBED, UNSUBSCRIBED and UNREGISTERED
 only once per request

---
 session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..f57ec55 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 6e7858be7bdb97a398ded192e333d318acbdb3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 23/44] fix: keep a pattern subscription while it still has
 subscribers

---
 broker.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..afbe2cc 100644
--- a/broker.go
+++ b/broker.go
@@ -67,10 +67,12 @@ func (b *Broker) RemoveSession(id uint64) error {
 			delete(subscription.Subscribers, id)
 		}
 
-		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
+		if len(subscription.Subscribers) > 0 {
+			continue
 		}
 
+		delete(b.subscriptionsByTopic, v.Topic)
+
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 		}
@@ -155,12 +157,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From eee306e61c3b26b05a47c0b0520906fff19f45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 24/44] fix: do not deliver an event to its publisher unless it
 asks for that

---
 broker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index afbe2cc..5887e57 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 type Broker struct {
@@ -219,10 +220,18 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 		}
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
-		result.Event = event
+		excludeMe, ok := publish.Options()[OptExcludeMe].(bool)
 		for _, subscriber := range subscription.Subscribers {
+			if subscriber == sessionID && (excludeMe || !ok) {
+				continue
+			}
+
 			result.Recipients = append(result.Recipients, subscriber)
 		}
+
+		if len(result.Recipients) > 0 {
+			result.Event = event
+		}
 	}
 
 	ack, ok := publish.Options()[OptAcknowledge].(bool)
-- 
2.43.0


From 61cfa152fbf89974446e1a7306e30c1ba45f1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 25/44] fix: forget a pattern registration exactly when its
 last callee is gone

---
 dealer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..c5f8c0d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -118,13 +118,13 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		for i, callee := range registration.callees {
@@ -353,7 +353,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From f8f678b4551acd9c1f6504f2cf05a0ab9fb5c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 26/44] fix: list a session only once among the callees of a
 shared registration

---
 dealer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index c5f8c0d..35b54aa 100644
--- a/dealer.go
+++ b/dealer.go
@@ -308,9 +308,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From d49e834d8ca0c61a9cd81c6d2dbc54ae065a69b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 27/44] fix: a session that has unregistered is no longer
 called, and unregistering an unknown id does not panic

---
 dealer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 35b54aa..2eb15dd 100644
--- a/dealer.go
+++ b/dealer.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 
 	"github.com/hashicorp/go-immutable-radix/v2"
+	"golang.org/x/exp/slices"
 
 	"github.com/xconnio/wampproto-go/messages"
 	"github.com/xconnio/wampproto-go/util"
@@ -347,11 +348,19 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
+
+		delete(registrations, unregister.RegistrationID())
 		delete(registration.Registrants, sessionID)
+		if i := slices.Index(registration.callees, sessionID); i >= 0 {
+			registration.callees = slices.Delete(registration.callees, i, i+1)
+		}
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From d937a7d5b7ea8ec31329c13099f087e29464a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 28/44] fix: refuse to join a shared registration with a
 different match policy

---
 dealer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2eb15dd..b1b7c75 100644
--- a/dealer.go
+++ b/dealer.go
@@ -301,10 +301,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
+		match := util.ToString(register.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
 			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
-				registration.InvocationPolicy != invokePolicy {
+				registration.InvocationPolicy != invokePolicy || registration.Match != match {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -322,7 +326,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				InvocationPolicy: invokePolicy,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				registration.Match = match
-- 
2.43.0


From 2756774ed7ba19d540a2c13d48226767c83b78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 29/44] fix: refuse a CALL from a session that is not attached

---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index b1b7c75..fcbc222 100644
--- a/dealer.go
+++ b/dealer.go
@@ -166,6 +166,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		if _, exists := d.sessions[sessionID]; !exists {
+			return nil, fmt.Errorf("cannot call procedure for non-existent session %d", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
-- 
2.43.0


From 7f6cfe3594e73ff4cd80b8ba603364f283cc74ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 30/44] fix: forget the calls a session made or was to answer
 when it leaves

---
 dealer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dealer.go b/dealer.go
index fcbc222..9a790b8 100644
--- a/dealer.go
+++ b/dealer.go
@@ -139,6 +139,12 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		}
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.finishCall(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
@@ -400,6 +406,16 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	}
 }
 
+// finishCall forgets a call, the given invocation is no longer expected to be answered.
+func (d *Dealer) finishCall(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+
+	callMap := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[callMap] == invocationID {
+		delete(d.invocationIDbyCall, callMap)
+	}
+}
+
 func wildcardMatch(str, pattern string) bool {
 	matched, err := path.Match(pattern, str)
 	return err == nil && matched
-- 
2.43.0


From 1c7f939afb61626d93c45d9cd66531f0ee03a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 31/44] fix: refuse a YIELD or ERROR from a session that is not
 involved in the invocation

---
 dealer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 9a790b8..5f37e3b 100644
--- a/dealer.go
+++ b/dealer.go
@@ -278,7 +278,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	case messages.MessageTypeYield:
 		yield := msg.(*messages.Yield)
 		pending, exists := d.pendingCalls[yield.RequestID()]
-		if !exists {
+		if !exists || (sessionID != pending.CalleeID && sessionID != pending.CallerID) {
 			return nil, fmt.Errorf("yield: not pending calls for session %d", sessionID)
 		}
 
@@ -392,7 +392,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		pending, exists := d.pendingCalls[wErr.RequestID()]
-		if !exists {
+		if !exists || sessionID != pending.CalleeID {
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-- 
2.43.0


From 35774550fba45580302476964b99a0db760c1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 32/44] fix: a request id starts a new invocation once its call
 was answered

---
 dealer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 5f37e3b..8c33dc7 100644
--- a/dealer.go
+++ b/dealer.go
@@ -287,7 +287,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.finishCall(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -396,7 +396,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.finishCall(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
-- 
2.43.0


From bda8bd3f711dcf8ea37988e64467b23cf899859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 33/44] fix: all parts of a progressive call are one invocation
 at one callee

---
 dealer.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dealer.go b/dealer.go
index 8c33dc7..efcf989 100644
--- a/dealer.go
+++ b/dealer.go
@@ -43,6 +43,7 @@ type PendingInvocation struct {
 	CalleeID        uint64
 	Progress        bool
 	ReceiveProgress bool
+	registration    *Registration
 }
 
 type Registration struct {
@@ -198,14 +199,25 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			}
 		}
 
-		if !found || len(regs.Registrants) == 0 {
+		// a call marked as progressive is continued by the next one with the same request ID
+		callMap := CallMap{CallerID: sessionID, CallID: call.RequestID()}
+		invocationID := d.invocationIDbyCall[callMap]
+		pending, continued := d.pendingCalls[invocationID]
+		continued = continued && pending.Progress
+		if continued {
+			regs, found = pending.registration, true
+		}
+
+		if !found || (len(regs.Registrants) == 0 && !continued) {
 			callErr := messages.NewError(messages.MessageTypeCall, call.RequestID(), map[string]any{},
 				"wamp.error.no_such_procedure", nil, nil)
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -231,8 +243,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		if continued {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
@@ -240,8 +253,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
+				registration:    regs,
 			}
-			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
+			d.invocationIDbyCall[callMap] = invocationID
 		}
 
 		details := map[string]any{}
-- 
2.43.0


From bd9fefa9f932b46687129371edbe96c3305b4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 34/44] fix: seed the generator that random ids come from

---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..1ac8771 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From a21d711c8412e0602d5ad42c2c7326a181fe6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 35/44] fix: never generate 0 as a random id

---
 idgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idgen.go b/idgen.go
index 1ac8771..4f1a68d 100644
--- a/idgen.go
+++ b/idgen.go
@@ -17,7 +17,7 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)-1) + 1)
 	return id
 }
 
-- 
2.43.0


From c20cb5310b9470cdd26af81e10044310c559642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 36/44] fix: refuse MessagePack that is nested too deep or
 shorter than it claims before decoding it

---
 serializers/msgpack.go | 52 ++++++++++++++++++++++++++++++++++++++++++
 serializers/payload.go |  4 ++++
 2 files changed, 56 insertions(+)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..e747d60 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,13 +1,19 @@
 package serializers
 
 import (
+	"bytes"
+	"errors"
+
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 
 	"github.com/xconnio/wampproto-go/messages"
 )
 
 const MsgPackSerializerID = 2
 
+const msgPackMaxNesting = 10000
+
 type MsgPackSerializer struct{}
 
 func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error) {
@@ -15,6 +21,10 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 }
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
+	if err := checkMsgPack(payload); err != nil {
+		return nil, err
+	}
+
 	var msgRaw []any
 	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
 		return nil, err
@@ -35,3 +45,45 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+// checkMsgPack walks over a payload without decoding it and refuses one that is nested too
+// deep or shorter than it claims to be, the decoder would recurse or allocate without bounds.
+func checkMsgPack(payload []byte) error {
+	decoder := msgpack.NewDecoder(bytes.NewReader(payload))
+	for remaining := []int{1}; len(remaining) > 0; {
+		last := len(remaining) - 1
+		if remaining[last] == 0 {
+			remaining = remaining[:last]
+			continue
+		}
+		remaining[last]--
+
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return err
+		}
+
+		var length int
+		switch {
+		case msgpcode.IsFixedArray(code), code == msgpcode.Array16, code == msgpcode.Array32:
+			length, err = decoder.DecodeArrayLen()
+		case msgpcode.IsFixedMap(code), code == msgpcode.Map16, code == msgpcode.Map32:
+			length, err = decoder.DecodeMapLen()
+			length *= 2
+		default:
+			err = decoder.Skip()
+		}
+		if err != nil {
+			return err
+		}
+
+		if length > 0 {
+			if len(remaining) > msgPackMaxNesting {
+				return errors.New("msgpack: exceeded max depth")
+			}
+			remaining = append(remaining, length)
+		}
+	}
+
+	return nil
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index d7c3ace..25b83a1 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -90,6 +90,10 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 		return nil, nil, nil
 	}
 
+	if err := checkMsgPack(b); err != nil {
+		return nil, nil, err
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From c6cbdd86499484bf8b22f2b55ac2fc7dc61913a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 37/44] fix: keep subscriptions to the same topic with
 different match policies apart

---
 broker.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/broker.go b/broker.go
index 5887e57..6750e6c 100644
--- a/broker.go
+++ b/broker.go
@@ -63,7 +63,7 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
-		subscription, ok := b.subscriptionsByTopic[v.Topic]
+		subscription, ok := b.subscriptionsByTopic[subscriptionKey(v.Match, v.Topic)]
 		if ok {
 			delete(subscription.Subscribers, id)
 		}
@@ -72,7 +72,7 @@ func (b *Broker) RemoveSession(id uint64) error {
 			continue
 		}
 
-		delete(b.subscriptionsByTopic, v.Topic)
+		delete(b.subscriptionsByTopic, subscriptionKey(v.Match, v.Topic))
 
 		if subscription.Match == MatchPrefix {
 			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
@@ -92,8 +92,18 @@ func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
 
-	_, exists := b.subscriptionsByTopic[topic]
-	return exists
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		if _, exists := b.subscriptionsByTopic[subscriptionKey(match, topic)]; exists {
+			return true
+		}
+	}
+
+	return false
+}
+
+// subscriptionKey tells apart subscriptions to the same topic with different match policies.
+func subscriptionKey(match, topic string) string {
+	return match + ":" + topic
 }
 
 func (b *Broker) AutoDisclosePublisher(disclose bool) {
@@ -114,7 +124,11 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		subscribe := msg.(*messages.Subscribe)
-		subscription, exists := b.subscriptionsByTopic[subscribe.Topic()]
+		match := util.ToString(subscribe.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
+		subscription, exists := b.subscriptionsByTopic[subscriptionKey(match, subscribe.Topic())]
 		if exists {
 			subscription.Subscribers[sessionID] = sessionID
 		} else {
@@ -123,7 +137,6 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Topic:       subscribe.Topic(),
 				Subscribers: map[uint64]uint64{sessionID: sessionID},
 			}
-			match := util.ToString(subscribe.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
 				subscription.Match = match
@@ -134,7 +147,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			default:
 				subscription.Match = MatchExact
 			}
-			b.subscriptionsByTopic[subscribe.Topic()] = subscription
+			b.subscriptionsByTopic[subscriptionKey(match, subscribe.Topic())] = subscription
 		}
 
 		b.subscriptionsBySession[sessionID][subscription.ID] = subscription
@@ -157,7 +170,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
+			delete(b.subscriptionsByTopic, subscriptionKey(subscription.Match, subscription.Topic))
 			if subscription.Match == MatchPrefix {
 				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 			}
@@ -191,7 +204,7 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 	publicationID := b.idGen.NextID()
 
 	var subscription *Subscription
-	subscription, exists = b.subscriptionsByTopic[publish.Topic()]
+	subscription, exists = b.subscriptionsByTopic[subscriptionKey(MatchExact, publish.Topic())]
 	if !exists || len(subscription.Subscribers) == 0 {
 		if b.prefixTree.Len() > 0 {
 			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
-- 
2.43.0


From 95aee1e6afb89d74d30cf68ab85c3910ded46815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 38/44] fix: refuse a WAMP-CRA challenge asking for an
 unbounded number of iterations

---
 auth/wampcra.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index af3b082..623a316 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,7 +16,11 @@ import (
 
 const MethodCRA = "wampcra"
 
-const maxKeyLength = 1 << 16
+const (
+	maxKeyLength = 1 << 16
+	// maxKeyIterations limits the hash iterations a challenge may ask for to derive the whole key.
+	maxKeyIterations = 1 << 24
+)
 
 type wampcraAuthenticator struct {
 	authID    string
@@ -64,6 +68,11 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 			return nil, fmt.Errorf("key length %d in challenge is too large", keylen)
 		}
 
+		blocks := max((keylen+sha256.Size-1)/sha256.Size, 1)
+		if iters > maxKeyIterations/blocks {
+			return nil, fmt.Errorf("%d iterations in challenge are too many", iters)
+		}
+
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
 		rawSecret = []byte(a.secret)
-- 
2.43.0


From 3fef2c0ed747a3df2ec9bf4a8d3e0e7e02935a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 39/44] fix: check and update a session's state in one step, so
 that concurrent replies are accepted once

---
 session.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/session.go b/session.go
index f57ec55..a874908 100644
--- a/session.go
+++ b/session.go
@@ -2,6 +2,7 @@ package wampproto
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/xconnio/wampproto-go/internal"
 	"github.com/xconnio/wampproto-go/messages"
@@ -11,6 +12,9 @@ import (
 type Session struct {
 	serializer serializers.Serializer
 
+	// held while a message is checked against the state and the state is updated
+	mu sync.Mutex
+
 	// data structures for RPC
 	callRequests       internal.Map[uint64, struct{}]
 	registerRequests   internal.Map[uint64, struct{}]
@@ -52,6 +56,9 @@ func (w *Session) SendMessage(msg messages.Message) ([]byte, error) {
 		return nil, fmt.Errorf("failed to serialize message: %w", err)
 	}
 
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
@@ -125,6 +132,9 @@ func (w *Session) Receive(data []byte) (messages.Message, error) {
 }
 
 func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
-- 
2.43.0


From 7609b1789a45fc1db9d7ae6282cca7a094154a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 40/44] fix: accept the rest of a progressive call after its
 procedure was unregistered

---
 session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session.go b/session.go
index a874908..ba1c8e1 100644
--- a/session.go
+++ b/session.go
@@ -174,6 +174,10 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	case messages.MessageTypeInvocation:
 		invocation := msg.(*messages.Invocation)
 		_, exists := w.registrations.Load(invocation.RegistrationID())
+		if !exists {
+			// a progressive call goes on after its procedure was unregistered
+			_, exists = w.invocationRequests.Load(invocation.RequestID())
+		}
 		if !exists {
 			return nil, fmt.Errorf("received INVOCATION for invalid registrationID")
 		}
-- 
2.43.0


From 77761d01dcf8c636c5790d648db0642a588c6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 41/44] fix: leave the options and details given to the binary
 message constructors as they are

---
 messages/call.go       | 7 ++++++-
 messages/invocation.go | 3 +++
 messages/result.go     | 7 ++++++-
 messages/yield.go      | 7 ++++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/messages/call.go b/messages/call.go
index 8fd924d..168eaf8 100644
--- a/messages/call.go
+++ b/messages/call.go
@@ -1,6 +1,9 @@
 package messages
 
-import "fmt"
+import (
+	"fmt"
+	"maps"
+)
 
 const MessageTypeCall uint64 = 48
 const MessageNameCall = "CALL"
@@ -94,6 +97,8 @@ func NewCallWithFields(fields CallFields) *Call { return &Call{CallFields: field
 
 func NewCallBinary(requestID uint64, options map[string]any, procedure string, payload []byte,
 	serializer uint64) *Call {
+	// the caller's map stays as it is
+	options = maps.Clone(options)
 	if options == nil {
 		options = make(map[string]any)
 	}
diff --git a/messages/invocation.go b/messages/invocation.go
index f964940..b832622 100644
--- a/messages/invocation.go
+++ b/messages/invocation.go
@@ -2,6 +2,7 @@ package messages
 
 import (
 	"fmt"
+	"maps"
 )
 
 const MessageTypeInvocation uint64 = 68
@@ -101,6 +102,8 @@ func NewInvocationWithFields(fields InvocationFields) *Invocation {
 func NewInvocationBinary(requestID, registrationID uint64, details map[string]any, payload []byte,
 	serializer uint64) *Invocation {
 
+	// the caller's map stays as it is
+	details = maps.Clone(details)
 	if details == nil {
 		details = make(map[string]any)
 	}
diff --git a/messages/result.go b/messages/result.go
index 1b5f082..05402d5 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -1,6 +1,9 @@
 package messages
 
-import "fmt"
+import (
+	"fmt"
+	"maps"
+)
 
 const MessageTypeResult uint64 = 50
 const MessageNameResult = "RESULT"
@@ -82,6 +85,8 @@ func NewResultWithFields(field ResultFields) *Result {
 }
 
 func NewResultBinary(requestID uint64, details map[string]any, payload []byte, serializer uint64) *Result {
+	// the caller's map stays as it is
+	details = maps.Clone(details)
 	if details == nil {
 		details = make(map[string]any)
 	}
diff --git a/messages/yield.go b/messages/yield.go
index 88b9162..09d8eaa 100644
--- a/messages/yield.go
+++ b/messages/yield.go
@@ -1,6 +1,9 @@
 package messages
 
-import "fmt"
+import (
+	"fmt"
+	"maps"
+)
 
 const MessageTypeYield uint64 = 70
 const MessageNameYield = "YIELD"
@@ -82,6 +85,8 @@ func NewYieldWithFields(fields YieldFields) *Yield {
 }
 
 func NewYieldBinary(requestID uint64, options map[string]any, payload []byte, serializer uint64) *Yield {
+	// the caller's map stays as it is
+	options = maps.Clone(options)
 	if options == nil {
 		options = make(map[string]any)
 	}
-- 
2.43.0


From f143c33543848585911a56661e381e449d20fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 42/44] fix: leave the authextra given to
 NewCryptoSignAuthenticator as it is

---
 auth/cryptosign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 921dbd6..b02a2da 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"maps"
 
 	"golang.org/x/crypto/nacl/sign"
 
@@ -37,6 +38,8 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	publicKey := privateKey.Public().(ed25519.PublicKey)
 	publicKeyHex := hex.EncodeToString(publicKey)
 
+	// the caller's map stays as it is
+	authExtra = maps.Clone(authExtra)
 	if authExtra == nil {
 		authExtra = map[string]any{}
 	}
-- 
2.43.0


From cfc343b74e5d711b5382d5ec9549415183f044ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 43/44] fix: read CBOR messages with as many elements and
 levels as are written

---
 serializers/cbor.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index 7649969..87252d9 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -2,6 +2,7 @@ package serializers
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/fxamacker/cbor/v2"
@@ -11,12 +12,20 @@ import (
 
 const CBORSerializerID = 3
 
+const cborMaxNesting = 10000
+
 var cborEncoder cbor.DecMode //nolint:gochecknoglobals
 
 type CBORSerializer struct{}
 
 func init() {
-	opt := cbor.DecOptions{DefaultMapType: reflect.TypeOf(map[string]any(nil))}
+	opt := cbor.DecOptions{
+		DefaultMapType: reflect.TypeOf(map[string]any(nil)),
+		// the encoder writes more than the decoder reads by default
+		MaxNestedLevels:  cborMaxNesting,
+		MaxArrayElements: math.MaxInt32,
+		MaxMapPairs:      math.MaxInt32,
+	}
 	cborEncoder, _ = opt.DecMode()
 }
 
-- 
2.43.0


From be8319fe24963f618b52dc5616856fdd60d5e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 44/44] fix: refuse bytes behind a MessagePack message or
 payload, as JSON and CBOR do

---
 serializers/msgpack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index e747d60..aaf8ad7 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -48,8 +48,10 @@ func (m *MsgPackSerializer) Static() bool {
 
 // checkMsgPack walks over a payload without decoding it and refuses one that is nested too
 // deep or shorter than it claims to be, the decoder would recurse or allocate without bounds.
+// It also refuses bytes behind the value, which the decoder would silently ignore.
 func checkMsgPack(payload []byte) error {
-	decoder := msgpack.NewDecoder(bytes.NewReader(payload))
+	reader := bytes.NewReader(payload)
+	decoder := msgpack.NewDecoder(reader)
 	for remaining := []int{1}; len(remaining) > 0; {
 		last := len(remaining) - 1
 		if remaining[last] == 0 {
@@ -85,5 +87,9 @@ func checkMsgPack(payload []byte) error {
 		}
 	}
 
+	if reader.Len() > 0 {
+		return errors.New("msgpack: unexpected bytes behind the value")
+	}
+
 	return nil
 }
-- 
2.43.0

