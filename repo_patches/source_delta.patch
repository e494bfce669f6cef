From 4343c0c024873a3f83e91f5630a2a35e0f36dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 01/27] fix: encode args and kwargs of ABORT

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From 5830f8f0f1067af24e9d4ab11e2040ec23154e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 02/27] fix: reject handshakes with either reserved byte set

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From 72de8a8672291a9712951ee66073fc8bfe76cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 03/27] fix: refuse rawsocket lengths that do not fit in 24
 bits

---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..a015613 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -94,6 +94,9 @@ def receive_handshake(data: bytes) -> Handshake:
 
 
 def int_to_bytes(i: int) -> bytes:
+    if i < 0 or i > 0xFFFFFF:
+        raise ValueError(f"length {i} does not fit in 3 bytes")
+
     return bytes(
         [
             (i >> 16) & 0xFF,
-- 
2.43.0


From 8f429275d1d65676d9796b2783b701deb4f78322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 04/27] fix: WAMPCRASaltedResponse.salt recursed into itself

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From f4915803e05cfbe8dd79118cfdb3dd61e7888f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 05/27] fix: reject an empty message list with ValueError

---
 wampproto/serializers/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..d23feb2 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,6 +18,9 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("invalid message, expected a non-empty list")
+
     message_type = message[0]
     if not isinstance(message_type, int):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
-- 
2.43.0


From 664921e99a920ce75161994db745625a4ee30279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 06/27] fix: reject payloads that are not a list

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..8633f52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From e6b39641189c45efe219fee3708fa3cfdb102453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 07/27] fix: dealer accepts an invocation error only from its
 callee, and forgets the call

---
 wampproto/dealer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..65efca3 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -180,10 +180,16 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"dealer: received unexpected error from session={session_id}")
+
+            del self.pending_calls[message.request_id]
+            del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 03f4e8836c795e29284db4f336d60eea609f242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 08/27] fix: every chunk of a progressive call reaches the same
 invocation of the same callee

---
 wampproto/dealer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 65efca3..7cd4b81 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -80,14 +80,12 @@ class Dealer:
 
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
-            else:
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            if invocation_id is None:
                 invocation_id = self.idgen.next()
                 self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+            else:
+                callee_id = self.pending_calls[invocation_id].callee_id
 
             details = {}
             if receive_progress:
-- 
2.43.0


From 015bed303ae0385b81eb96a8e192268e00e94f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 09/27] fix: dealer forgets the pending calls of a removed
 session

---
 wampproto/dealer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 7cd4b81..77fe6ff 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,11 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid == pending.caller_id or sid == pending.callee_id:
+                del self.pending_calls[invocation_id]
+                del self.call_to_invocation_id[(pending.caller_id, pending.request_id)]
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From 6cfecf4ba862eec2e8b8cc116f06f1b32d56e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 10/27] fix: a rejected authentication aborts the acceptor

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From c81073ce5a9770c1e23244c1c62c0c0987d72b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 11/27] fix: cryptosign HELLO without authextra is a ValueError

---
 wampproto/acceptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..36f90b8 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -99,7 +99,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = msg.authextra.get("pubkey") if msg.authextra is not None else None
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
-- 
2.43.0


From 486b9c528f6f3d0662ee61f012fdd7b2fd5940a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 12/27] fix: acceptor accepts a cryptosign signature only over
 the challenge it issued

---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 36f90b8..4cc0ae0 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -114,6 +114,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -148,7 +149,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..a3a37fb 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,14 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed_challenge = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    return challenge is None or signed_challenge == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From 2720aa38a53992efab456b1b1fcda8a4e9de62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 13/27] fix: draw authentication challenges from a
 cryptographic random source

---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index a3a37fb..ed1f65c 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..a0fa546 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From e6d28048977b3a6fc0372803802c690594d24e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 14/27] fix: WAMP-CRA challenge without challenge string is a
 ValueError

---
 wampproto/auth/wampcra.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index a0fa546..6ce46b6 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -27,7 +27,11 @@ class WAMPCRAAuthenticator(auth.IClientAuthenticator):
         else:
             raw_secret = self._secret.encode()
 
-        signed = sign_wampcra_challenge(challenge.extra["challenge"], raw_secret)
+        challenge_str = challenge.extra.get("challenge")
+        if challenge_str is None:
+            raise ValueError("challenge string missing in extra")
+
+        signed = sign_wampcra_challenge(challenge_str, raw_secret)
         return messages.Authenticate(AuthenticateFields(signed, {}))
 
 
-- 
2.43.0


From c453b43cb98b6f22223eb7834018ab349b2cb4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 15/27] fix: progressive results and yields keep their request
 outstanding

---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From df4e478414d126de851abea8a9ccb4c7dd624f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 16/27] fix: acceptor rejects unexpected messages and survives
 a received ABORT

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 4cc0ae0..69e3655 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -47,6 +47,8 @@ class Acceptor:
     def receive(self, data: bytes) -> (bytes, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -209,6 +211,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unknown message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From 8b46c49aa6e51148d19eb0ee0e60b86a3cfdb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 17/27] fix: joiner cannot be joined after an ABORT

---
 wampproto/joiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..a10ca28 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -18,6 +18,7 @@ class Joiner:
     STATE_HELLO_SENT = 1
     STATE_AUTHENTICATE_SENT = 2
     STATE_JOINED = 3
+    STATE_ABORTED = 4
 
     def __init__(
         self,
@@ -71,6 +72,7 @@ class Joiner:
             self._state = Joiner.STATE_AUTHENTICATE_SENT
             return authenticate
         elif isinstance(msg, messages.Abort):
+            self._state = Joiner.STATE_ABORTED
             raise ApplicationError(msg.reason, msg.args, msg.kwargs)
         else:
             raise ValueError("received unknown message")
-- 
2.43.0


From 4e28efc63fad5dd31516ee6210a24f8dc360ac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 18/27] fix: WELCOME names the authentication method that was
 used

---
 wampproto/acceptor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 69e3655..8e6b63d 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -164,6 +164,7 @@ class Acceptor:
                             self._roles,
                             authid=self._response.authid,
                             authrole=self._response.authrole,
+                            authmethod=self._auth_method,
                         )
                     )
                     self._session_details = SessionDetails(
@@ -182,6 +183,7 @@ class Acceptor:
                             self._roles,
                             authid=self._response.authid,
                             authrole=self._response.authrole,
+                            authmethod=self._auth_method,
                         )
                     )
                     self._session_details = SessionDetails(
@@ -201,7 +203,11 @@ class Acceptor:
                     self._state = Acceptor.STATE_WELCOME_SENT
                     welcome = messages.Welcome(
                         messages.WelcomeFields(
-                            self._session_id, self._roles, authid=response.authid, authrole=response.authrole
+                            self._session_id,
+                            self._roles,
+                            authid=response.authid,
+                            authrole=response.authrole,
+                            authmethod=self._auth_method,
                         )
                     )
                     self._session_details = SessionDetails(
-- 
2.43.0


From febf190820dda14b40aaf213f28440d48e28d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 19/27] fix: a malformed cryptosign signature verifies as false

---
 wampproto/auth/cryptosign.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index ed1f65c..c02e605 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -41,10 +41,11 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
 
 
 def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
+    verifying_key = nacl.signing.VerifyKey(public_key)
+
     try:
-        verifying_key = nacl.signing.VerifyKey(public_key)
         signed_challenge = verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     return challenge is None or signed_challenge == binascii.unhexlify(challenge)
-- 
2.43.0


From 33b8facf0edc9cd5fb9e3b7a234875bf13c9837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 20/27] fix: a non-ASCII WAMP-CRA signature verifies as false

---
 wampproto/auth/wampcra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 6ce46b6..864a577 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -80,7 +80,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 0683c0ab53082e1ae240c38332ae8e4811b2c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 21/27] fix: encoding a message with a payload serializer no
 longer changes the application's options

---
 wampproto/messages/call.py       | 2 +-
 wampproto/messages/invocation.py | 2 +-
 wampproto/messages/result.py     | 2 +-
 wampproto/messages/yield_.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..8eab000 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,7 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..c4949bf 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,7 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..7b117ff 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,7 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..3ac20e9 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,7 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From 53c917bd28afe1ff26d6ed6619a62b7634e0dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 22/27] fix: dealer forwards the payload of a YIELD and the
 binary flag of calls and yields

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 77fe6ff..0583c51 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -108,6 +108,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -131,7 +132,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From b7c701847b03be40b42d2f7a9d6cc1f60bf5fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 23/27] fix: cryptosign authenticators no longer write their
 public key into the application's dictionary

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index c02e605..c8d2c24 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -18,7 +18,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
         if "pubkey" not in self._auth_extra:
             public_key = self._private_key.verify_key.encode(HexEncoder).decode()
-            self._auth_extra["pubkey"] = public_key
+            self._auth_extra = {**self._auth_extra, "pubkey": public_key}
 
     def authenticate(self, challenge: messages.Challenge) -> messages.Authenticate:
         challenge_hex = challenge.extra.get("challenge")
-- 
2.43.0


From 97f81a6f570432bd2475e8e175436a504ba55923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 24/27] fix: a salted WAMP-CRA challenge carries salt,
 iterations and key length

---
 wampproto/acceptor.py      | 6 +++++-
 wampproto/auth/__init__.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 8e6b63d..1543c12 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -139,7 +139,11 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        extra.update(salt=response.salt, iterations=response.iterations, keylen=response.keylen)
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
-- 
2.43.0


From 64d7ae71c686daf084ef1f3c7dc3703c774d372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 25/27] fix: validate_session_id_or_raise refuses session id 0

---
 wampproto/messages/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/messages/util.py b/wampproto/messages/util.py
index 719d0db..35ed319 100644
--- a/wampproto/messages/util.py
+++ b/wampproto/messages/util.py
@@ -75,7 +75,7 @@ def validate_session_id_or_raise(session_id: int, error_msg: str, field: str | N
 
     # session id values lie between 1 and 2**53
     # https://wamp-proto.org/wamp_bp_latest_ietf.html#section-2.1.2-3
-    if session_id < 0 or session_id > 9007199254740992:
+    if session_id < 1 or session_id > 9007199254740992:
         if field is None:
             field = "Session ID"
         raise exceptions.ProtocolError(f"invalid {field} value for {error_msg}")
-- 
2.43.0


From 5c983efcefac7a471b4a55d5295f5512f9c1c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:03 +0000
Subject: [PATCH 26/27] fix: do not record a message as sent when it cannot be
 serialized

send_message recorded the request (or removed the answered invocation)
before serializing, so a message the serializer refused left a request
outstanding that was never sent, and a callee whose result could not be
expressed could not send another YIELD for the invocation.
---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..896cd18 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # serialize first: a message that cannot be serialized is never sent, so nothing may be recorded for it
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +50,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From 40c3058165441b64041257eb34eb90e309b5a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 27/27] fix: a continued call names the registration its
 invocation was made for

When the procedure changed hands while a progressive call was pending,
the next INVOCATION went to the pending callee but carried the id of the
new registration, which that callee refuses.
---
 wampproto/dealer.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 0583c51..a764e0d 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -11,6 +11,7 @@ class PendingInvocation:
     request_id: int
     caller_id: int
     callee_id: int
+    registration_id: int
     progress: bool
     receive_progress: bool
 
@@ -64,9 +65,18 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        registration_id: int,
+        progress: bool,
+        receive_progress: bool,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, registration_id, progress, receive_progress
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
@@ -78,6 +88,7 @@ class Dealer:
                 )
                 return types.MessageWithRecipient(err, session_id)
 
+            registration_id: int = registration.id
             callee_id: int = 0
             for session in registration.registrants.keys():
                 callee_id = session
@@ -88,9 +99,13 @@ class Dealer:
             invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
             if invocation_id is None:
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id, invocation_id, session_id, callee_id, registration_id, progress, receive_progress
+                )
             else:
+                # the callee knows the invocation by the registration it was made for
                 callee_id = self.pending_calls[invocation_id].callee_id
+                registration_id = self.pending_calls[invocation_id].registration_id
 
             details = {}
             if receive_progress:
@@ -102,7 +117,7 @@ class Dealer:
             invocation = messages.Invocation(
                 messages.InvocationFields(
                     request_id=invocation_id,
-                    registration_id=registration.id,
+                    registration_id=registration_id,
                     args=message.args,
                     kwargs=message.kwargs,
                     details=details,
-- 
2.43.0

