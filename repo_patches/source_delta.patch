From cbb39cea341d863f3192d1ec3f7327c3a39bbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 01/34] fix: reject a handshake packet that does not fit behind
 its length field

A length of buf.len() - 3 up to buf.len() passed the bound check and then
panicked when slicing the buffer, taking the whole server down.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From 44598096c8ecac971e4275b656103a460b668ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:47 +0000
Subject: [PATCH 02/34] fix: fail the handshake instead of panicking on
 unexpected messages

A malformed or unexpected message in place of KEX_ECDH_INIT or NEWKEYS, or
an ephemeral key of the wrong size, panicked and took down every client.
---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..0191540 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::BadEphermalKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -293,6 +294,8 @@ pub enum HandleNewClientError {
 	MessageParseError(MessageParseError),
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
+	ExpectedKeyExchangeEcdhInit,
+	BadEphermalKey,
 	UnsupportedAlgorithms,
 	ExpectedKeys,
 	#[allow(dead_code)]
-- 
2.43.0


From 4a261b3cfdf894ee18a48a2281a59bba2b595a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 03/34] fix: abort the key exchange if the shared secret is all
 zero

RFC 8731 section 3 requires it: a client key of small order otherwise
makes the keys of the connection predictable.
---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 0191540..57f891b 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -221,6 +221,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731 section 3: abort if the secret is the all-zero value.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::BadEphermalKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From 753847df9654022c52c919cbdbc5d5c57f9ba7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 04/34] fix: ignore the packet that follows a wrong key
 exchange guess

A client that sets first_kex_packet_follows and prefers another algorithm
sends one packet that RFC 4253 section 7.1 requires the server to ignore.
---
 nora_ssh/src/host.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 57f891b..93185a7 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -188,6 +188,16 @@ impl Host<p256::NistP256> {
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
 
+		// RFC 4253 section 7.1: ignore the packet that follows a wrong guess.
+		let wrong_guess = msg.first_kex_packet_follows
+			&& (msg.kex_algorithms.iter().next() != Some(ALGORITHM_NAMES[0])
+				|| msg.server_host_key_algorithms.iter().next() != Some(self.host_key.name()));
+		if wrong_guess {
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+		}
+
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
@@ -260,7 +270,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			3 + u64::from(wrong_guess),
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From 653b406a5f66f8081075e1694f9f2af68ca8a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 05/34] fix: find the identification line after any other line

An empty line, a line that is a prefix of "SSH-" or one that ends in more
than one CR hid the line after it, and "SSSH-" passed for "SSH-".
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..1104336 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,11 +30,10 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
+			(_, b'\r') => State::EolCr,
 			_ => State::Ignore,
 		};
 	}
-- 
2.43.0


From b65d55a25c960f5b967f4637f2ed956cec9a6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:34 +0000
Subject: [PATCH 06/34] fix: accept the host key of a key exchange reply

KeyBlob::parse already requires that nothing is left, and the blob is never
empty, so the second check rejected every KEX_ECDH_REPLY.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..fd95e53 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -79,7 +79,7 @@ impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From 894fa822d179d289e4f9b6052b6d8515464c8aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:49 +0000
Subject: [PATCH 07/34] fix: do not lose wakeups in LocalMutex

A waiter that was woken but found the lock taken again was never registered
a second time, and the single wakeup of a release could go to a waiter that
was dropped in the meantime. Both left a waiter asleep next to a free lock.
---
 nora_ssh/src/sync.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..67a0ba3 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,7 +17,7 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
@@ -36,20 +36,16 @@ impl<T> LocalMutex<T> {
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +73,9 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		// Any waiter may be gone already or may find the lock taken again, so wake all of them.
+		while let Some(w) = self.inner.pop_waker() {
+			w.wake();
+		}
 	}
 }
-- 
2.43.0


From 19e2f12acf147c9ac9c7894149e256b1c91e373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:48 +0000
Subject: [PATCH 08/34] fix: drop the connection instead of panicking during
 authentication

A read or write error, a malformed message, a message that is not expected
or a request for another service panicked and took down every client.
---
 nora_ssh/src/server.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..2f591da 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -101,9 +101,9 @@ where
 		let mut pkt_buf_mini = [0; 256];
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
@@ -115,9 +115,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,7 +126,7 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg.into_user_auth().and_then(UserAuth::into_request).ok_or(())?;
 
 			let auth = match ua.method {
 				Method::None => Auth::None,
@@ -160,7 +160,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -212,7 +212,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +234,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From a41da35ff65bd969bc38a36ba62d4e7846d6b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:48 +0000
Subject: [PATCH 09/34] fix: skip messages without meaning during
 authentication

RFC 4253 section 11 requires that IGNORE and DEBUG are accepted at any time.
Some clients send IGNORE next to a password to hide its length.
---
 nora_ssh/src/server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 2f591da..1742d15 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -126,6 +126,9 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
+			if let Message::Ignore(_) | Message::Unimplemented(_) | Message::Debug(_) = msg {
+				continue;
+			}
 			let ua = msg.into_user_auth().and_then(UserAuth::into_request).ok_or(())?;
 
 			let auth = match ua.method {
-- 
2.43.0


From b5839fb2471f3f96681f210eee748fa114be9674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 10/34] fix: refuse unsupported authentication methods instead
 of panicking

RFC 4252 section 5.1: the server rejects such a request with
SSH_MSG_USERAUTH_FAILURE. Any peer could take the server down with one.
---
 nora_ssh/src/server.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 1742d15..0b1abe8 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -132,7 +132,7 @@ where
 			let ua = msg.into_user_auth().and_then(UserAuth::into_request).ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -195,15 +195,20 @@ where
 					)
 					.unwrap_or_else(|| todo!());
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				// Not supported
+				Method::PasswordRenew { .. } => None,
+				Method::HostBased { .. } => None,
+				Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
-- 
2.43.0


From e193259878a46cfc60f4336446e51c65f1f1a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 11/34] fix: use large enough buffers for public key
 authentication

A key blob of more than about 200 bytes, e.g. that of a RSA key, panicked when
it was probed, and so did a signed request of more than about 1000 bytes.
---
 nora_ssh/src/server.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0b1abe8..05c52c9 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,7 +98,9 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		// A reply may repeat a public key blob of any size
+		let mut pkt_buf_mini = Vec::new();
+		pkt_buf_mini.resize(35000, 0);
 
 		// Wait for userauth
 		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -121,7 +123,9 @@ where
 		}
 
 		// Attempt authentication
-		let mut message = [0; 1024];
+		// The signed data is the request prefixed by the session identifier
+		let mut message = Vec::new();
+		message.resize(4 + session_identifier.len() + 35000, 0);
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -193,7 +197,7 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
 					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-- 
2.43.0


From 03ea8c237fccd9baecf564918e0a9c25032fcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:11 +0000
Subject: [PATCH 12/34] fix: do not panic on messages from an authenticated
 client

A malformed or unexpected message, an unknown channel, an unsupported request
(e.g. a subsystem or window-change) or a mere WINDOW_ADJUST panicked and took
down every client. Refuse unsupported requests, skip messages without meaning
and drop the connection otherwise.
---
 nora_ssh/src/server.rs | 91 ++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 05c52c9..aa3eff6 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -372,7 +372,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -394,14 +394,13 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
-					};
+					let req = SessionRequest::parse(r.ty, r.data);
 					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
+						Ok(SessionRequest::Shell) => {
 							let io = server
 								.handlers
 								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
@@ -417,7 +416,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Exec { command } => {
+						Ok(SessionRequest::Exec { command }) => {
 							let io = server
 								.handlers
 								.spawn(
@@ -437,16 +436,17 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
+						// Not supported
+						Ok(SessionRequest::Pty { .. })
+						| Ok(SessionRequest::X11 { .. })
+						| Ok(SessionRequest::Env { .. })
+						| Ok(SessionRequest::Subsystem { .. })
+						| Ok(SessionRequest::WindowChange { .. })
+						| Ok(SessionRequest::XonXoff { .. })
+						| Ok(SessionRequest::Signal { .. })
+						| Ok(SessionRequest::ExitStatus { .. })
+						| Ok(SessionRequest::ExitSignal { .. })
+						| Err(_) => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -454,12 +454,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -482,39 +476,45 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					if let Some(stdin) = ch.stdin.as_mut() {
+						stdin.write(d.data).await.map_err(ReceiveError::Io)?;
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel)?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				// TODO actually do something with the window
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Unimplemented(_) => {}
+				Message::Debug(_) => {}
+				// RFC 4252 section 5.1: silently ignore requests after success
+				Message::UserAuth(msg::UserAuth::Request(_)) => {}
+				// TODO support rekeying
+				Message::Channel(msg::Channel::ExtendedData(_))
+				| Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_)
+				| Message::UserAuth(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -570,6 +570,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(msg::MessageParseError),
+	UnknownChannel,
+	UnexpectedMessage,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From 827a5340ebdbbd10b574a77eee5f147aa0cb6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 13/34] fix: refuse a request whose process cannot be spawned

Report failure to the client instead of panicking if the handler cannot spawn
the process, or if the channel has a process already: RFC 4254 section 6.5
allows only one, and with two the channel was closed twice.
---
 nora_ssh/src/server.rs | 71 ++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index aa3eff6..b9b599a 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -377,6 +377,7 @@ where
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
+						spawned: false,
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -399,43 +400,23 @@ where
 						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
 					let req = SessionRequest::parse(r.ty, r.data);
-					let (msg, stdout, stderr, wait) = match req {
-						Ok(SessionRequest::Shell) => {
-							let io = server
-								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
-						}
-						Ok(SessionRequest::Exec { command }) => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
+					let io = match req {
+						// RFC 4254 section 6.5: only one process per channel
+						_ if ch.spawned => None,
+						Ok(SessionRequest::Shell) => server
+							.handlers
+							.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
+							.await
+							.ok(),
+						Ok(SessionRequest::Exec { command }) => server
+							.handlers
+							.spawn(
+								&mut *self.user.borrow_mut(),
+								SpawnType::Exec { command },
+								&[],
 							)
-						}
+							.await
+							.ok(),
 						// Not supported
 						Ok(SessionRequest::Pty { .. })
 						| Ok(SessionRequest::X11 { .. })
@@ -446,7 +427,22 @@ where
 						| Ok(SessionRequest::Signal { .. })
 						| Ok(SessionRequest::ExitStatus { .. })
 						| Ok(SessionRequest::ExitSignal { .. })
-						| Err(_) => (
+						| Err(_) => None,
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Some(io) => {
+							ch.spawned = true;
+							ch.stdin = io.stdin;
+							(
+								Message::Channel(msg::Channel::Success(msg::channel::Success {
+									recipient_channel: ch.peer_channel,
+								})),
+								io.stdout,
+								io.stderr,
+								Some(io.wait),
+							)
+						}
+						None => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -541,6 +537,7 @@ where
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
+	spawned: bool,
 	stdin: Option<Stdin>,
 }
 
-- 
2.43.0


From 87fb0facfbd67d2fd94f077a3f648aaa0ac0c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 14/34] fix: write all channel data to the process

A partial write lost the remainder of the data. Also, do not drop the
connection if the process closed its stdin, nor panic if its output cannot be
read.
---
 nora_ssh/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index b9b599a..5da9f10 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -308,7 +308,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Handle errors as EOF
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -476,7 +477,10 @@ where
 						.get_mut(d.recipient_channel)
 						.ok_or(ReceiveError::UnknownChannel)?;
 					if let Some(stdin) = ch.stdin.as_mut() {
-						stdin.write(d.data).await.map_err(ReceiveError::Io)?;
+						if stdin.write_all(d.data).await.is_err() {
+							// The process does not read its input anymore
+							ch.stdin.take();
+						}
 					}
 				}
 				Message::Channel(msg::Channel::Eof(e)) => {
-- 
2.43.0


From 0785e3b151d78705cb05bb39a71e16ac29097488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 15/34] fix: answer the close of a channel without a process

RFC 4254 section 5.3 requires a CLOSE in return. Also report the exit status
of a process that has neither stdout nor stderr.
---
 nora_ssh/src/server.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 5da9f10..83e6b80 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -459,16 +459,8 @@ where
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo { stdout, stderr, wait, channel });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
@@ -492,7 +484,16 @@ where
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
+					// If there is a process the channel is closed when it is done
+					if let Some(Channel { peer_channel, spawned: false, .. }) = ch {
+						let msg = Message::Channel(msg::Channel::Close(msg::channel::Close {
+							recipient_channel: peer_channel,
+						}));
+						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+							.await
+							.map_err(ReceiveError::Out)?;
+					}
 				}
 				// TODO actually do something with the window
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
-- 
2.43.0


From c8b29b959aa8d2c9863124a36b4d72bffbd4ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 16/34] fix: refuse channels that are not a session

Any type was confirmed as if it were a session.
---
 nora_ssh/src/server.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 83e6b80..479eca5 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -374,10 +374,23 @@ where
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg = Message::Channel(msg::Channel::OpenFailure(
+						msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "",
+							language: b"",
+						},
+					));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						spawned: false,
 						stdin: None,
 					});
-- 
2.43.0


From f9d0b93c5e88faf2591bb79693699bb82b267a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:13 +0000
Subject: [PATCH 17/34] fix: let clients send more than one window of data

The window was never adjusted, hence uploads hang after e.g. 2 MiB. Also, do
not advertise a maximum packet size that does not fit in the receive buffer.
---
 nora_ssh/src/server.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 479eca5..cc8963b 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -399,7 +399,8 @@ where
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
 							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							// Stay below the size of the receive buffer
+							max_packet_size: o.max_packet_size.min(32768),
 							data: &[],
 						},
 					));
@@ -487,6 +488,16 @@ where
 							ch.stdin.take();
 						}
 					}
+					let msg = Message::Channel(msg::Channel::WindowAdjust(
+						msg::channel::WindowAdjust {
+							recipient_channel: ch.peer_channel,
+							add_bytes: d.data.len().try_into().unwrap(),
+						},
+					));
+					drop(channels);
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
-- 
2.43.0


From aa31ab10a0faa775929a86d35eb6abbf28259adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 18/34] fix: do not lose packets, nor send anything after CLOSE

Whenever a process had output ready, the future that receives packets was
dropped, and with it the part of a packet (or of a reply) that it had already
handled: the connection broke if the other part arrived later. Let it run
next to the futures that forward output instead.

Also, the channel was closed at the end of stdout while stderr and the exit
status could still follow. Close it when everything is sent.
---
 nora_ssh/src/server.rs | 125 ++++++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 53 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index cc8963b..06c815f 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -299,76 +299,95 @@ where
 			.await
 	}
 
-	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
+	/// Forward the output of a process and close the channel when it is done.
+	async fn forward(
+		&self,
+		stdout: Option<Handlers::Stdout>,
+		stderr: Option<Handlers::Stderr>,
+		wait: Pin<Box<dyn Future<Output = u32>>>,
+		channel: u32,
+	) -> Result<(), OutError> {
+		async fn read<Io: AsyncRead + Unpin>(io: &mut Option<Io>) -> ([u8; 256], usize) {
 			let mut buf = [0; 256];
-			// Handle errors as EOF
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
+			let l = match io {
+				// Handle errors as EOF
+				Some(io) => io.read(&mut buf).await.unwrap_or(0),
+				None => 0,
+			};
+			(buf, l)
 		}
-		let mut buf = Vec::new();
-		buf.resize(35000, 0);
+		let forward_stdout = async {
+			let mut io = stdout;
+			loop {
+				let mut buf = [0; 512];
+				let (data, l) = read(&mut io).await;
+				if l == 0 {
+					return Ok(());
+				}
+				self.send_channel(&mut buf, channel, &data[..l]).await?;
+			}
+		};
+		let forward_stderr = async {
+			let mut io = stderr;
+			loop {
+				let mut buf = [0; 512];
+				let (data, l) = read(&mut io).await;
+				if l == 0 {
+					return Ok(());
+				}
+				self.send_channel(&mut buf, channel, &data[..l]).await?;
+			}
+		};
+		futures::try_join!(forward_stdout, forward_stderr)?;
+
+		// Nothing may follow CLOSE, so only send it when the process exited.
+		let mut buf = [0; 512];
+		self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
+			recipient_channel: channel,
+		})).serialize(buf).unwrap().0.len()).await?;
+		let status = wait.await;
+		let mut data = [0; 256];
+		let (ty, l) = SessionRequest::ExitStatus {
+			status,
+		}.serialize(&mut data).unwrap();
+		self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
+			recipient_channel: channel,
+			ty,
+			data: &data[..l],
+			want_reply: false,
+		})).serialize(buf).unwrap().0.len()).await?;
+		self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
+			recipient_channel: channel,
+		})).serialize(buf).unwrap().0.len()).await
+	}
+
+	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
+		let mut outputs = FuturesUnordered::new();
+		// Keep the same future until it is done: dropping it halfway loses (part of) a packet.
+		// For the same reason nothing is awaited below but in the select! itself.
+		let mut receive = Box::pin(self.receive(server).fuse());
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
+				ret = receive => match ret {
 					Ok(Action::Exit) => return Ok(()),
 					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
+						outputs.push(self.forward(stdout, stderr, wait, channel));
+						receive.set(self.receive(server).fuse());
 					}
 					Err(e) => return Err(e),
 				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-				}
+				ret = outputs.select_next_some() => ret.map_err(ReceiveError::Out)?,
 			}
 		}
 	}
 
 	async fn receive(
 		&self,
-		buf: &mut [u8],
 		server: &Server<Handlers>,
 	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
+		let mut buf = Vec::new();
+		buf.resize(35000, 0);
+		let buf = &mut *buf;
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
-- 
2.43.0


From 13f82d6445cc42776bcdf363f9047da5e543073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 19/34] fix: send stderr as extended data

It was mixed with stdout, which corrupts the output of commands. RFC 4254
section 5.2 reserves extended data of type 1 for it.
---
 nora_ssh/src/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 06c815f..12d764b 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -335,7 +335,13 @@ where
 				if l == 0 {
 					return Ok(());
 				}
-				self.send_channel(&mut buf, channel, &data[..l]).await?;
+				let msg = Message::Channel(msg::Channel::ExtendedData(msg::channel::ExtendedData {
+					recipient_channel: channel,
+					ty: 1, // SSH_EXTENDED_DATA_STDERR
+					data: &data[..l],
+				}));
+				self.send(&mut buf, |buf| msg.serialize(buf).unwrap().0.len())
+					.await?;
 			}
 		};
 		futures::try_join!(forward_stdout, forward_stderr)?;
-- 
2.43.0


From 308a8e6c8183e5aed2f2341d97c859eede5f99db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 20/34] fix: do not send more data than the window of a channel
 allows

The window and maximum packet size of the client were ignored. OpenSSH
disconnects if too much data is sent. Output is discarded once the client
closes the channel, as there is no window for it anymore.
---
 nora_ssh/src/server.rs | 49 +++++++++++++++++++++++++++++------------
 nora_ssh/src/sync.rs   | 50 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 84 insertions(+), 15 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 12d764b..0a6b897 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -2,7 +2,7 @@ use crate::{
 	arena::Arena,
 	auth::Auth,
 	host::{self, Host, HostKey, InError, OutError, SignKey},
-	sync::LocalMutex,
+	sync::{LocalMutex, Window},
 };
 use core::{cell::RefCell, future::Future, pin::Pin};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
@@ -22,6 +22,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 pub struct Server<Handlers>
@@ -306,6 +307,7 @@ where
 		stderr: Option<Handlers::Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
 		channel: u32,
+		window: Rc<Window>,
 	) -> Result<(), OutError> {
 		async fn read<Io: AsyncRead + Unpin>(io: &mut Option<Io>) -> ([u8; 256], usize) {
 			let mut buf = [0; 256];
@@ -324,7 +326,11 @@ where
 				if l == 0 {
 					return Ok(());
 				}
-				self.send_channel(&mut buf, channel, &data[..l]).await?;
+				let mut data = &data[..l];
+				while let Some(n) = window.take(data.len()).await {
+					self.send_channel(&mut buf, channel, &data[..n]).await?;
+					data = &data[n..];
+				}
 			}
 		};
 		let forward_stderr = async {
@@ -335,13 +341,17 @@ where
 				if l == 0 {
 					return Ok(());
 				}
-				let msg = Message::Channel(msg::Channel::ExtendedData(msg::channel::ExtendedData {
-					recipient_channel: channel,
-					ty: 1, // SSH_EXTENDED_DATA_STDERR
-					data: &data[..l],
-				}));
-				self.send(&mut buf, |buf| msg.serialize(buf).unwrap().0.len())
-					.await?;
+				let mut data = &data[..l];
+				while let Some(n) = window.take(data.len()).await {
+					let msg = Message::Channel(msg::Channel::ExtendedData(msg::channel::ExtendedData {
+						recipient_channel: channel,
+						ty: 1, // SSH_EXTENDED_DATA_STDERR
+						data: &data[..n],
+					}));
+					self.send(&mut buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await?;
+					data = &data[n..];
+				}
 			}
 		};
 		futures::try_join!(forward_stdout, forward_stderr)?;
@@ -376,8 +386,8 @@ where
 			select! {
 				ret = receive => match ret {
 					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						outputs.push(self.forward(stdout, stderr, wait, channel));
+					Ok(Action::NewIo { stdout, stderr, wait, channel, window }) => {
+						outputs.push(self.forward(stdout, stderr, wait, channel, window));
 						receive.set(self.receive(server).fuse());
 					}
 					Err(e) => return Err(e),
@@ -417,6 +427,7 @@ where
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session,
 						spawned: false,
+						window: Rc::new(Window::new(o.window_size, o.max_packet_size)),
 						stdin: None,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
@@ -492,6 +503,7 @@ where
 						),
 					};
 					let channel = ch.peer_channel;
+					let window = ch.window.clone();
 					drop(channels);
 					if r.want_reply {
 						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
@@ -499,7 +511,7 @@ where
 							.map_err(ReceiveError::Out)?;
 					}
 					if let Some(wait) = wait {
-						return Ok(Action::NewIo { stdout, stderr, wait, channel });
+						return Ok(Action::NewIo { stdout, stderr, wait, channel, window });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
@@ -534,6 +546,7 @@ where
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
+					ch.iter().for_each(|ch| ch.window.close());
 					// If there is a process the channel is closed when it is done
 					if let Some(Channel { peer_channel, spawned: false, .. }) = ch {
 						let msg = Message::Channel(msg::Channel::Close(msg::channel::Close {
@@ -544,8 +557,14 @@ where
 							.map_err(ReceiveError::Out)?;
 					}
 				}
-				// TODO actually do something with the window
-				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(w)) => {
+					self.channels
+						.borrow_mut()
+						.get_mut(w.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?
+						.window
+						.add(w.add_bytes);
+				}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
 				Message::Unimplemented(_) => {}
@@ -581,6 +600,7 @@ where
 		stderr: Option<Stderr>,
 		wait: Pin<Box<dyn Future<Output = u32>>>,
 		channel: u32,
+		window: Rc<Window>,
 	},
 }
 
@@ -592,6 +612,7 @@ where
 	#[allow(dead_code)]
 	ty: ChannelType,
 	spawned: bool,
+	window: Rc<Window>,
 	stdin: Option<Stdin>,
 }
 
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 67a0ba3..0316f37 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -1,6 +1,6 @@
 use core::{
 	cell::{Cell, RefCell, RefMut},
-	future::Future,
+	future::{poll_fn, Future},
 	ops::{Deref, DerefMut},
 	pin::Pin,
 	task::{Context, Poll, Waker},
@@ -79,3 +79,51 @@ impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 		}
 	}
 }
+
+/// The amount of data a peer is willing to receive on a channel.
+pub struct Window {
+	/// `None` if the channel is closed.
+	size: Cell<Option<u32>>,
+	max_packet_size: u32,
+	queue: Cell<Vec<Waker>>,
+}
+
+impl Window {
+	pub fn new(size: u32, max_packet_size: u32) -> Self {
+		Self { size: Cell::new(Some(size)), max_packet_size, queue: Cell::new(Vec::new()) }
+	}
+
+	fn set(&self, size: Option<u32>) {
+		self.size.set(size);
+		self.queue.take().into_iter().for_each(Waker::wake);
+	}
+
+	pub fn add(&self, size: u32) {
+		self.set(self.size.get().map(|s| s.saturating_add(size)));
+	}
+
+	pub fn close(&self) {
+		self.set(None);
+	}
+
+	/// Wait until some of `len` bytes may be sent. Returns how many,
+	/// or `None` if there are none or if the channel is closed.
+	pub async fn take(&self, len: usize) -> Option<usize> {
+		let len = u32::try_from(len).unwrap().min(self.max_packet_size);
+		poll_fn(|cx| match self.size.get() {
+			Some(size) if len > 0 => {
+				let n = size.min(len);
+				if n > 0 {
+					self.size.set(Some(size - n));
+					return Poll::Ready(Some(n.try_into().unwrap()));
+				}
+				let mut q = self.queue.take();
+				q.push(cx.waker().clone());
+				self.queue.set(q);
+				Poll::Pending
+			}
+			_ => Poll::Ready(None),
+		})
+		.await
+	}
+}
-- 
2.43.0


From 35c9f914634c377ca0c4c46abc7b14d5f679a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 21/34] fix: limit how much data a WINDOW_ADJUST may have to
 wait for

Data is handled in order, so the process must have read what was sent before a
WINDOW_ADJUST. With a large window a process that echoes its input could wait
for that same WINDOW_ADJUST to write its output.
---
 nora_ssh/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0a6b897..e986dac 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -434,7 +434,8 @@ where
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
+							// Keep it small: a WINDOW_ADJUST waits behind the data before it
+							window_size: o.window_size.min(65536),
 							// Stay below the size of the receive buffer
 							max_packet_size: o.max_packet_size.min(32768),
 							data: &[],
-- 
2.43.0


From 7c6389fc69372e8e8cd6680a1bb6c22f7bcad070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 22/34] fix: do not let a client take nora_sshd down

A password, a user name that is not UTF-8, an empty command or one that does
not exist panicked.
---
 nora_sshd/src/main.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..5f880df 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,7 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
@@ -90,7 +88,7 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				Ok(User { _name: core::str::from_utf8(user).map_err(|_| ())?.into(), shell: None })
 			}
 		}
 	}
@@ -107,13 +105,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -128,14 +126,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 67a2c08d7966fd1c2d6de30799d5ccd0b08a138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 23/34] fix: do not report success if a signal ended the
 process

---
 nora_sshd/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 5f880df..bd96f12 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -101,7 +101,13 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				let status = wait.await.unwrap();
+				// Like shells do, as there is no exit code if a signal ended the process
+				status
+					.code()
+					.unwrap_or_else(|| 128 + status.signal().unwrap_or(0)) as u32
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 9403152e020deb7900ca1dbaa7f16748985182a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 24/34] fix: do not create files outside the target directory

The sender could pick any file with an absolute path or with '..'.
---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..c4fecb6 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -134,6 +134,10 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					// Do not let the sender pick another directory.
+					if matches!(file, "" | "." | "..") || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From 3c11dae668fb197c534f511455b53f27da316a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:29 +0000
Subject: [PATCH 25/34] fix: keep the whole name of a file that is received

A name with a space was cut off at that space, and the file of a header that
was cut off itself was created nonetheless.
---
 nora_scp/src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index c4fecb6..456ccca 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -90,13 +90,11 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let header = header.strip_suffix('\n').ok_or("incomplete header")?;
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
-				}
+				let file = parts.next().ok_or("missing file")?;
 				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
-- 
2.43.0


From 5a4fc14f58f678fecd6841b5cb4503382a2b3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:29 +0000
Subject: [PATCH 26/34] fix: do not exit with success if scp failed

---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 456ccca..d4a2c6c 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1);
+		}
 	}
 }
 
-- 
2.43.0


From 8299e52ff29a54e2f8897b8b985a93ea112f66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:29 +0000
Subject: [PATCH 27/34] fix: follow the protocol when sending files

The size in the header was always 42, and neither the '\\0' after the contents
was sent nor those of the receiver were awaited.
---
 nora_scp/src/main.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index d4a2c6c..1cb35a8 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -168,22 +168,44 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
 	let mut buf = [0; 1 << 15];
+	let mut stdin = io::stdin().lock();
+	let mut wait_ready = || -> Result<(), Box<dyn Error>> {
+		let mut ack = [0xff];
+		stdin.read_exact(&mut ack)?;
+		if ack != [0] {
+			Err("expected '\\0'")?;
+		}
+		Ok(())
+	};
+	wait_ready()?;
 	for path in from {
-		let mut f = File::open(path)?;
+		let f = File::open(path)?;
+		let size = f.metadata()?.len();
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
 			.unwrap()
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
+		if name.contains('\n') {
+			Err(format!("cannot send file name {:?}", name))?;
+		}
 		let mut out = io::stdout().lock();
+		writeln!(out, "C{:04o} {} {}", 0o644, size, name)?;
+		out.flush()?;
+		wait_ready()?;
+		// The file may have changed in the meantime.
+		let mut f = f.take(size);
 		loop {
 			match f.read(&mut buf)? {
+				0 if f.limit() > 0 => Err("file is truncated")?,
 				0 => break,
 				n => out.write_all(&buf[..n])?,
 			}
 		}
+		out.write_all(b"\0")?;
+		out.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From d367a91848d513ae595440679d01f5a5c52d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:56 +0000
Subject: [PATCH 28/34] fix: close the input of a process that is started after
 end-of-file

---
 nora_ssh/src/server.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index e986dac..c2a5899 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -427,6 +427,7 @@ where
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session,
 						spawned: false,
+						eof: false,
 						window: Rc::new(Window::new(o.window_size, o.max_packet_size)),
 						stdin: None,
 					});
@@ -484,7 +485,8 @@ where
 					let (msg, stdout, stderr, wait) = match io {
 						Some(io) => {
 							ch.spawned = true;
-							ch.stdin = io.stdin;
+							// There is no input if it ended already
+							ch.stdin = io.stdin.filter(|_| !ch.eof);
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
 									recipient_channel: ch.peer_channel,
@@ -538,12 +540,12 @@ where
 						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
+					let mut channels = self.channels.borrow_mut();
+					let ch = channels
 						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?
-						.stdin
-						.take();
+						.ok_or(ReceiveError::UnknownChannel)?;
+					ch.eof = true;
+					ch.stdin.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
@@ -613,6 +615,8 @@ where
 	#[allow(dead_code)]
 	ty: ChannelType,
 	spawned: bool,
+	/// The peer will not send any more data.
+	eof: bool,
 	window: Rc<Window>,
 	stdin: Option<Stdin>,
 }
-- 
2.43.0


From edda47a0854a6f67fec31b52ac5ec6857e43a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:44 +0000
Subject: [PATCH 29/34] fix: send nothing on a channel after its close

---
 nora_ssh/src/server.rs | 31 +++++++++++++++++++++++++++----
 nora_ssh/src/sync.rs   |  4 ++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index c2a5899..12022e8 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -286,6 +286,24 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	/// Send a message about a channel unless the channel was closed.
+	async fn send_if_open<F>(
+		&self,
+		buf: &mut [u8],
+		window: &Window,
+		fill: F,
+	) -> Result<(), OutError>
+	where
+		F: FnOnce(&mut [u8]) -> usize,
+	{
+		let mut l = self.write.lock().await;
+		if window.is_closed() {
+			return Ok(());
+		}
+		let (wr, enc) = &mut *l;
+		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
+	}
+
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
@@ -372,9 +390,13 @@ where
 			data: &data[..l],
 			want_reply: false,
 		})).serialize(buf).unwrap().0.len()).await?;
-		self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
+		let mut l = self.write.lock().await;
+		// Replies that did not get the lock yet are not sent anymore
+		window.close();
+		let (wr, enc) = &mut *l;
+		enc.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
 			recipient_channel: channel,
-		})).serialize(buf).unwrap().0.len()).await
+		})).serialize(buf).unwrap().0.len(), wr, &mut *self.rng.borrow_mut()).await
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
@@ -509,7 +531,7 @@ where
 					let window = ch.window.clone();
 					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						self.send_if_open(buf, &window, |buf| msg.serialize(buf).unwrap().0.len())
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
@@ -534,8 +556,9 @@ where
 							add_bytes: d.data.len().try_into().unwrap(),
 						},
 					));
+					let window = ch.window.clone();
 					drop(channels);
-					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+					self.send_if_open(buf, &window, |buf| msg.serialize(buf).unwrap().0.len())
 						.await
 						.map_err(ReceiveError::Out)?;
 				}
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 0316f37..b438cf9 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -106,6 +106,10 @@ impl Window {
 		self.set(None);
 	}
 
+	pub fn is_closed(&self) -> bool {
+		self.size.get().is_none()
+	}
+
 	/// Wait until some of `len` bytes may be sent. Returns how many,
 	/// or `None` if there are none or if the channel is closed.
 	pub async fn take(&self, len: usize) -> Option<usize> {
-- 
2.43.0


From d8f91d9f13f892a48ee3ff5ee6672c33762ee79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:54 +0000
Subject: [PATCH 30/34] fix: reject data that is too short to hold a length and
 a tag

---
 nora_ssh_core/src/cipher/chacha20poly1305.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_ssh_core/src/cipher/chacha20poly1305.rs b/nora_ssh_core/src/cipher/chacha20poly1305.rs
index c1cd436..1878c38 100644
--- a/nora_ssh_core/src/cipher/chacha20poly1305.rs
+++ b/nora_ssh_core/src/cipher/chacha20poly1305.rs
@@ -50,6 +50,9 @@ impl ChaCha20Poly1305 {
 	}
 
 	fn authenticate(&self, data: &[u8]) -> bool {
+		if data.len() < 4 + TAG_SIZE {
+			return false;
+		}
 		let (data, tag) = data.split_at(data.len() - TAG_SIZE);
 		self.compute_tag(data) == Tag::new(<[u8; TAG_SIZE]>::try_from(tag).unwrap().into())
 	}
-- 
2.43.0


From 883d5bf864fe02bb330a68a09a109610672175e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:53 +0000
Subject: [PATCH 31/34] fix: keep serving if a connection cannot be accepted

---
 nora_sshd/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index bd96f12..ae2624c 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -52,7 +52,13 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// e.g. too many open files, or the client is already gone
+				Err(_) => async_std::task::sleep(std::time::Duration::from_millis(100)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From 3294cdc0686c9835693f1bea43e787f7e70e6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 32/34] fix: send a random cookie

Every KEXINIT had the same one, though RFC 4253 7.1 requires it to be random.
---
 nora_ssh/src/host.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 93185a7..daaae09 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -112,6 +112,8 @@ impl Host<p256::NistP256> {
 		identifier::send(self.identifier, write)
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		let mut cookie = [0; 16];
+		rng.fill_bytes(&mut cookie);
 		let mut host_pkt = [0; 256];
 		let host_pkt = Packet::wrap(
 			&mut host_pkt,
@@ -119,7 +121,7 @@ impl Host<p256::NistP256> {
 			true,
 			|buf| {
 				Message::KeyExchangeInit(KeyExchangeInit {
-					cookie: b"nomnommunchmunch",
+					cookie: &cookie,
 					kex_algorithms: b"curve25519-sha256".try_into().unwrap(),
 					server_host_key_algorithms: b"ecdsa-sha2-nistp256".try_into().unwrap(),
 					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
-- 
2.43.0


From ea6b99efeafc649bb39c4715e5bdaffb704253c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 33/34] fix: let others go on while a peer or a process writes
 without pause

A connection that always has something to read, or a process that always has
output, kept the task of the server to itself: a client that sends lines
without end before it identifies itself stopped all others.
---
 nora_ssh/src/host.rs       |  3 +++
 nora_ssh/src/identifier.rs |  3 +++
 nora_ssh/src/server.rs     |  4 +++-
 nora_ssh/src/sync.rs       | 14 ++++++++++++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index daaae09..2da5d5e 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -1,6 +1,7 @@
 use crate::{
 	identifier::{self, ParseIdentError},
 	packet::{self, PacketParseError},
+	sync::yield_now,
 };
 use ecdsa::{
 	hazmat::SignPrimitive, signature::Signer, PrimeCurve, SignatureSize, SigningKey, VerifyingKey,
@@ -363,6 +364,8 @@ impl<D: Cipher> In<D> {
 	where
 		Io: AsyncReadExt + Unpin,
 	{
+		// The peer may send without pause
+		yield_now().await;
 		let (len, data) = buf.split_at_mut(4);
 		io.read_exact(len).await.map_err(InError::Read)?;
 		let lenb = self
diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index 1104336..43428bb 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -1,3 +1,4 @@
+use crate::sync::yield_now;
 use core::slice;
 use futures::io;
 use nora_ssh_core::identifier::Identifier;
@@ -23,6 +24,8 @@ where
 	}
 	let mut state = State::EolLf;
 	loop {
+		// There may be any number of lines
+		yield_now().await;
 		let mut b = 0;
 		io.read_exact(slice::from_mut(&mut b))
 			.await
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 12022e8..e18d312 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -2,7 +2,7 @@ use crate::{
 	arena::Arena,
 	auth::Auth,
 	host::{self, Host, HostKey, InError, OutError, SignKey},
-	sync::{LocalMutex, Window},
+	sync::{yield_now, LocalMutex, Window},
 };
 use core::{cell::RefCell, future::Future, pin::Pin};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
@@ -328,6 +328,8 @@ where
 		window: Rc<Window>,
 	) -> Result<(), OutError> {
 		async fn read<Io: AsyncRead + Unpin>(io: &mut Option<Io>) -> ([u8; 256], usize) {
+			// The process may write without pause
+			yield_now().await;
 			let mut buf = [0; 256];
 			let l = match io {
 				// Handle errors as EOF
diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index b438cf9..5d4768c 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -6,6 +6,20 @@ use core::{
 	task::{Context, Poll, Waker},
 };
 
+/// Let other tasks run. To be used by loops whose I/O may always be ready.
+pub async fn yield_now() {
+	let mut yielded = false;
+	poll_fn(|cx| {
+		if yielded {
+			return Poll::Ready(());
+		}
+		yielded = true;
+		cx.waker().wake_by_ref();
+		Poll::Pending
+	})
+	.await
+}
+
 pub struct LocalMutex<T> {
 	inner: RefCell<T>,
 	queue: Cell<Vec<Waker>>,
-- 
2.43.0


From 2ca1dafa46b79e000767a885a170aef3c0543f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 34/34] fix: pass the write lock on in the order in which it
 was asked for

While a peer reads slowly, two tasks that always have output handed the lock to
each other and the other processes of that connection sent nothing.
---
 nora_ssh/src/sync.rs | 69 +++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 5d4768c..0739787 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -5,6 +5,7 @@ use core::{
 	pin::Pin,
 	task::{Context, Poll, Waker},
 };
+use std::collections::VecDeque;
 
 /// Let other tasks run. To be used by loops whose I/O may always be ready.
 pub async fn yield_now() {
@@ -20,49 +21,72 @@ pub async fn yield_now() {
 	.await
 }
 
+/// A mutex that is passed on in the order in which it was asked for.
 pub struct LocalMutex<T> {
 	inner: RefCell<T>,
-	queue: Cell<Vec<Waker>>,
+	queue: RefCell<VecDeque<(u64, Waker)>>,
+	next_ticket: Cell<u64>,
 }
 
 impl<T> LocalMutex<T> {
 	pub fn new(value: T) -> Self {
-		Self { inner: RefCell::new(value), queue: Cell::new(Vec::new()) }
+		Self {
+			inner: RefCell::new(value),
+			queue: RefCell::new(VecDeque::new()),
+			next_ticket: Cell::new(0),
+		}
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self }
-	}
-
-	fn push_waker(&self, waker: Waker) {
-		let mut q = self.queue.take();
-		q.push(waker);
-		self.queue.set(q);
+		LocalMutexGuardFuture { inner: self, ticket: None }
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn wake_first(&self) {
+		let waker = self.queue.borrow().front().map(|(_, w)| w.clone());
+		waker.map(Waker::wake);
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
+	/// The place in the queue, if any.
+	ticket: Option<u64>,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-		match self.inner.inner.try_borrow_mut() {
-			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
-			Err(_) => {
-				self.inner.push_waker(cx.waker().clone());
-				Poll::Pending
+	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+		let inner = self.inner;
+		let mut queue = inner.queue.borrow_mut();
+		if queue.front().map(|(t, _)| *t) == self.ticket {
+			if let Ok(lock) = inner.inner.try_borrow_mut() {
+				queue.pop_front();
+				self.ticket = None;
+				return Poll::Ready(LocalMutexGuard { inner, lock });
+			}
+		}
+		let ticket = self.ticket;
+		match queue.iter_mut().find(|(t, _)| Some(*t) == ticket) {
+			Some((_, waker)) => *waker = cx.waker().clone(),
+			None => {
+				let ticket = inner.next_ticket.get();
+				inner.next_ticket.set(ticket + 1);
+				self.ticket = Some(ticket);
+				queue.push_back((ticket, cx.waker().clone()));
 			}
 		}
+		Poll::Pending
+	}
+}
+
+impl<T> Drop for LocalMutexGuardFuture<'_, T> {
+	fn drop(&mut self) {
+		if let Some(ticket) = self.ticket {
+			self.inner.queue.borrow_mut().retain(|(t, _)| *t != ticket);
+			// It may have been its turn.
+			self.inner.wake_first();
+		}
 	}
 }
 
@@ -87,10 +111,7 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		// Any waiter may be gone already or may find the lock taken again, so wake all of them.
-		while let Some(w) = self.inner.pop_waker() {
-			w.wake();
-		}
+		self.inner.wake_first();
 	}
 }
 
-- 
2.43.0

