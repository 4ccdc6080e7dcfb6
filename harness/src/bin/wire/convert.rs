//! Between the library's types and the values of spec/Wire.tla.
use nora_ssh_core::{
	data::{AsciiStr, NameList},
	message::{
		channel::{
			self,
			session::{SessionRequest, Signal},
			Channel, OpenFailureReason,
		},
		key_exchange::ecdh,
		userauth::{self, Method, UserAuth},
		Debug, Disconnect, Ignore, KeyExchangeEcdhInit, KeyExchangeEcdhReply, KeyExchangeInit, Message, NewKeys,
		ServiceAccept, ServiceRequest, Unimplemented,
	},
};
use serde_json::{json, Value};

pub fn bytes(v: &Value) -> Vec<u8> {
	v.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// One field of a value.
pub enum JV {
	Bool(bool),
	B(Vec<u8>),
	L(Vec<Vec<u8>>),
}

impl JV {
	pub fn list(v: &Value) -> Vec<JV> {
		v.as_array()
			.unwrap()
			.iter()
			.map(|x| match x {
				Value::Bool(b) => JV::Bool(*b),
				Value::Array(a) if a.first().map_or(false, |x| x.is_array()) => JV::L(a.iter().map(bytes).collect()),
				x => JV::B(bytes(x)),
			})
			.collect()
	}
	fn bool(&self) -> bool {
		match self {
			JV::Bool(b) => *b,
			_ => panic!("harness: bool"),
		}
	}
	fn b(&self) -> &[u8] {
		match self {
			JV::B(b) => b,
			_ => panic!("harness: bytes"),
		}
	}
	fn u(&self) -> u32 {
		u32::from_be_bytes(self.b().try_into().unwrap())
	}
	fn s(&self) -> &str {
		std::str::from_utf8(self.b()).unwrap()
	}
	fn l(&self, i: usize) -> &[u8] {
		match self {
			JV::L(l) => &l[i],
			_ => panic!("harness: list"),
		}
	}
	fn names(&self) -> NameList<'_> {
		NameList::try_from(self.b()).expect("harness: names")
	}
}

pub fn with_message<R>(t: &str, v: &[JV], f: impl FnOnce(Message<'_>) -> R) -> R {
	let ua = |method| UserAuth::Request(userauth::Request { user: v[0].b(), service: v[1].b(), method });
	let cookie: [u8; 16];
	let m = match t {
		"Disconnect" => Message::Disconnect(Disconnect { reason: v[0].u(), description: v[1].b(), language: v[2].b() }),
		"Ignore" => Message::Ignore(Ignore { data: v[0].b() }),
		"Unimplemented" => Message::Unimplemented(Unimplemented { sequence_number: v[0].u() }),
		"Debug" => Message::Debug(Debug { always_display: v[0].bool(), message: v[1].s(), language: v[2].b() }),
		"ServiceRequest" => Message::ServiceRequest(ServiceRequest::new(v[0].b())),
		"ServiceAccept" => Message::ServiceAccept(ServiceAccept::new(v[0].b())),
		"KexInit" => {
			cookie = v[0].b().try_into().unwrap();
			Message::KeyExchangeInit(KeyExchangeInit {
				cookie: &cookie,
				kex_algorithms: v[1].names(),
				server_host_key_algorithms: v[2].names(),
				encryption_algorithms_client_to_server: v[3].names(),
				encryption_algorithms_server_to_client: v[4].names(),
				mac_algorithms_client_to_server: v[5].names(),
				mac_algorithms_server_to_client: v[6].names(),
				compression_algorithms_client_to_server: v[7].names(),
				compression_algorithms_server_to_client: v[8].names(),
				languages_client_to_server: v[9].names(),
				languages_server_to_client: v[10].names(),
				first_kex_packet_follows: v[11].bool(),
			})
		}
		"NewKeys" => Message::NewKeys(NewKeys),
		"EcdhInit" => Message::KeyExchangeEcdhInit(KeyExchangeEcdhInit { client_ephermal_public_key: v[0].b() }),
		"EcdhReply" => Message::KeyExchangeEcdhReply(KeyExchangeEcdhReply {
			server_public_key: ecdh::Key { name: v[0].l(0), blob: ecdh::KeyBlob { identifier: v[0].l(1), q: v[0].l(2) } },
			server_ephermal_public_key: v[1].b(),
			exchange_hash_signature: ecdh::Signature {
				name: v[2].l(0),
				blob: ecdh::SignatureBlob { r: v[2].l(1), s: v[2].l(2) },
			},
		}),
		"AuthNone" => Message::UserAuth(ua(Method::None)),
		"AuthProbe" => Message::UserAuth(ua(Method::PublicKeyBlob { algorithm: v[2].b(), blob: v[3].b() })),
		"AuthSigned" => {
			Message::UserAuth(ua(Method::PublicKeySigned { algorithm: v[2].b(), key: v[3].b(), signature: v[4].b() }))
		}
		"AuthPassword" => Message::UserAuth(ua(Method::Password { password: v[2].b() })),
		"AuthRenew" => Message::UserAuth(ua(Method::PasswordRenew { old_password: v[2].b(), new_password: v[3].b() })),
		"AuthHost" => Message::UserAuth(ua(Method::HostBased {
			algorithm: v[2].b(),
			key_and_certificates: v[3].b(),
			host_name: AsciiStr::try_from(v[4].b()).expect("harness: ascii"),
			user_name: v[5].s(),
			signature: v[6].b(),
		})),
		"AuthOther" => Message::UserAuth(ua(Method::Other { method: v[2].b(), data: v[3].b() })),
		"AuthFailure" => Message::UserAuth(UserAuth::Failure(userauth::Failure {
			alternative_methods: v[0].names(),
			partial_success: v[1].bool(),
		})),
		"AuthSuccess" => Message::UserAuth(UserAuth::Success(userauth::Success)),
		"AuthBanner" => Message::UserAuth(UserAuth::Banner(userauth::Banner { message: v[0].b(), language: v[1].b() })),
		"AuthPkOk" => {
			Message::UserAuth(UserAuth::PublicKeyOk(userauth::PublicKeyOk { algorithm: v[0].b(), blob: v[1].b() }))
		}
		"Open" => Message::Channel(Channel::Open(channel::Open {
			ty: v[0].b(),
			sender_channel: v[1].u(),
			window_size: v[2].u(),
			max_packet_size: v[3].u(),
		})),
		"OpenConf" => Message::Channel(Channel::OpenConfirmation(channel::OpenConfirmation {
			recipient_channel: v[0].u(),
			sender_channel: v[1].u(),
			window_size: v[2].u(),
			max_packet_size: v[3].u(),
			data: v[4].b(),
		})),
		"OpenFail" => Message::Channel(Channel::OpenFailure(channel::OpenFailure {
			recipient_channel: v[0].u(),
			reason: match v[1].u() {
				1 => OpenFailureReason::AdminstrativelyProhibited,
				2 => OpenFailureReason::ConnectFailed,
				3 => OpenFailureReason::UnknownChannelType,
				4 => OpenFailureReason::ResourceShortage,
				r => OpenFailureReason::Other(r),
			},
			description: v[2].s(),
			language: v[3].b(),
		})),
		"WindowAdjust" => Message::Channel(Channel::WindowAdjust(channel::WindowAdjust {
			recipient_channel: v[0].u(),
			add_bytes: v[1].u(),
		})),
		"Data" => Message::Channel(Channel::Data(channel::Data { recipient_channel: v[0].u(), data: v[1].b() })),
		"ExtData" => Message::Channel(Channel::ExtendedData(channel::ExtendedData {
			recipient_channel: v[0].u(),
			ty: v[1].u(),
			data: v[2].b(),
		})),
		"Eof" => Message::Channel(Channel::Eof(channel::Eof { recipient_channel: v[0].u() })),
		"Close" => Message::Channel(Channel::Close(channel::Close { recipient_channel: v[0].u() })),
		"Request" => Message::Channel(Channel::Request(channel::Request {
			recipient_channel: v[0].u(),
			ty: v[1].b(),
			want_reply: v[2].bool(),
			data: v[3].b(),
		})),
		"Success" => Message::Channel(Channel::Success(channel::Success { recipient_channel: v[0].u() })),
		"Failure" => Message::Channel(Channel::Failure(channel::Failure { recipient_channel: v[0].u() })),
		t => panic!("harness: message {t}"),
	};
	f(m)
}

fn u(x: u32) -> Value {
	json!(x.to_be_bytes())
}

fn n(x: NameList<'_>) -> Value {
	json!(<&[u8]>::from(x))
}

pub fn message_value(m: Message<'_>) -> (String, Value) {
	let (t, v) = match m {
		Message::Disconnect(m) => ("Disconnect", json!([u(m.reason), m.description, m.language])),
		Message::Ignore(m) => ("Ignore", json!([m.data])),
		Message::Unimplemented(m) => ("Unimplemented", json!([u(m.sequence_number)])),
		Message::Debug(m) => ("Debug", json!([m.always_display, m.message.as_bytes(), m.language])),
		Message::ServiceRequest(m) => ("ServiceRequest", json!([<&[u8]>::from(m)])),
		Message::ServiceAccept(m) => ("ServiceAccept", json!([<&[u8]>::from(m)])),
		Message::KeyExchangeInit(m) => (
			"KexInit",
			json!([
				m.cookie,
				n(m.kex_algorithms),
				n(m.server_host_key_algorithms),
				n(m.encryption_algorithms_client_to_server),
				n(m.encryption_algorithms_server_to_client),
				n(m.mac_algorithms_client_to_server),
				n(m.mac_algorithms_server_to_client),
				n(m.compression_algorithms_client_to_server),
				n(m.compression_algorithms_server_to_client),
				n(m.languages_client_to_server),
				n(m.languages_server_to_client),
				m.first_kex_packet_follows
			]),
		),
		Message::NewKeys(_) => ("NewKeys", json!([])),
		Message::KeyExchangeEcdhInit(m) => ("EcdhInit", json!([m.client_ephermal_public_key])),
		Message::KeyExchangeEcdhReply(m) => (
			"EcdhReply",
			json!([
				[m.server_public_key.name, m.server_public_key.blob.identifier, m.server_public_key.blob.q],
				m.server_ephermal_public_key,
				[
					m.exchange_hash_signature.name,
					m.exchange_hash_signature.blob.r,
					m.exchange_hash_signature.blob.s
				]
			]),
		),
		Message::UserAuth(m) => match m {
			UserAuth::Request(r) => match &r.method {
				Method::None => ("AuthNone", json!([r.user, r.service])),
				Method::PublicKeyBlob { algorithm, blob } => ("AuthProbe", json!([r.user, r.service, algorithm, blob])),
				Method::PublicKeySigned { algorithm, key, signature } => {
					("AuthSigned", json!([r.user, r.service, algorithm, key, signature]))
				}
				Method::Password { password } => ("AuthPassword", json!([r.user, r.service, password])),
				Method::PasswordRenew { old_password, new_password } => {
					("AuthRenew", json!([r.user, r.service, old_password, new_password]))
				}
				Method::HostBased { algorithm, key_and_certificates, host_name, user_name, signature } => {
					let h: &[u8] = (*host_name).into();
					(
						"AuthHost",
						json!([r.user, r.service, algorithm, key_and_certificates, h, user_name.as_bytes(), signature]),
					)
				}
				Method::Other { method, data } => ("AuthOther", json!([r.user, r.service, method, data])),
			},
			UserAuth::Failure(m) => ("AuthFailure", json!([n(m.alternative_methods), m.partial_success])),
			UserAuth::Success(_) => ("AuthSuccess", json!([])),
			UserAuth::Banner(m) => ("AuthBanner", json!([m.message, m.language])),
			UserAuth::PublicKeyOk(m) => ("AuthPkOk", json!([m.algorithm, m.blob])),
		},
		Message::Channel(m) => match m {
			Channel::Open(m) => ("Open", json!([m.ty, u(m.sender_channel), u(m.window_size), u(m.max_packet_size)])),
			Channel::OpenConfirmation(m) => (
				"OpenConf",
				json!([u(m.recipient_channel), u(m.sender_channel), u(m.window_size), u(m.max_packet_size), m.data]),
			),
			Channel::OpenFailure(m) => (
				"OpenFail",
				json!([
					u(m.recipient_channel),
					match m.reason {
						OpenFailureReason::AdminstrativelyProhibited => u(1),
						OpenFailureReason::ConnectFailed => u(2),
						OpenFailureReason::UnknownChannelType => u(3),
						OpenFailureReason::ResourceShortage => u(4),
						OpenFailureReason::Other(1..=4) => json!(b"other"),
						OpenFailureReason::Other(r) => u(r),
					},
					m.description.as_bytes(),
					m.language
				]),
			),
			Channel::WindowAdjust(m) => ("WindowAdjust", json!([u(m.recipient_channel), u(m.add_bytes)])),
			Channel::Data(m) => ("Data", json!([u(m.recipient_channel), m.data])),
			Channel::ExtendedData(m) => ("ExtData", json!([u(m.recipient_channel), u(m.ty), m.data])),
			Channel::Eof(m) => ("Eof", json!([u(m.recipient_channel)])),
			Channel::Close(m) => ("Close", json!([u(m.recipient_channel)])),
			Channel::Request(m) => ("Request", json!([u(m.recipient_channel), m.ty, m.want_reply, m.data])),
			Channel::Success(m) => ("Success", json!([u(m.recipient_channel)])),
			Channel::Failure(m) => ("Failure", json!([u(m.recipient_channel)])),
		},
	};
	(t.into(), v)
}

const SIGNALS: &[(&[u8], Signal<'static>)] = &[
	(b"ABRT", Signal::Abort),
	(b"ALRM", Signal::Alarm),
	(b"FPE", Signal::FloatingPointException),
	(b"HUP", Signal::Hangup),
	(b"ILL", Signal::Illegal),
	(b"INT", Signal::Interrupt),
	(b"KILL", Signal::Kill),
	(b"PIPE", Signal::Pipe),
	(b"QUIT", Signal::Quit),
	(b"SEGV", Signal::SegmentationFault),
	(b"TERM", Signal::Terminate),
	(b"USR1", Signal::User1),
	(b"USR2", Signal::User2),
];

fn signal(b: &[u8]) -> Signal<'_> {
	SIGNALS.iter().find(|x| x.0 == b).map_or(Signal::Other(b), |x| x.1)
}

fn signal_name(s: Signal<'_>) -> Value {
	match s {
		Signal::Other(b) if SIGNALS.iter().any(|x| x.0 == b) => json!(b"other signal"),
		Signal::Other(b) => json!(b),
		s => json!(SIGNALS.iter().find(|x| x.1 == s).expect("signal").0),
	}
}

pub fn with_request<R>(t: &str, v: &[JV], f: impl FnOnce(SessionRequest<'_>) -> R) -> R {
	f(match t {
		"Pty" => SessionRequest::Pty {
			terminal: v[0].b(),
			char_width: v[1].u(),
			char_height: v[2].u(),
			pixel_width: v[3].u(),
			pixel_height: v[4].u(),
			modes: v[5].b(),
		},
		"X11" => SessionRequest::X11 {
			single_connection: v[0].bool(),
			auth_protocol: v[1].b(),
			auth_cookie: v[2].b(),
			screen: v[3].u(),
		},
		"Env" => SessionRequest::Env { name: v[0].b(), value: v[1].b() },
		"Shell" => SessionRequest::Shell,
		"Exec" => SessionRequest::Exec { command: v[0].b() },
		"Subsystem" => SessionRequest::Subsystem { name: v[0].b() },
		"WindowChange" => SessionRequest::WindowChange {
			char_width: v[0].u(),
			char_height: v[1].u(),
			pixel_width: v[2].u(),
			pixel_height: v[3].u(),
		},
		"XonXoff" => SessionRequest::XonXoff { on: v[0].bool() },
		"Signal" => SessionRequest::Signal { signal: signal(v[0].b()) },
		"ExitStatus" => SessionRequest::ExitStatus { status: v[0].u() },
		"ExitSignal" => SessionRequest::ExitSignal {
			signal: signal(v[0].b()),
			core_dumped: v[1].bool(),
			message: v[2].s(),
			language: v[3].b(),
		},
		t => panic!("harness: request {t}"),
	})
}

pub fn request_value(m: &SessionRequest<'_>) -> (String, Value) {
	let (t, v) = match m {
		SessionRequest::Pty { terminal, char_width, char_height, pixel_width, pixel_height, modes } => (
			"Pty",
			json!([terminal, u(*char_width), u(*char_height), u(*pixel_width), u(*pixel_height), modes]),
		),
		SessionRequest::X11 { single_connection, auth_protocol, auth_cookie, screen } => {
			("X11", json!([single_connection, auth_protocol, auth_cookie, u(*screen)]))
		}
		SessionRequest::Env { name, value } => ("Env", json!([name, value])),
		SessionRequest::Shell => ("Shell", json!([])),
		SessionRequest::Exec { command } => ("Exec", json!([command])),
		SessionRequest::Subsystem { name } => ("Subsystem", json!([name])),
		SessionRequest::WindowChange { char_width, char_height, pixel_width, pixel_height } => (
			"WindowChange",
			json!([u(*char_width), u(*char_height), u(*pixel_width), u(*pixel_height)]),
		),
		SessionRequest::XonXoff { on } => ("XonXoff", json!([on])),
		SessionRequest::Signal { signal } => ("Signal", json!([signal_name(*signal)])),
		SessionRequest::ExitStatus { status } => ("ExitStatus", json!([u(*status)])),
		SessionRequest::ExitSignal { signal, core_dumped, message, language } => (
			"ExitSignal",
			json!([signal_name(*signal), core_dumped, message.as_bytes(), language]),
		),
	};
	(t.into(), v)
}
