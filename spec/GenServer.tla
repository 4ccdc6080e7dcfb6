------------------------------ MODULE GenServer -----------------------------
(***************************************************************************)
(* Generates scripts for the real server: random walks (TLC -simulate) of   *)
(* the specification in which the environment steps are written down as     *)
(* operations of the harness. The specification's own server decides what   *)
(* state the walk is in, and so which operations make sense next.           *)
(* FAM selects what the environment concentrates on, GOAL how long a script *)
(* is, OUT is the file the scripts are appended to.                         *)
(***************************************************************************)
EXTENDS ServerSteps

VARIABLES script, mode, goal, auto

gvars == <<vars, env, script, mode, goal, auto>>

Fam == IOEnv.FAM
Goal == atoi(IOEnv.GOAL)

Pick(s) == s[RandomElement(1..Len(s))]
Rnd(n) == RandomElement(0..(n - 1))
Chance(p) == RandomElement(1..100) <= p

W(name, n) == [i \in 1..n |-> name]
Emit(ops) == script' = script \o ops
P(t) == [k |-> "pkt", t |-> t]
RunOp == [op |-> "run"]

-----------------------------------------------------------------------------
(* Items: the operation (o) and what it means to the model (it) *)

X(o, it) == [o |-> o, it |-> it]

GoodId == B("SSH-2.0-peer")
OddLines == <<
  <<>>, <<13>>, <<10>>, <<13, 11>>, <<97, 13, 98>>, <<97, 10, 98>>, B("hello"), B("SSH"), B("SSH2.0-x"), B("ssh-2.0-x"),
  B(" SSH-2.0-x"), B("SSSH-2.0-x"), <<13, 83, 83, 72, 45, 50, 46, 48, 45>>, <<0, 255, 128>>, B("SS"), <<83, 83, 72, 13, 45, 50, 46, 48, 45>>,
  <<10, 83, 83, 72, 45, 50, 46, 48, 45, 120>>, <<13, 13, 13>> >>
GoodLines == << GoodId, B("SSH-2.0-"), B("SSH-2.0-OpenSSH_9.0 comment"), B("SSH-2.0-a-b-c"), <<83, 83, 72, 45, 50, 46, 48, 45, 13, 97>>,
  <<83, 83, 72, 45, 50, 46, 48, 45, 128, 255>>, <<83, 83, 72, 45, 50, 46, 48, 45, 10>> >>
BadLines == << B("SSH-1.99-x"), B("SSH-2.0"), B("SSH-2.1-x"), B("SSH-20-x"), B("SSH-"), B("SSH-1.0-"), B("SSH-2.0x"), B("SSH-3.0-x") >>

Line(b) == X([op |-> "send", i |-> "line", s |-> b], [k |-> "line", b |-> SubSeq(b, 1, Min(8, Len(b))), len |-> Len(b)])
LongLine(b, n) == X([op |-> "send", i |-> "line", s |-> b, fill |-> n], [k |-> "line", b |-> SubSeq(b, 1, Min(8, Len(b))), len |-> n])

SomeLine(z) ==
  CASE Chance(60) -> Line(Pick(GoodLines))
    [] Chance(60) -> Line(Pick(OddLines))
    [] Chance(40) -> LongLine(B("SSH-2.0-"), Pick(<<252, 253, 254, 255, 256, 300, 100>>))
    [] Chance(40) -> LongLine(B("hello"), Pick(<<253, 254, 255, 256, 300, 2000>>))
    [] OTHER -> Line(Pick(BadLines))

L(s, n) == [s |-> s, n |-> n]
KexLists == << L("x,curve25519-sha256", <<"x", Kex>>), L("curve25519-sha256,y", <<Kex, "y">>), L("a,curve25519-sha256,b", <<"a", Kex, "b">>),
               L("x", <<"x">>), L("", <<>>), L("curve25519-sha25", <<"w">>), L("curve25519-sha256x", <<"w">>) >>
HostLists == << L("ssh-ed25519,ecdsa-sha2-nistp256", <<"e", HostKey>>), L("ecdsa-sha2-nistp256,rsa", <<HostKey, "r">>), L("rsa", <<"r">>), L("", <<>>) >>
EncLists == << L("aes,chacha20-poly1305@openssh.com", <<"a", Enc>>), L("chacha20-poly1305@openssh.com,b", <<Enc, "b">>), L("aes128-ctr", <<"a">>), L("", <<>>) >>
KexOf(k, h, cs, sc, f) ==
  X([op |-> "send", i |-> "kexinit", f |-> [kex |-> k.s, hostkey |-> h.s, enc_cs |-> cs.s, enc_sc |-> sc.s, follows |-> f]],
    P("KexInit") @@ [kex |-> k.n, hostkey |-> h.n, cs |-> cs.n, sc |-> sc.n, follows |-> f])
K1 == L(Kex, <<Kex>>)
H1 == L(HostKey, <<HostKey>>)
E1 == L(Enc, <<Enc>>)
SomeKex(z) ==
  CASE Chance(40) -> KexOf(K1, H1, E1, E1, Chance(30))
    [] Chance(60) -> KexOf(Pick(SubSeq(KexLists, 1, 3)), Pick(SubSeq(HostLists, 1, 2)), Pick(SubSeq(EncLists, 1, 2)), Pick(SubSeq(EncLists, 1, 2)), Chance(50))
    [] Chance(25) -> KexOf(Pick(KexLists), H1, E1, E1, Chance(30))
    [] Chance(33) -> KexOf(K1, Pick(HostLists), E1, E1, Chance(30))
    [] Chance(50) -> KexOf(K1, H1, Pick(EncLists), E1, FALSE)
    [] OTHER -> KexOf(K1, H1, E1, Pick(EncLists), FALSE)

Small == << [i \in 1..32 |-> 0], [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..32 |-> IF i = 1 THEN 237 ELSE IF i = 32 THEN 127 ELSE 255],
            [i \in 1..32 |-> IF i = 1 THEN 236 ELSE IF i = 32 THEN 127 ELSE 255], [i \in 1..32 |-> IF i = 1 THEN 238 ELSE IF i = 32 THEN 127 ELSE 255],
            <<224, 235, 122, 124, 59, 65, 184, 174, 22, 86, 227, 250, 241, 159, 196, 106, 218, 9, 141, 235, 156, 50, 177, 253, 134, 98, 5, 22, 95, 73, 184, 0>>,
            <<95, 156, 149, 188, 163, 80, 140, 36, 177, 208, 177, 85, 156, 131, 239, 91, 4, 68, 92, 196, 88, 28, 142, 134, 216, 34, 78, 221, 208, 159, 17, 87>> >>
SomeEcdh(z) ==
  CASE Chance(75) -> X([op |-> "send", i |-> "ecdh"], P("EcdhInit") @@ [len |-> 32, contributory |-> TRUE])
    [] Chance(50) -> X([op |-> "send", i |-> "ecdh", hibit |-> TRUE], P("EcdhInit") @@ [len |-> 32, contributory |-> TRUE])
    [] Chance(60) -> X([op |-> "send", i |-> "msg", t |-> "EcdhInit", f |-> [q |-> Pick(Small)]], P("EcdhInit") @@ [len |-> 32, contributory |-> FALSE])
    [] OTHER -> X([op |-> "send", i |-> "msg", t |-> "EcdhInit", f |-> [q |-> [fill |-> Pick(<<0, 1, 31, 33, 64, 200>>)]]], P("EcdhInit") @@ [len |-> 1, contributory |-> FALSE])

NewKeysX == X([op |-> "send", i |-> "msg", t |-> "NewKeys"], P("NewKeys"))
ServiceX(n) == X([op |-> "send", i |-> "msg", t |-> "ServiceRequest", f |-> [name |-> n]], P("ServiceRequest") @@ [name |-> n])

Mm(t, f) == X([op |-> "send", i |-> "msg", t |-> t, f |-> f], P(t) @@ f)
Mx(t, f) == X([op |-> "send", i |-> "msg", t |-> t, f |-> f], P(t))

TransparentX(z) == Pick(<< Mx("Ignore", [data |-> [fill |-> Rnd(40)]]), Mx("Debug", [display |-> TRUE, message |-> "m", language |-> "en"]),
                        Mx("Unimplemented", [seq |-> "7"]) >>)

\* Any message at all, also those that only a server sends
StrangeX(z) == Pick(<< Mx("Disconnect", [reason |-> "2", description |-> "d", language |-> ""]), KexOf(L("a", <<"a">>), H1, E1, E1, FALSE), KexOf(K1, H1, E1, E1, FALSE),
   NewKeysX, ServiceX("ssh-userauth"), ServiceX("ssh-connection"), ServiceX(""), Mx("ServiceAccept", [name |-> "ssh-userauth"]),
   Mx("AuthSuccess", [x |-> 0]), Mx("AuthFailure", [methods |-> "a", partial |-> FALSE]), Mx("AuthPkOk", [alg |-> "a", blob |-> "b"]),
   Mx("AuthBanner", [message |-> "a", language |-> "b"]),
   X([op |-> "send", i |-> "ecdh"], P("EcdhInit") @@ [len |-> 32, contributory |-> TRUE]), Mx("EcdhReply", [key |-> <<"a", "b", "c">>, q |-> "q", sig |-> <<"a", "b", "c">>]),
   Mx("OpenConf", [recipient |-> "0", sender |-> "0", window |-> "1", maxpkt |-> "1", data |-> ""]),
   Mx("OpenFail", [recipient |-> "0", reason |-> "1", description |-> "", language |-> ""]),
   Mx("Success", [recipient |-> "0"]), Mx("Failure", [recipient |-> "0"]), Mx("ExtData", [recipient |-> "0", type |-> "1", data |-> "x"]),
   X([op |-> "send", i |-> "raw", b |-> <<>>], P("Malformed")), X([op |-> "send", i |-> "raw", b |-> <<Rnd(256)>>], P("Malformed")),
   X([op |-> "send", i |-> "raw", b |-> <<80, 0, 0, 0, 1, 97, 1>>], P("Malformed")),
   X([op |-> "send", i |-> "raw", b |-> [fill |-> Rnd(300), seed |-> Rnd(100000)]], P("Malformed")),
   X([op |-> "send", i |-> "raw", b |-> <<Pick(<<1, 2, 4, 5, 50, 90, 94, 98>>), 0, 0, 0, 0, 255, 255, 255, 255>>], P("Malformed")),
   X([op |-> "send", i |-> "raw", b |-> <<Pick(<<50, 90, 98, 94, 1>>), 255, 255, 255, 255>>], P("Malformed"))
   >>)

HsX(ph) ==
  CASE Chance(4) -> StrangeX(0)
    [] Chance(2) -> X([op |-> "send", i |-> "junk", b |-> [fill |-> 1 + Rnd(400), seed |-> Rnd(100000)]], [k |-> "junk"])
    [] ph = "id" -> SomeLine(0)
    [] ph = "kexinit" -> SomeKex(0)
    [] ph = "skip" -> IF Chance(50) THEN SomeEcdh(0) ELSE StrangeX(0)
    [] ph = "ecdh" -> SomeEcdh(0)
    [] ph = "newkeys" -> IF Chance(92) THEN NewKeysX ELSE TransparentX(0)
    [] ph = "service" -> IF Chance(85) THEN ServiceX("ssh-userauth") ELSE Pick(<<ServiceX("ssh-connection"), ServiceX(""), ServiceX("ssh-userauth "), TransparentX(0), StrangeX(0)>>)

Users == <<"root", "alice", "bob", "nope", "", "nobody", "no">>
Services == <<"ssh-connection", "ssh-connection", "ssh-userauth", "x", "">>
Algs == <<"ssh-ed25519", "ssh-rsa", "a", "">>
Blobs == << [o |-> <<>>, m |-> 0], [o |-> <<0, 0, 0, 1, 97>>, m |-> 0], [o |-> <<0, 0, 0, 1, 97, 0, 0, 0, 9, 1>>, m |-> 0],
            [o |-> <<0, 0, 0, 1, 97, 0, 0, 0, 1, 98, 0>>, m |-> 0], [o |-> <<255, 255, 255, 255>>, m |-> 0],
            [o |-> <<0, 0, 0, 1, 98, 0, 0, 0, 1, 98>>, m |-> 0] >>

PkOp(u, s, a, n) == [op |-> "send", i |-> "pk", user |-> u, service |-> s, alg |-> a, key |-> [fill |-> n, seed |-> Rnd(1000)]]
BlobOk(a) == [ok |-> TRUE, alg |-> a, d |-> "d"]
BlobBad == [ok |-> FALSE, alg |-> "", d |-> ""]
KeySize(z) == Pick(<<0, 1, 32, 32, 51, 200, 255, 256, 257, 300, 1000>>)

PkX(u, s, a) ==
  LET it(t, b, g) == P(t) @@ [user |-> u, service |-> s, alg |-> a, blobtok |-> "b", blob |-> b, sig |-> g, tbs |-> "t"] IN
  CASE Chance(35) -> X(PkOp(u, s, a, KeySize(0)), it("AuthProbe", BlobOk(a), BlobOk(a)))
    [] Chance(70) -> X(PkOp(u, s, a, KeySize(0)) @@ [sig |-> [fill |-> Pick(<<0, 64, 64, 300, 1000>>), seed |-> Rnd(1000)]], it("AuthSigned", BlobOk(a), BlobOk(a)))
    [] Chance(30) -> X(PkOp(u, s, a, 9) @@ [blob |-> Pick(Blobs).o], it("AuthProbe", BlobBad, BlobBad))
    [] Chance(50) -> X(PkOp(u, s, a, 9) @@ [blob |-> Pick(Blobs).o, sig |-> "s"], it("AuthSigned", BlobBad, BlobOk(a)))
    [] OTHER -> X(PkOp(u, s, a, 9) @@ [sig |-> "s", sigblob |-> Pick(Blobs).o], it("AuthSigned", BlobOk(a), BlobBad))

AuthX(z) ==
  LET u == Pick(Users)
      s == Pick(Services)
      a == Pick(Algs) IN
  Pick(<<Mm("AuthNone", [user |-> u, service |-> s]),
         X([op |-> "send", i |-> "msg", t |-> "AuthPassword", f |-> [user |-> u, service |-> s, password |-> "pw"]],
           P("AuthPassword") @@ [user |-> u, service |-> s, pw |-> "pw"]),
         X([op |-> "send", i |-> "msg", t |-> "AuthPassword", f |-> [user |-> [fill |-> Pick(<<0, 10, 300>>), seed |-> 1], service |-> s, password |-> [fill |-> Pick(<<0, 1, 255, 256, 1000>>), seed |-> Rnd(99)]]],
           P("AuthPassword") @@ [user |-> "u", service |-> s, pw |-> "pw"]),
         PkX(u, s, a), PkX(u, s, a), PkX(u, s, a),
         Mx("AuthRenew", [user |-> u, service |-> s, old |-> "o", new |-> "n"]),
         Mx("AuthHost", [user |-> u, service |-> s, alg |-> a, key |-> "k", host |-> "h", luser |-> "l", sig |-> "s"]),
         Mx("AuthOther", [user |-> u, service |-> s, method |-> "keyboard-interactive", data |-> [fill |-> Rnd(30)]]),
         TransparentX(0)>>)

\* Channels are named by their index (from 0); the model needs their number
Confirmed(c) == {i \in 1..Len(env.k[c].opens) : env.k[c].opens[i] \in DOMAIN env.num}
At(i) == [ch |-> i - 1]
Wins == <<"0", "1", "10", "300", "100000", "2000000", "4294967295", "4294967294">>
WinOf(w) == CASE w = "0" -> 0 [] w = "1" -> 1 [] w = "10" -> 10 [] w = "300" -> 300 [] w = "100000" -> 100000 [] w = "2000000" -> 2000000 [] OTHER -> Cap
Maxs == <<"1", "10", "255", "256", "300", "32768", "32768", "4294967295">>
MaxOf(w) == CASE w = "1" -> 1 [] w = "10" -> 10 [] w = "255" -> 255 [] w = "256" -> 256 [] w = "300" -> 300 [] w = "32768" -> 32768 [] OTHER -> Cap

OpenX(z) ==
  LET w == Pick(Wins)
      m == Pick(Maxs)
      t == IF Chance(88) THEN "session" ELSE Pick(<<"direct-tcpip", "x11", "", "sessio", "sessions", "forwarded-tcpip">>) IN
  X([op |-> "send", i |-> "open", win |-> w, max |-> m, ty |-> t], P("Open") @@ [ty |-> t, peer |-> "p" \o ToString(Rnd(1000000)), win |-> WinOf(w), max |-> MaxOf(m)])

Cmds == <<"ls", "ls -l", "no", "nope", "", "cat /etc/passwd; id">>
OddReqs == << <<"pty-req", <<0, 0, 0, 1, 120, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0>> >>, <<"env", <<0, 0, 0, 1, 97, 0, 0, 0, 1, 98>> >>,
   <<"subsystem", <<0, 0, 0, 4, 115, 102, 116, 112>> >>, <<"window-change", <<0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1>> >>,
   <<"xon-xoff", <<1>> >>, <<"signal", <<0, 0, 0, 1, 97>> >>, <<"exit-status", <<0, 0, 0, 1>> >>, <<"exit-signal", <<0, 0, 0, 1, 97, 0, 0, 0, 0, 0, 0, 0, 0, 0>> >>,
   <<"x11-req", <<0, 0, 0, 0, 1, 97, 0, 0, 0, 1, 97, 0, 0, 0, 0>> >>,
   <<"exec", <<>> >>, <<"exec", <<0, 0, 0, 9, 97>> >>, <<"exec", <<0, 0, 0, 1, 97, 98>> >>, <<"shell", <<0>> >>, <<"Exec", <<0, 0, 0, 1, 97>> >>, <<"", <<>> >>,
   <<"keepalive@openssh.com", <<>> >>, <<"pty-req", <<>> >>, <<"env", <<0, 0, 0, 1>> >> >>

RequestX(n, at) ==
  LET r == Chance(60)
      it(k, cmd) == P("Request") @@ [num |-> n, kind |-> k, cmd |-> cmd, reply |-> r] IN
  CASE Chance(50) -> LET cmd == Pick(Cmds) IN X([op |-> "send", i |-> "exec", cmd |-> cmd, reply |-> r] @@ at, it("exec", cmd))
    [] Chance(25) -> X([op |-> "send", i |-> "exec", cmd |-> [fill |-> Pick(<<49, 255, 256, 257, 1000, 5000>>), seed |-> Rnd(1000)], reply |-> r] @@ at, it("exec", "x"))
    [] Chance(35) -> X([op |-> "send", i |-> "shell", reply |-> r] @@ at, it("shell", ""))
    [] OTHER -> LET q == Pick(OddReqs) IN X([op |-> "send", i |-> "req", ty |-> q[1], data |-> q[2], reply |-> r] @@ at, it("unknown", ""))

DataX(n, at) == LET len == Pick(<<0, 1, 2, 7, 100, 255, 256, 1000, 4000>>) IN
  X([op |-> "send", i |-> "data", n |-> len] @@ at, P("Data") @@ [num |-> n, n |-> len])
EofX(n, at) == X([op |-> "send", i |-> "eof"] @@ at, P("Eof") @@ [num |-> n])
CloseX(n, at) == X([op |-> "send", i |-> "close"] @@ at, P("Close") @@ [num |-> n])
AdjustX(n, at) == LET w == Pick(Wins) IN X([op |-> "send", i |-> "adjust", n |-> w] @@ at, P("WindowAdjust") @@ [num |-> n, n |-> WinOf(w)])

ChanKinds == CASE Fam = "io" -> W("data", 10) \o W("adjust", 8) \o W("eof", 2) \o W("close", 2) \o W("req", 1) \o W("open", 1)
               [] OTHER -> W("open", 5) \o W("req", 9) \o W("data", 6) \o W("eof", 2) \o W("close", 4) \o W("adjust", 3)

OnChannel(kind, n, at) ==
  CASE kind = "req" -> RequestX(n, at)
    [] kind = "data" -> DataX(n, at)
    [] kind = "eof" -> EofX(n, at)
    [] kind = "close" -> CloseX(n, at)
    [] kind = "adjust" -> AdjustX(n, at)

OpenPhaseX(c) ==
  LET kind == Pick(ChanKinds) IN
  CASE Chance(4) -> TransparentX(0)
    [] Chance(IF Fam = "io" THEN 1 ELSE 3) -> AuthX(0)
    [] Chance(1) -> StrangeX(0)
    [] Fam # "io" /\ Chance(2) -> LET n == Pick(<<"0", "1", "2", "3", "17", "4294967295">>) IN OnChannel(Pick(<<"req", "data", "eof", "close", "adjust">>), n, [num |-> n])
    [] kind = "open" \/ Confirmed(c) = {} -> OpenX(0)
    [] OTHER -> LET i == RandomElement(Confirmed(c)) IN OnChannel(kind, env.num[env.k[c].opens[i]], At(i))

ItemX(c) ==
  LET ph == conn[c].ph IN
  CASE ph = "open" -> OpenPhaseX(c)
    [] ph = "auth" -> (CASE Chance(3) -> StrangeX(0) [] Chance(3) -> OpenX(0) [] OTHER -> AuthX(0))
    [] OTHER -> HsX(ph)

-----------------------------------------------------------------------------
(* Operations *)

Tampers(z) == <<[flip |-> Rnd(32)], [flip |-> Rnd(3000)], [flip |-> Rnd(300)], [flip |-> Rnd(128), back |-> TRUE], [flip |-> Rnd(500), back |-> TRUE],
             [forge |-> Pick(<<"plain", "zerotag", "bodytag", "plaintag", "before", "after", "first", "reflect", "head", "halftag", "nokey">>)],
             [dup |-> TRUE], [fpad |-> Pick(<<-3, -2, -1, 0, 4, 5, 8, 100, 200, 255>>)], [flen |-> Pick(<<-16, -8, -5, -1, 1, 3, 8, 16>>)], [flen |-> Pick(<<-100, -8, 8, 80>>), fpad |-> Pick(<<-2, -1, 4, 7, 12>>)], [drop |-> TRUE], [swap |-> TRUE], [cutoff |-> Rnd(40)],
             [trunc |-> 1 + Rnd(6)], [add |-> <<Rnd(256)>>], [set |-> <<Rnd(40), Rnd(256)>>], [set |-> <<Rnd(12), Pick(<<0, 1, 127, 128, 255>>)>>], [pad |-> 8 * (1 + Rnd(28))]>>
PlainTampers(z) == <<[len |-> Pick(<<"0", "1", "2", "3", "4", "7", "11", "13", "4294967295", "2147483648", "65536">>)], [fpad |-> Pick(<<-3, -2, -1, 0, 4, 5, 8, 100, 200, 255>>)], [flen |-> Pick(<<-16, -8, -5, -1, 1, 3, 8, 16>>)], [flen |-> Pick(<<-100, -8, 8, 80>>), fpad |-> Pick(<<-2, -1, 4, 7, 12>>)],
                  [trunc |-> 1 + Rnd(6)], [add |-> <<Rnd(256)>>], [set |-> <<Rnd(40), Rnd(256)>>], [set |-> <<Rnd(12), Pick(<<0, 1, 127, 128, 255>>)>>], [pad |-> 8 * (1 + Rnd(28))]>>

TamperRate == CASE Fam = "tamper" -> 7 [] Fam = "evil" -> 6 [] Fam = "hs" -> 3 [] OTHER -> 0

Sealed(c) == conn[c].ph \in {"service", "auth", "open"}

SendItem(c) ==
  \E x \in {ItemX(c)}, r \in {RandomElement(1..100)} :
    /\ UNCHANGED <<goal, auto, mode>>
    /\ IF r <= TamperRate /\ ~(Fam = "evil" /\ c = 1) /\ x.o.i \notin {"line", "junk"}
       THEN \E t \in {IF Sealed(c) THEN Pick(Tampers(0)) ELSE Pick(PlainTampers(0))} :
              /\ EnvFeed(c, [k |-> "bad", must |-> FALSE])
              /\ Emit(<<x.o @@ [c |-> c] @@ t>>)
       ELSE /\ EnvFeed(c, x.it)
            /\ IF r > 92
               THEN Emit(<<x.o @@ [c |-> c, cut |-> Rnd(400)], RunOp>> \o (IF Chance(80) THEN <<[op |-> "rest", c |-> c]>> ELSE <<>>))
               ELSE Emit(<<x.o @@ [c |-> c]>>)

LoginOp ==
  LET c == Cardinality(DOMAIN conn) + 1 IN
  /\ c <= 4
  /\ conn' = Put(conn, c, [NewConn EXCEPT !.accepted = TRUE, !.ph = "open", !.user = env.nu + 1])
  /\ env' = [env EXCEPT !.k = Put(@, c, EnvConn), !.nu = @ + 1]
  /\ UNCHANGED <<chan, proc, goal, auto, mode>>
  /\ Emit(<<[op |-> "login", c |-> c]>>)

SvcOp ==
  LET c == Cardinality(DOMAIN conn) + 1 IN
  /\ c <= 4
  /\ conn' = Put(conn, c, [NewConn EXCEPT !.accepted = TRUE, !.ph = "auth"])
  /\ env' = [env EXCEPT !.k = Put(@, c, EnvConn)]
  /\ UNCHANGED <<chan, proc, goal, auto, mode>>
  /\ Emit(<<[op |-> "svc", c |-> c]>>)

ConnectOp ==
  /\ Cardinality(DOMAIN conn) < 5
  /\ EnvConnect
  /\ UNCHANGED <<goal, auto, mode>>
  /\ Emit(<<[op |-> "connect", c |-> Cardinality(DOMAIN conn) + 1, seed |-> Rnd(1000)]>>)

ShellOp ==
  \E c \in {x \in DOMAIN conn : conn[x].ph = "open" /\ ~conn[x].dead /\ conn[x].owe = <<>> /\ conn[x].wait.id = 0} :
  \E w \in {Pick(Wins)}, m \in {Pick(Maxs)} :
  LET u == NewUid(c)
      p == env.np + 1 IN
  /\ env.np < 14 /\ Len(env.k[c].opens) < 9
  /\ conn' = [conn EXCEPT ![c].nums = Put(@, FreeNum(c), u)]
  /\ chan' = Put(chan, u, [c |-> c, peer |-> ToString(u), win |-> WinOf(w), max |-> MaxOf(m), pid |-> p, eof |-> FALSE, pclosed |-> FALSE, sclosed |-> FALSE])
  /\ proc' = Put(proc, p, [u |-> u, c |-> c, stdin |-> "open", av |-> <<0, 0>>, sent |-> <<0, 0>>, oeof |-> <<FALSE, FALSE>>,
                           exited |-> FALSE, status |-> "", eofsent |-> FALSE, exitsent |-> FALSE])
  /\ env' = [env EXCEPT !.np = p, !.k[c].opens = Append(@, u), !.num = Put(@, u, FreeNum(c))]
  /\ UNCHANGED <<goal, auto, mode>>
  /\ Emit(<<[op |-> "shell", c |-> c, win |-> w, max |-> m]>>)

ItemOp ==
  \E c \in {RandomElement(DOMAIN conn)} :
    /\ \A i \in 1..Len(conn[c].q) : conn[c].q[i].k # "hup"
    /\ Len(conn[c].q) < 12
    /\ (conn[c].ph \in {"newkeys", "service", "auth", "open"} => conn[c].q = <<>> \/ conn[c].ph \in {"auth", "open"})
    /\ SendItem(c)

OutOp ==
  \E p \in {RandomElement(DOMAIN proc)}, s \in {RandomElement({1, 2})}, n \in {Pick(<<1, 2, 100, 255, 256, 257, 600, 3000>>)} :
    ~proc[p].oeof[s] /\ Output(p, s, n) /\ Emit(<<[op |-> "out", p |-> p, s |-> s, n |-> n]>>) /\ UNCHANGED <<goal, auto, mode, env>>
OeofOp ==
  \E p \in {RandomElement(DOMAIN proc)}, s \in {RandomElement({1, 2})} :
    ~proc[p].oeof[s] /\ OutputEnd(p, s) /\ Emit(<<[op |-> IF Chance(85) THEN "oeof" ELSE "oerr", p |-> p, s |-> s]>>) /\ UNCHANGED <<goal, auto, mode, env>>
ExitOp ==
  \E p \in {RandomElement(DOMAIN proc)}, st \in {Pick(<<"0", "1", "255", "256", "4294967295", "65536", "137">>)} :
    ~proc[p].exited /\ Exit(p, st) /\ Emit(<<[op |-> "exit", p |-> p, st |-> st]>>) /\ UNCHANGED <<goal, auto, mode, env>>
OmodeOp ==
  \E p \in {RandomElement(DOMAIN proc)} :
    Emit(<<[op |-> "omode", p |-> p, s |-> RandomElement({1, 2}), n |-> Pick(<<0, 1, 3, 100>>), yield |-> Chance(50)]>>) /\ UNCHANGED <<goal, auto, mode, env, vars>>
StdinOp ==
  \E p \in {RandomElement(DOMAIN proc)}, k \in {RandomElement(1..10)} :
    /\ UNCHANGED <<goal, auto, mode, vars>>
    /\ CASE k <= 3 -> Emit(<<[op |-> "stdin", p |-> p, m |-> "max", n |-> Pick(<<0, 1, 2, 50>>)]>>) /\ UNCHANGED env
         [] k <= 6 -> Emit(<<[op |-> "stdin", p |-> p, m |-> "cap", n |-> Pick(<<0, 0, 1, 30>>)]>>) /\ env' = [env EXCEPT !.blocked = @ \cup {p}]
         [] k <= 9 -> Emit(<<[op |-> "stdin", p |-> p, m |-> "cap", n |-> -1]>>) /\ env' = [env EXCEPT !.blocked = @ \ {p}]
         [] OTHER -> Emit(<<[op |-> "stdin", p |-> p, m |-> "err"]>>) /\ env' = [env EXCEPT !.failing = @ \cup {p}]

ResolveOp ==
  /\ ~auto /\ Waiting # {}
  /\ LET c == CHOOSE c \in Waiting : \A d \in Waiting : conn[c].wait.id <= conn[d].wait.id IN
     \E ok \in {IF conn[c].wait.o.f = "auth" THEN Chance(35) ELSE Chance(75)}, io \in {Pick(<<"ioe", "ioe", "ioe", "oe", "io", "e", "", "i", "o">>)} :
       /\ EnvResolve(c, ok /\ (conn[c].wait.o.f = "spawn" => env.np < 15), io \in {"ioe", "io", "i"}, io \in {"ioe", "oe", "io", "o"}, io \in {"ioe", "oe", "e"})
       /\ Emit(<<[op |-> "resolve", ok |-> ok /\ (conn[c].wait.o.f = "spawn" => env.np < 15), io |-> io]>>)
  /\ UNCHANGED <<goal, auto, mode>>

ModeOp ==
  \E c \in {RandomElement(DOMAIN conn)}, o \in {Pick(<<"rmode", "wmode">>)} :
    Emit(<<[op |-> o, c |-> c, n |-> Pick(<<0, 1, 2, 5, 16, 100>>), yield |-> Chance(50)]>>) /\ UNCHANGED <<goal, auto, mode, env, vars>>
CapOp ==
  \E c \in {RandomElement(DOMAIN conn)}, k \in {RandomElement(1..10)} :
    /\ UNCHANGED <<goal, auto, mode, vars>>
    /\ IF k <= 5 /\ ~(Fam = "evil" /\ c = 1)
       THEN Emit(<<[op |-> "cap", c |-> c, n |-> Pick(<<0, 0, 1, 7, 30, 100>>), add |-> Chance(30)]>>) /\ env' = [env EXCEPT !.wb = @ \cup {c}]
       ELSE Emit(<<[op |-> "cap", c |-> c, n |-> -1]>>) /\ env' = [env EXCEPT !.wb = @ \ {c}]
EndOp ==
  \E c \in {RandomElement(DOMAIN conn)}, o \in {Pick(<<"hangup", "hangup", "rerr", "werr">>)} :
    /\ ~(Fam = "evil" /\ c = 1)
    /\ UNCHANGED <<goal, auto, mode>>
    /\ Emit(<<[op |-> o, c |-> c]>>)
    /\ IF o = "werr" THEN UNCHANGED vars /\ UNCHANGED env ELSE EnvFeed(c, [k |-> "hup"])

RunStep == Emit(<<RunOp>>) /\ mode' = "srv" /\ UNCHANGED <<vars, env, goal, auto>>

Kinds ==
  CASE Fam = "hs" -> W("connect", 4) \o W("item", 30) \o W("run", 16) \o W("mode", 2) \o W("cap", 1) \o W("end", 1)
    [] Fam = "auth" -> W("svc", 2) \o W("item", 25) \o W("run", 18) \o W("resolve", 14) \o W("mode", 1) \o W("cap", 1) \o W("end", 1) \o W("out", 1) \o W("exit", 1)
    [] Fam = "chan" -> W("login", 2) \o W("item", 32) \o W("run", 16) \o W("resolve", 9) \o W("out", 4) \o W("oeof", 5) \o W("exit", 4) \o W("stdin", 1) \o W("mode", 1) \o W("cap", 1)
    [] Fam = "io" -> W("login", 1) \o W("shell", 3) \o W("item", 14) \o W("run", 18) \o W("out", 16) \o W("oeof", 5) \o W("exit", 4) \o W("stdin", 4) \o W("mode", 2) \o W("cap", 4) \o W("omode", 2) \o W("resolve", 2)
    [] Fam = "tamper" -> W("login", 2) \o W("svc", 1) \o W("shell", 3) \o W("item", 26) \o W("run", 14) \o W("out", 5) \o W("exit", 2) \o W("mode", 2) \o W("resolve", 2)
    [] Fam = "evil" -> W("login", 2) \o W("svc", 2) \o W("connect", 4) \o W("shell", 2) \o W("item", 34) \o W("run", 16) \o W("out", 6) \o W("oeof", 2) \o W("exit", 2) \o W("stdin", 2) \o W("mode", 1) \o W("cap", 3) \o W("end", 4) \o W("resolve", 4)

Needs(k) == CASE k \in {"out", "oeof", "exit", "stdin", "omode"} -> DOMAIN proc # {}
              [] k \in {"item", "mode", "cap", "end"} -> DOMAIN conn # {}
              [] OTHER -> TRUE

Op(k) ==
  CASE k = "connect" -> ConnectOp [] k = "login" -> LoginOp [] k = "svc" -> SvcOp [] k = "shell" -> ShellOp
    [] k = "item" -> ItemOp [] k = "run" -> RunStep [] k = "resolve" -> ResolveOp [] k = "mode" -> ModeOp
    [] k = "cap" -> CapOp [] k = "end" -> EndOp [] k = "out" -> OutOp [] k = "oeof" -> OeofOp [] k = "exit" -> ExitOp
    [] k = "stdin" -> StdinOp [] k = "omode" -> OmodeOp

GenInit ==
  /\ Init /\ env = Env0
  /\ mode = "first" /\ script = <<>>
  /\ goal \in {(Goal \div 2) + Rnd(Goal)}
  /\ auto \in {IF Fam \in {"hs", "tamper"} THEN TRUE ELSE Chance(40)}

AutoResolve ==
  /\ auto
  /\ \E c \in Waiting :
       LET o == conn[c].wait.o
           name == IF o.f = "spawn" THEN o.a.cmd ELSE o.a.user IN
       EnvResolve(c, ~(Len(name) >= 2 /\ SubSeq(name, 1, 2) = "no") /\ (o.f = "spawn" => env.np < 15), TRUE, TRUE, TRUE)

GenNext ==
  CASE mode = "first" ->
         /\ script' = <<[op |-> "auto", on |-> auto]>> \o (IF Fam = "evil" THEN <<[op |-> "login", c |-> 1]>> ELSE <<>>)
         /\ mode' = "env"
         /\ IF Fam = "evil"
            THEN /\ conn' = Put(conn, 1, [NewConn EXCEPT !.accepted = TRUE, !.ph = "open", !.user = 1])
                 /\ env' = [env EXCEPT !.k = Put(@, 1, EnvConn), !.nu = 1]
                 /\ UNCHANGED <<chan, proc, goal, auto>>
            ELSE UNCHANGED <<vars, env, goal, auto>>
    [] mode = "srv" ->
         IF ENABLED (ServerNext \/ AutoResolve)
         THEN (ServerNext \/ AutoResolve) /\ UNCHANGED <<script, mode, goal, auto>>
         ELSE mode' = "env" /\ UNCHANGED <<vars, env, script, goal, auto>>
    [] mode = "env" ->
         IF Len(script) >= goal
         THEN /\ Serialize(ToJson([name |-> Fam, ops |-> script]) \o "\n", IOEnv.OUT,
                           [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
              /\ mode' = "end" /\ UNCHANGED <<vars, env, script, goal, auto>>
         ELSE \E k \in {Pick(Kinds)} :
                (Needs(k) /\ Op(k)) \/ UNCHANGED gvars   \* an operation that does not apply is skipped
    [] OTHER -> FALSE

GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
