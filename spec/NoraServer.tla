----------------------------- MODULE NoraServer -----------------------------
(***************************************************************************)
(* The SSH server of nora_ssh as its peers and its application see it.     *)
(*                                                                         *)
(* Every connection has a receive thread: it takes the items (lines and    *)
(* packets) that the peer sent one by one, and every item makes it owe a    *)
(* sequence of visible steps (messages to the peer, calls of the           *)
(* application, bytes for the input of a process). The next item is only    *)
(* taken when nothing is owed for the one before. Every process has an      *)
(* output thread that forwards output, end-of-file, the exit status and     *)
(* the close. All threads share the connection.                             *)
(*                                                                         *)
(* Actions are either of the environment (Connect, Feed, Part, Resolved,    *)
(* Output, OutputEnd, Exit, WriteFails) or of the server (Accept, Send,     *)
(* CallAuth, CallKey, CallSpawn, Input, InputError, InputDrop, Closed).     *)
(* Quiet is the observation that the server has nothing left to do: it is   *)
(* where obligations are checked.                                           *)
(*                                                                         *)
(* Guards that express a property are written Chk(labels, reason, cond):    *)
(* labels are the ids of the properties (see properties.jsonl) that are     *)
(* violated if the real server takes the step although cond is false.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Report(_, _)   \* Report(labels, reason): FALSE, and says why when validating a trace

VARIABLES
  conn,   \* connections by number
  chan,   \* channels by unique id
  proc    \* processes by number

vars == <<conn, chan, proc>>

Chk(labels, reason, cond) == IF cond THEN TRUE ELSE Report(labels, reason)

Cap == 2147483647   \* stands for everything from 2^31-1
Plus(a, b) == IF a > Cap - b THEN Cap ELSE a + b
Min(a, b) == IF a < b THEN a ELSE b

NoWait == [id |-> 0, o |-> [k |-> "none"]]
None == 0

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewConn == [ph |-> "id", q |-> <<>>, owe |-> <<>>, wait |-> NoWait, user |-> None,
            nums |-> <<>>, dead |-> FALSE, must |-> FALSE, werr |-> FALSE, closed |-> FALSE,
            accepted |-> FALSE, part |-> <<>>]

S0 == [conn |-> <<>>, chan |-> <<>>, proc |-> <<>>]
Now == [conn |-> conn, chan |-> chan, proc |-> proc]
Become(S) == conn' = S.conn /\ chan' = S.chan /\ proc' = S.proc

Init == conn = <<>> /\ chan = <<>> /\ proc = <<>>

-----------------------------------------------------------------------------
(* The receive thread *)

Owes(S, c, steps) == [S EXCEPT !.conn[c].owe = steps]
Phase(S, c, ph) == [S EXCEPT !.conn[c].ph = ph]
Die(S, c) == [S EXCEPT !.conn[c].dead = TRUE, !.conn[c].must = TRUE]
\* The peer's bytes make no sense any more, but that may show only later
Desync(S, c) == [S EXCEPT !.conn[c].dead = TRUE]

Msg(m) == [k |-> "srv", m |-> m]
Call(f, a, it) == [k |-> "call", f |-> f, a |-> a, it |-> it]

Elems(s) == {s[i] : i \in 1..Len(s)}

Kex == "curve25519-sha256"
HostKey == "ecdsa-sha2-nistp256"
Enc == "chacha20-poly1305@openssh.com"
\* What the server offers: what it implements, and no guess
Offer == [t |-> "KexInit", kex |-> <<Kex>>, hostkey |-> <<HostKey>>, cs |-> <<Enc>>, sc |-> <<Enc>>,
          cmp_cs |-> <<"none">>, cmp_sc |-> <<"none">>, follows |-> FALSE]
Methods == <<"publickey", "password">>

\* RFC 4253 section 7.1: the guess is right if the preferred algorithms are the same
WrongGuess(it) == it.follows /\ (it.kex[1] # Kex \/ it.hostkey[1] # HostKey)

HandshakeItem(S, c, it) ==
  LET ph == S.conn[c].ph IN
  CASE ph = "id" ->
         IF it.k # "line" THEN Desync(S, c)
         ELSE IF SubSeq(it.b, 1, Min(4, Len(it.b))) # <<83, 83, 72, 45>> THEN S      \* not "SSH-": skipped
         ELSE IF it.b = <<83, 83, 72, 45, 50, 46, 48, 45>> /\ it.len <= 253
              THEN Phase(S, c, "kexinit")
         ELSE IF it.len < 8 THEN Desync(S, c) ELSE Die(S, c)      \* too short to tell before more bytes arrive
    [] it.k = "badframe" -> [Desync(S, c) EXCEPT !.conn[c].must = it.must]
    [] it.k # "pkt" -> Desync(S, c)
    [] ph = "kexinit" ->
         IF it.t = "KexInit" /\ Kex \in Elems(it.kex) /\ HostKey \in Elems(it.hostkey)
            /\ Enc \in Elems(it.cs) /\ Enc \in Elems(it.sc)
         THEN Phase(S, c, IF WrongGuess(it) THEN "skip" ELSE "ecdh") ELSE Die(S, c)
    [] ph = "skip" -> Phase(S, c, "ecdh")
    [] ph = "ecdh" ->
         IF it.t = "EcdhInit" /\ it.len = 32 /\ it.contributory
         THEN Owes(Phase(S, c, "newkeys"), c, <<Msg([t |-> "EcdhReply"]), Msg([t |-> "NewKeys"])>>)
         ELSE Die(S, c)
    [] ph = "newkeys" -> IF it.t = "NewKeys" THEN Phase(S, c, "service") ELSE Die(S, c)
    [] ph = "service" ->
         IF it.t = "ServiceRequest" /\ it.name = "ssh-userauth"
         THEN Owes(Phase(S, c, "auth"), c, <<Msg([t |-> "ServiceAccept", name |-> it.name])>>)
         ELSE Die(S, c)

Transparent(it) == it.t \in {"Ignore", "Debug", "Unimplemented"}

AuthRequests == {"AuthNone", "AuthPassword", "AuthProbe", "AuthSigned", "AuthRenew", "AuthHost", "AuthOther"}

AuthItem(S, c, it) ==
  CASE Transparent(it) -> S
    [] it.t = "AuthNone" ->
         Owes(S, c, <<Call("auth", [f |-> "none", user |-> it.user, service |-> it.service], it)>>)
    [] it.t = "AuthPassword" ->
         Owes(S, c, <<Call("auth", [f |-> "password", user |-> it.user, service |-> it.service, pw |-> it.pw], it)>>)
    [] it.t = "AuthProbe" ->
         IF it.blob.ok /\ it.blob.alg = it.alg
         THEN Owes(S, c, <<Call("pk", [f |-> "pk", user |-> it.user, service |-> it.service,
                                       alg |-> it.alg, key |-> it.blob.d], it)>>)
         ELSE Die(S, c)
    [] it.t = "AuthSigned" ->
         IF it.blob.ok /\ it.sig.ok /\ it.blob.alg = it.alg /\ it.sig.alg = it.alg
         THEN Owes(S, c, <<Call("auth", [f |-> "publickey", user |-> it.user, service |-> it.service,
                                         alg |-> it.alg, key |-> it.blob.d, sig |-> it.sig.d,
                                         tbs |-> it.tbs], it)>>)
         ELSE Die(S, c)
    [] it.t \in {"AuthRenew", "AuthHost", "AuthOther"} ->
         Owes(S, c, <<Msg([t |-> "AuthFailure", partial |-> FALSE, methods |-> Methods])>>)
    [] OTHER -> Die(S, c)

\* Nothing is due on a channel that the server closed
Reply(S, u, it, t) == IF it.reply /\ ~S.chan[u].sclosed THEN <<Msg([t |-> t, peer |-> S.chan[u].peer, u |-> u])>> ELSE <<>>

\* The channel an item is for, or 0
ChanOf(S, c, it) == IF it.num \in DOMAIN S.conn[c].nums THEN S.conn[c].nums[it.num] ELSE 0

HasInput(S, u) == /\ S.chan[u].pid # None
                  /\ S.proc[S.chan[u].pid].stdin = "open"
                  /\ ~S.chan[u].eof

OpenItem(S, c, it) ==
  CASE Transparent(it) \/ it.t \in AuthRequests -> S
    [] it.t = "Open" ->
         IF it.ty = "session" THEN Owes(S, c, <<[k |-> "conf", it |-> it]>>)
         ELSE Owes(S, c, <<Msg([t |-> "OpenFail", peer |-> it.peer, reason |-> "3"])>>)
    [] it.t \in {"Request", "Data", "Eof", "WindowAdjust"} /\ ChanOf(S, c, it) = 0 -> Die(S, c)
    [] it.t = "Request" ->
         LET u == ChanOf(S, c, it)
             ch == S.chan[u] IN
         IF it.kind \in {"shell", "exec"} /\ ch.pid = None
         THEN Owes(S, c, <<Call("spawn", [f |-> it.kind, cmd |-> it.cmd], [it EXCEPT !.t = u])>>)
         ELSE Owes(S, c, Reply(S, u, it, "Failure"))
    [] it.t = "Data" ->
         LET u == ChanOf(S, c, it)
             credit == IF it.n = 0 \/ S.chan[u].sclosed THEN <<>>
                       ELSE <<[k |-> "credit", peer |-> S.chan[u].peer, n |-> it.n, u |-> u]>>
         IN IF it.n > 0 /\ HasInput(S, u)
            THEN Owes(S, c, <<[k |-> "in", p |-> S.chan[u].pid, at |-> it.at, n |-> it.n]>> \o credit)
            ELSE Owes(S, c, credit)
    [] it.t = "Eof" -> [S EXCEPT !.chan[ChanOf(S, c, it)].eof = TRUE]
    [] it.t = "Close" ->
         LET u == ChanOf(S, c, it) IN
         IF u = 0 THEN S
         ELSE LET T == [S EXCEPT !.conn[c].nums = Del(@, it.num), !.chan[u].pclosed = TRUE, !.chan[u].eof = TRUE] IN
              IF S.chan[u].pid = None THEN Owes(T, c, <<Msg([t |-> "Close", peer |-> S.chan[u].peer, u |-> u])>>)
              ELSE T
    [] it.t = "WindowAdjust" -> [S EXCEPT !.chan[ChanOf(S, c, it)].win = Plus(@, it.n)]
    [] OTHER -> Die(S, c)    \* also Disconnect

TakeItem(S, c, it) ==
  CASE it.k = "hup" -> Die(S, c)
    [] it.k = "bad" -> [Desync(S, c) EXCEPT !.conn[c].must = it.must]
    [] S.conn[c].ph \in {"id", "kexinit", "skip", "ecdh", "newkeys"} -> HandshakeItem(S, c, it)
    [] it.k # "pkt" -> Desync(S, c)
    [] S.conn[c].ph = "service" -> HandshakeItem(S, c, it)
    [] S.conn[c].ph = "auth" -> AuthItem(S, c, it)
    [] S.conn[c].ph = "open" -> OpenItem(S, c, it)

Idle(k) == k.accepted /\ k.owe = <<>> /\ k.wait.id = 0 /\ ~k.dead /\ ~k.werr /\ ~k.closed

(* Take items as long as nothing is owed. (Taking an item is not visible.) *)
RECURSIVE Settle(_, _)
Settle(S, c) ==
  LET k == S.conn[c] IN
  IF Idle(k) /\ k.q # <<>>
  THEN Settle(TakeItem([S EXCEPT !.conn[c].q = Tail(@)], c, Head(k.q)), c)
  ELSE S

-----------------------------------------------------------------------------
(* Environment *)

Connect(c) ==
  /\ c \notin DOMAIN conn
  /\ Become([Now EXCEPT !.conn = Put(@, c, NewConn)])

\* The peer completed an item
Feed(c, it) ==
  /\ c \in DOMAIN conn
  /\ Become(Settle([Now EXCEPT !.conn[c].q = Append(@, it), !.conn[c].part = <<>>], c))

\* A prefix of an item arrived
Part(c, it) ==
  /\ c \in DOMAIN conn
  /\ Become([Now EXCEPT !.conn[c].part = <<it>>])

WriteFails(c) ==
  /\ c \in DOMAIN conn
  /\ Chk({"C15", "C05"}, "write after the end of the connection", ~conn[c].closed)
  /\ Become([Now EXCEPT !.conn[c].werr = TRUE, !.conn[c].dead = TRUE])

Output(p, s, n) ==
  /\ p \in DOMAIN proc
  /\ Become([Now EXCEPT !.proc[p].av[s] = @ + n])

OutputEnd(p, s) ==
  /\ p \in DOMAIN proc
  /\ Become([Now EXCEPT !.proc[p].oeof[s] = TRUE])

Exit(p, st) ==
  /\ p \in DOMAIN proc
  /\ Become([Now EXCEPT !.proc[p].exited = TRUE, !.proc[p].status = st])

\* The application answered call id
Resolved(id, r) ==
  \E c \in {x \in DOMAIN conn : conn[x].wait.id = id} :
    LET o == conn[c].wait.o
        S == [Now EXCEPT !.conn[c].wait = NoWait] IN
    Become(Settle(
      CASE o.f = "auth" ->
             IF r.ok THEN Owes([S EXCEPT !.conn[c].user = r.user, !.conn[c].ph = "open"], c,
                               <<Msg([t |-> "AuthSuccess"])>>)
             ELSE Owes(S, c, <<Msg([t |-> "AuthFailure", partial |-> FALSE, methods |-> Methods])>>)
        [] o.f = "pk" ->
             Owes(S, c, <<Msg(IF r.ok THEN [t |-> "AuthPkOk", alg |-> o.it.alg, blobtok |-> o.it.blobtok]
                              ELSE [t |-> "AuthFailure", partial |-> FALSE, methods |-> Methods])>>)
        [] o.f = "spawn" ->
             LET u == o.it.t IN
             IF r.ok
             THEN Owes([S EXCEPT !.chan[u].pid = r.p,
                          !.proc = Put(@, r.p, [u |-> u, c |-> c, stdin |-> IF r.i THEN "open" ELSE "none",
                              av |-> <<0, 0>>, sent |-> <<0, 0>>, oeof |-> <<~r.o, ~r.x>>,
                              exited |-> FALSE, status |-> "", eofsent |-> FALSE, exitsent |-> FALSE])],
                       c, Reply(S, u, o.it, "Success"))
             ELSE Owes(S, c, Reply(S, u, o.it, "Failure")), c))

-----------------------------------------------------------------------------
(* Server *)

Accept(c) ==
  /\ c \in DOMAIN conn
  /\ Chk({"C08"}, "accepted twice", ~conn[c].accepted)
  /\ Become(Owes([Now EXCEPT !.conn[c].accepted = TRUE], c, <<Msg([t |-> "Ident"]), Msg(Offer)>>))

Done(c, S) == Become(Settle([S EXCEPT !.conn[c].owe = Tail(@)], c))

Alive(c) == /\ c \in DOMAIN conn
            /\ Chk({"C15", "C05", "C08"}, "something is sent on a connection that ended", ~conn[c].closed)
            /\ Chk({"C15"}, "something is sent after a write failed", ~conn[c].werr)

HeadIs(c, k) == conn[c].owe # <<>> /\ Head(conn[c].owe).k = k

ChannelMsgs == {"OpenConf", "OpenFail", "WindowAdjust", "Data", "ExtData", "Eof", "Close", "Request", "Success", "Failure"}

\* Properties that are violated if this owed step is never taken
OwedLabels(o) ==
  CASE o.k = "srv" ->
         (CASE o.m.t \in {"Ident", "KexInit", "EcdhReply", "NewKeys"} -> {"C04", "C16"}
            [] o.m.t \in {"AuthSuccess"} -> {"C01", "C02"}
            [] o.m.t = "ServiceAccept" -> {"C02", "C04"}
            [] o.m.t \in {"AuthFailure", "AuthPkOk"} -> {"C02"}
            [] o.m.t \in {"Success", "Failure"} -> {"C10"}
            [] o.m.t = "OpenFail" -> {"C09"}
            [] o.m.t = "Close" -> {"C13"}
            [] OTHER -> {})
    [] o.k = "call" -> IF o.f = "spawn" THEN {"C10"} ELSE {"C02", "C03"}
    [] o.k = "conf" -> {"C09"}
    [] o.k = "credit" -> {"C14"}
    [] o.k = "in" -> {"C11"}

\* The receive thread did something else although a step was owed
Skipped(c) == IF conn[c].owe # <<>> THEN OwedLabels(Head(conn[c].owe)) ELSE {}

\* Properties that a message violates which is not due
Unexpected(c, m) ==
  (IF m.t \in ChannelMsgs /\ conn[c].ph # "open" THEN {"C01"} ELSE {})
  \cup (IF conn[c].ph \in {"id", "kexinit", "skip", "ecdh", "newkeys"} THEN {"C05", "C16"} ELSE {})
  \cup (IF conn[c].dead THEN {"C06", "C15"} ELSE {})
  \cup
  CASE m.t \in {"Ident", "KexInit", "EcdhReply", "NewKeys"} -> {"C04", "C05", "C16"}
    [] m.t = "ServiceAccept" -> {"C05", "C01"}
    [] m.t = "AuthSuccess" -> {"C01", "C02", "C03"}
    [] m.t = "AuthFailure" -> {"C02"}
    [] m.t = "AuthPkOk" -> {"C02", "C03"}
    [] m.t \in {"OpenConf", "OpenFail"} -> {"C09"}
    [] m.t = "WindowAdjust" -> {"C14", "C09"}
    [] m.t \in {"Success", "Failure"} -> {"C10", "C09"}
    [] m.t \in {"Data", "ExtData"} -> {"C12", "C13", "C14", "C09"}
    [] m.t \in {"Eof", "Request"} -> {"C13", "C12", "C09"}
    [] m.t = "Close" -> {"C13", "C09"}
    [] OTHER -> {"C07", "C15"}

\* A message that the receive thread owes
SendReply(c, m) ==
  /\ Alive(c)
  /\ Chk(Unexpected(c, m) \cup Skipped(c), "message is not due", HeadIs(c, "srv") /\ Head(conn[c].owe).m.t = m.t)
  /\ LET x == Head(conn[c].owe).m IN
     /\ CASE m.t = "Ident" -> Chk({"C16", "C04"}, "identification line", m.ok)
          [] m.t = "EcdhReply" ->
               /\ Chk({"C04"}, "host key or ephemeral key in the reply", m.key /\ m.q)
               /\ Chk({"C04", "C16"}, "signature of the exchange hash", m.sig)
          [] m.t = "ServiceAccept" -> Chk({"C17", "C15"}, "service name", m.name = x.name)
          [] m.t = "AuthFailure" -> /\ Chk({"C02"}, "partial success", m.partial = x.partial)
               /\ Chk({"C02"}, "methods that can continue", Elems(m.methods) = Elems(x.methods))
          [] m.t = "AuthPkOk" -> Chk({"C02", "C03"}, "confirmation of another key", m.alg = x.alg /\ m.blobtok = x.blobtok)
          [] m.t \in {"OpenFail", "Success", "Failure", "Close"} ->
               /\ Chk({"C09", "C10", "C13"}, "number of the peer's channel", m.peer = x.peer)
               /\ m.t = "OpenFail" => Chk({"C09"}, "reason of the refusal", m.reason = x.reason)
          [] m.t = "KexInit" ->
               /\ \A f \in {"kex", "hostkey", "cs", "sc", "cmp_cs", "cmp_sc"} :
                    Chk({"C04"}, "algorithms that the server offers", Elems(m[f]) = Elems(x[f]))
               /\ Chk({"C04"}, "the server announces a guess", m.follows = x.follows)
          [] OTHER -> TRUE
     /\ IF m.t = "Close" THEN Done(c, [Now EXCEPT !.chan[x.u].sclosed = TRUE]) ELSE Done(c, Now)

\* A channel is confirmed; the server picks the number
SendConf(c, m) ==
  /\ Alive(c)
  /\ Chk(Unexpected(c, m) \cup Skipped(c), "no channel was requested", HeadIs(c, "conf"))
  /\ LET it == Head(conn[c].owe).it IN
     /\ Chk({"C09"}, "confirmation for another channel", m.peer = it.peer)
     /\ Chk({"C09"}, "number of an open channel", m.num \notin DOMAIN conn[c].nums)
     /\ Chk({"C14"}, "maximum packet size exceeds what the server can receive", m.max <= 34000)
     /\ Done(c, [Now EXCEPT !.conn[c].nums = Put(@, m.num, it.uid),
                            !.chan = Put(@, it.uid, [c |-> c, peer |-> it.peer, win |-> it.win, max |-> it.max,
                                pid |-> None, eof |-> FALSE, pclosed |-> FALSE, sclosed |-> FALSE])])

\* Data that was handled is credited
SendCredit(c, m) ==
  /\ Alive(c)
  /\ IF m.n = 0
     THEN /\ Chk({"C09", "C14"}, "window of an unknown channel",
                 \E u \in DOMAIN chan : chan[u].c = c /\ chan[u].peer = m.peer /\ ~chan[u].sclosed)
          /\ UNCHANGED vars
     ELSE /\ Chk(Unexpected(c, m) \cup Skipped(c), "nothing to credit", HeadIs(c, "credit"))
          /\ Chk({"C14"}, "wrong credit", m.n = Head(conn[c].owe).n)
          /\ Chk({"C09", "C14"}, "credit for another channel", m.peer = Head(conn[c].owe).peer)
          /\ Done(c, Now)

ProcsOf(c) == {p \in DOMAIN proc : proc[p].c = c}

\* Output of a process
SendOutput(c, m) ==
  /\ Alive(c)
  /\ IF m.n = 0
     THEN /\ Chk({"C13", "C09", "C12"}, "empty data for an unknown channel",
                 \E u \in DOMAIN chan : chan[u].c = c /\ chan[u].peer = m.peer /\ ~chan[u].sclosed)
          /\ UNCHANGED vars
     ELSE
       /\ Chk({"C12"} \cup Unexpected(c, m), "data that no process wrote", m.ok)
       /\ Chk({"C12", "C09"} \cup Unexpected(c, m), "data of a process of another connection", m.p \in ProcsOf(c))
       /\ LET pr == proc[m.p]
              ch == chan[pr.u] IN
          /\ Chk({"C12", "C09"}, "data on the wrong channel", m.peer = ch.peer)
          /\ Chk({"C12"}, "data as the wrong stream",
                 IF m.t = "Data" THEN m.s = 1 ELSE m.s = 2 /\ m.ty = "1")
          /\ Chk({"C12"}, "data was sent twice", pr.sent[m.s] + m.n <= pr.av[m.s])
          /\ Chk({"C13"}, "data after end-of-file", ~pr.eofsent)
          /\ Chk({"C13"}, "data after close", ~ch.sclosed)
          /\ Chk({"C14"}, "data exceeds the window", m.n <= ch.win)
          /\ Chk({"C14"}, "data exceeds the maximum packet size", m.n <= ch.max)
          /\ Become([Now EXCEPT !.proc[m.p].sent[m.s] = @ + m.n,
                                !.chan[pr.u].win = IF @ = Cap THEN Cap ELSE @ - m.n])

\* Processes whose channel has this number of the peer and is not closed by the server
OnPeer(c, peer) == {p \in ProcsOf(c) : chan[proc[p].u].peer = peer /\ ~chan[proc[p].u].sclosed}

AllSent(p) == proc[p].oeof = <<TRUE, TRUE>> /\ proc[p].sent = proc[p].av

SendEof(c, m) ==
  /\ Alive(c)
  /\ Chk(Unexpected(c, m), "end-of-file for a channel without a process", OnPeer(c, m.peer) # {})
  /\ \E p \in OnPeer(c, m.peer) :
       /\ Chk({"C13"}, "second end-of-file", ~proc[p].eofsent)
       /\ Chk({"C12", "C13"}, "end-of-file before all output",
              AllSent(p) \/ (chan[proc[p].u].pclosed /\ proc[p].oeof = <<TRUE, TRUE>>))
       /\ Become([Now EXCEPT !.proc[p].eofsent = TRUE])

SendExit(c, m) ==
  /\ Alive(c)
  /\ Chk(Unexpected(c, m), "exit status for a channel without a process", OnPeer(c, m.peer) # {})
  /\ Chk({"C13"}, "request is not an exit status without reply", m.ty = "exit-status" /\ ~m.reply)
  /\ \E p \in OnPeer(c, m.peer) :
       /\ Chk({"C13"}, "second exit status", ~proc[p].exitsent)
       /\ Chk({"C13"}, "exit status before the exit", proc[p].exited)
       /\ Chk({"C13"}, "wrong exit status", m.status = proc[p].status)
       /\ Become([Now EXCEPT !.proc[p].exitsent = TRUE])

\* An answer on channel u that is not due any more once the channel is closed
About(o, u) == \/ o.k = "credit" /\ o.u = u
               \/ o.k = "srv" /\ o.m.t \in {"Success", "Failure"} /\ o.m.u = u

SendClose(c, m) ==
  IF HeadIs(c, "srv") /\ Head(conn[c].owe).m.t = "Close" /\ Head(conn[c].owe).m.peer = m.peer THEN SendReply(c, m)
  ELSE /\ Alive(c)
       /\ Chk(Unexpected(c, m), "close is not due", OnPeer(c, m.peer) # {})
       /\ \E p \in OnPeer(c, m.peer) :
            /\ Chk({"C13", "C12"}, "close before end-of-file and exit status",
                   chan[proc[p].u].pclosed \/ (proc[p].eofsent /\ proc[p].exitsent))
            /\ Become(Settle([Now EXCEPT !.chan[proc[p].u].sclosed = TRUE,
                   !.conn[c].owe = SelectSeq(@, LAMBDA o : ~About(o, proc[p].u))], c))

Send(c, m) ==
  CASE m.t = "OpenConf" -> SendConf(c, m)
    [] m.t = "WindowAdjust" -> SendCredit(c, m)
    [] m.t \in {"Data", "ExtData"} -> SendOutput(c, m)
    [] m.t = "Eof" -> SendEof(c, m)
    [] m.t = "Request" -> SendExit(c, m)
    [] m.t = "Close" -> SendClose(c, m)
    [] OTHER -> SendReply(c, m)

\* Calls of the application. They do not name the connection.
CallsDue(f) == {c \in DOMAIN conn : HeadIs(c, "call") /\ Head(conn[c].owe).f = f /\ ~conn[c].closed /\ ~conn[c].werr}

Calling(c, id) == Become([Now EXCEPT !.conn[c].wait = [id |-> id, o |-> Head(conn[c].owe)], !.conn[c].owe = Tail(@)])

Related(a) == {c \in CallsDue("auth") \cup CallsDue("pk") : Head(conn[c].owe).a.user = a.user}

CallAuth(id, a) ==
  LET due == {c \in CallsDue("auth") : Head(conn[c].owe).a = a} IN
  /\ Chk((IF a.f = "publickey" THEN {"C03"} ELSE {}) \cup {"C02", "C01", "C05", "C06"},
         "the application is asked something no peer requested", due # {})
  /\ \E c \in due : Calling(c, id)

CallKey(id, a) ==
  LET due == {c \in CallsDue("pk") : Head(conn[c].owe).a = a} IN
  /\ Chk({"C02", "C03", "C05", "C06"}, "the application is asked for a key no peer asked for", due # {})
  /\ \E c \in due : Calling(c, id)

CallSpawn(id, user, a) ==
  LET mine == {c \in CallsDue("spawn") : conn[c].user = user}
      due == {c \in mine : Head(conn[c].owe).a = a} IN
  /\ Chk({"C01"}, "a process is started for nobody who authenticated", \E c \in DOMAIN conn : conn[c].user = user)
  /\ Chk({"C10", "C01", "C06", "C15"}, "a process is started without a request", mine # {})
  /\ Chk({"C10"}, "another command is started", due # {})
  /\ \E c \in due : Calling(c, id)

\* n bytes, which are at one of these places in what peers sent, are written to process p
Input(p, n, at) ==
  /\ p \in DOMAIN proc
  /\ LET c == proc[p].c IN
     /\ Chk({"C11", "C15"}, "input after the end of the connection", ~conn[c].closed)
     /\ Chk({"C11", "C09", "C06"} \cup Skipped(c), "input is not due",
            HeadIs(c, "in") /\ Head(conn[c].owe).p = p)
     /\ LET x == Head(conn[c].owe) IN
        /\ Chk({"C11", "C09"}, "more input than the peer sent", n <= x.n)
        /\ Chk({"C11", "C09", "C06"}, "not the input that the peer sent", x.at \in at)
        /\ IF n = x.n THEN Done(c, Now)
           ELSE Become([Now EXCEPT !.conn[c].owe[1].n = @ - n, !.conn[c].owe[1].at = @ + n])

\* Process p does not accept input any more
InputError(p) ==
  /\ p \in DOMAIN proc
  /\ LET c == proc[p].c IN
     /\ Chk({"C11", "C15"}, "input after the end of the connection", ~conn[c].closed)
     /\ IF proc[p].stdin = "broken" THEN UNCHANGED vars
        ELSE /\ Chk({"C11", "C09", "C06"} \cup Skipped(c), "input is not due", HeadIs(c, "in") /\ Head(conn[c].owe).p = p)
             /\ Done(c, [Now EXCEPT !.proc[p].stdin = "broken"])

\* The server lets go of the input of process p. The peer's end-of-file or close is taken
\* after all input before it was delivered.
InputDrop(p) ==
  /\ p \in DOMAIN proc
  /\ LET c == proc[p].c IN
     /\ Chk({"C11"}, "input is closed twice", proc[p].stdin # "closed")
     /\ Chk({"C11"}, "input is closed before the peer's end-of-file or before all input was delivered",
            proc[p].stdin = "broken" \/ conn[c].closed \/ conn[c].dead \/ chan[proc[p].u].eof)
     /\ Become([Now EXCEPT !.proc[p].stdin = "closed"])

\* Output that the window permits
CanSend(p, s) == LET ch == chan[proc[p].u] IN
                 proc[p].sent[s] < proc[p].av[s] /\ ch.win > 0 /\ ch.max > 0 /\ ~ch.pclosed /\ ~ch.sclosed

\* A partial item may be enough to see that it is wrong
WouldDie(c) ==
  /\ conn[c].part # <<>>
  /\ Settle([Now EXCEPT !.conn[c].q = @ \o conn[c].part], c).conn[c].dead

Closed(c) ==
  /\ c \in DOMAIN conn
  /\ Chk({"C15", "C08", "C06", "C14"} \cup (IF conn[c].ph \in {"id", "kexinit", "skip", "ecdh", "newkeys"} THEN {"C04", "C16"} ELSE {})
         \cup (IF conn[c].ph = "service" THEN {"C04"} ELSE {})
         \cup (IF conn[c].ph \in {"service", "auth"} THEN {"C02"} ELSE {})
         \cup (IF conn[c].ph = "open" THEN {"C10", "C09", "C13", "C11"} ELSE {})
         \cup (IF conn[c].owe # <<>> THEN {"C07"} ELSE {}) \cup Skipped(c)
         \cup (IF \E p \in ProcsOf(c) : \E s \in {1, 2} : CanSend(p, s) THEN {"C12", "C07"} ELSE {}),
         "the connection is ended without a cause",
         conn[c].dead \/ conn[c].werr \/ WouldDie(c))
  /\ Become([Now EXCEPT !.conn[c].closed = TRUE, !.conn[c].dead = TRUE, !.conn[c].owe = <<>>,
                        !.conn[c].wait = NoWait, !.conn[c].nums = <<>>])

\* The server as a whole stopped: properties that are violated besides the survival of the server
Stopped ==
  UNION {(IF conn[c].ph \in {"id", "kexinit", "skip", "ecdh", "newkeys"} THEN {"C04", "C16"} ELSE {})
         \cup (IF conn[c].ph = "service" THEN {"C04"} ELSE {})
         \cup (IF conn[c].owe # <<>> THEN {"C07"} \cup Skipped(c) ELSE {})
         \cup (IF \E p \in ProcsOf(c) : \E s \in {1, 2} : CanSend(p, s) THEN {"C12"} ELSE {})
         \cup (IF \E p \in ProcsOf(c) : AllSent(p) /\ ~chan[proc[p].u].sclosed THEN {"C13"} ELSE {})
         : c \in {x \in DOMAIN conn : ~conn[x].closed /\ ~conn[x].dead /\ ~conn[x].werr}} \cup {"C15"}

-----------------------------------------------------------------------------
(* Obligations: what must have happened when the server has nothing to do.  *)
(* wb: connections that cannot be written to, ib: processes that accept no  *)
(* input now, rs: answers of the application that the server ignores.       *)

QuietProc(p) ==
  LET pr == proc[p]
      ch == chan[pr.u]
      over == pr.oeof = <<TRUE, TRUE>> /\ (pr.sent = pr.av \/ ch.pclosed) IN
  /\ Chk({"C12", "C14", "C07"}, "output is not sent although the window permits", \A s \in {1, 2} : ~CanSend(p, s))
  /\ Chk({"C13"}, "no end-of-file although all output was sent", over => (pr.eofsent \/ ch.pclosed))
  /\ Chk({"C13"}, "no exit status", (over /\ pr.exited) => (pr.exitsent \/ ch.pclosed))
  /\ Chk({"C13"}, "the channel of a process that ended is not closed", (over /\ pr.exited) => ch.sclosed)

QuietConn(c, wb, ib) ==
  LET k == conn[c] IN
  /\ Chk({"C08"}, "a connection is not accepted", k.accepted)
  /\ IF k.closed \/ c \in wb THEN TRUE ELSE
        /\ Chk({"C15"}, "a connection whose transport failed is not released", ~k.werr)
        /\ IF k.owe # <<>>
           THEN Chk(OwedLabels(Head(k.owe)) \cup {"C07", "C08", "C06"}, "a step is overdue",
                    Head(k.owe).k = "in" /\ Head(k.owe).p \in ib)
           ELSE Chk({"C15", "C06"} \cup (IF k.ph \in {"id", "kexinit", "skip", "ecdh", "newkeys", "service"} THEN {"C05", "C16"} ELSE {})
                    \cup (IF k.ph = "auth" THEN {"C03"} ELSE {}) \cup (IF k.ph = "open" THEN {"C09"} ELSE {}),
                    "the connection should have been ended", ~(k.must /\ k.wait.id = 0))
        /\ \A p \in ProcsOf(c) : QuietProc(p)
        /\ Chk({"C11"}, "the input of a process is not closed although the peer ended it",
               \A p \in ProcsOf(c) : chan[proc[p].u].eof => proc[p].stdin \in {"closed", "none"})
  /\ Chk({"C15", "C11"}, "the input of a process outlives its connection",
         k.closed => \A p \in ProcsOf(c) : proc[p].stdin \in {"closed", "none"})

Quiet(wb, ib, rs) ==
  /\ \A c \in DOMAIN conn : QuietConn(c, wb, ib)
  /\ Chk({"C07", "C08", "C02", "C10"}, "an answer of the application is ignored",
         \A c \in DOMAIN conn : conn[c].wait.id \notin rs \/ conn[c].wait.id = 0)
  /\ UNCHANGED vars
=============================================================================
