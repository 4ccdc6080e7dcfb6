------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* Exhaustive exploration of NoraServer with a few connections and every    *)
(* interleaving of a bounded number of environment steps. hist records what *)
(* went over the wire and to the application; the invariants restate the    *)
(* listed properties over that history, independently of the guards.        *)
(***************************************************************************)
EXTENDS ServerSteps, FiniteSetsExt

CONSTANTS Fam,      \* which part of the system: "auth", "chan", "io", "two"
          MaxFeed,  \* items per connection
          MaxOut    \* output and exit steps of processes

VARIABLES hist, outs

mcvars == <<vars, env, hist, outs>>

P(t) == [k |-> "pkt", t |-> t]
Req(num, kind, reply) == P("Request") @@ [num |-> num, kind |-> kind, cmd |-> kind, reply |-> reply]

AuthItems ==
  {P("AuthNone") @@ [user |-> u, service |-> "s"] : u \in {"a", "b"}}
  \cup {P("AuthPassword") @@ [user |-> "a", service |-> "s", pw |-> "x"]}
  \cup {P("AuthProbe") @@ [user |-> "a", service |-> "s", alg |-> "g", blobtok |-> "bt",
           blob |-> [ok |-> ok, alg |-> g, d |-> "d"]] : ok \in BOOLEAN, g \in {"g", "h"}}
  \cup {P("AuthSigned") @@ [user |-> "a", service |-> "s", alg |-> "g", blobtok |-> "bt", tbs |-> "t",
           blob |-> [ok |-> TRUE, alg |-> g, d |-> "d"], sig |-> [ok |-> TRUE, alg |-> h, d |-> "e"]] : g \in {"g", "h"}, h \in {"g", "h"}}
  \cup {P("AuthHost"), P("Ignore"), P("Malformed")}

OpenReq == P("Open") @@ [ty |-> "session", peer |-> "p", win |-> 3, max |-> 2]

ChanItems ==
  {OpenReq, [OpenReq EXCEPT !.ty = "x11"]}
  \cup {Req(n, k, r) : n \in {"0", "1"}, k \in {"exec", "unsupported"}, r \in BOOLEAN}
  \cup {P("Close") @@ [num |-> n] : n \in {"0", "1"}}
  \cup {P("Eof") @@ [num |-> "0"], P("Data") @@ [num |-> "0", n |-> 2], P("Disconnect"), [k |-> "bad", must |-> TRUE]}

IoItems ==
  {P("Data") @@ [num |-> "0", n |-> 2], P("Eof") @@ [num |-> "0"], P("Close") @@ [num |-> "0"],
   P("WindowAdjust") @@ [num |-> "0", n |-> 2], [k |-> "hup"]}

HsItems ==
  {[k |-> "line", b |-> <<83, 83, 72, 45, 50, 46, 48, 45>>, len |-> 10], [k |-> "line", b |-> <<97>>, len |-> 1],
   [k |-> "line", b |-> <<83, 83, 72, 45, 49, 46, 48, 45>>, len |-> 10],
   P("EcdhInit") @@ [len |-> 32, contributory |-> TRUE], P("EcdhInit") @@ [len |-> 32, contributory |-> FALSE],
   P("NewKeys"), P("ServiceRequest") @@ [name |-> "ssh-userauth"], P("ServiceRequest") @@ [name |-> "x"],
   P("AuthNone") @@ [user |-> "a", service |-> "s"], OpenReq, Req("0", "exec", TRUE)}
  \cup {P("KexInit") @@ [kex |-> <<x, Kex>>, hostkey |-> <<HostKey>>, cs |-> <<e>>, sc |-> <<Enc>>, follows |-> f] :
          x \in {"other", Kex}, e \in {"other", Enc}, f \in BOOLEAN}

Items == CASE Fam = "auth" -> AuthItems \cup {OpenReq, Req("0", "exec", TRUE)}
           [] Fam = "chan" -> ChanItems
           [] Fam = "io" -> IoItems
           [] Fam = "two" -> {OpenReq, Req("0", "exec", TRUE), P("Data") @@ [num |-> "0", n |-> 1], P("Close") @@ [num |-> "0"], [k |-> "bad", must |-> TRUE]}
           [] Fam = "hs" -> HsItems

Conns == IF Fam = "two" THEN {1, 2} ELSE {1}

StartConn(c) == [NewConn EXCEPT !.accepted = TRUE,
                    !.ph = IF Fam = "auth" THEN "auth" ELSE "open",
                    !.user = IF Fam = "auth" THEN None ELSE c,
                    !.nums = IF Fam = "io" THEN ("0" :> 1001) ELSE <<>>]

MCInit ==
  /\ hist = <<>> /\ outs = 0
  /\ IF Fam = "hs" THEN Init /\ env = Env0
     ELSE /\ conn = [c \in Conns |-> StartConn(c)]
          /\ IF Fam = "io"
             THEN /\ chan = (1001 :> [c |-> 1, peer |-> "p1", win |-> 3, max |-> 2, pid |-> 1, eof |-> FALSE, pclosed |-> FALSE, sclosed |-> FALSE])
                  /\ proc = (1 :> [u |-> 1001, c |-> 1, stdin |-> "open", av |-> <<0, 0>>, sent |-> <<0, 0>>, oeof |-> <<FALSE, FALSE>>,
                                   exited |-> FALSE, status |-> "", eofsent |-> FALSE, exitsent |-> FALSE])
                  /\ env = [Env0 EXCEPT !.np = 1, !.nu = 1, !.k = (1 :> [EnvConn EXCEPT !.opens = <<1001>>])]
             ELSE /\ chan = <<>> /\ proc = <<>>
                  /\ env = [Env0 EXCEPT !.k = [c \in Conns |-> EnvConn], !.nu = IF Fam = "auth" THEN 0 ELSE 2]

\* peers number their channels differently
Peer(c, it) == IF it.k = "pkt" /\ it.t = "Open" THEN [it EXCEPT !.peer = "p" \o ToString(c) \o ToString(Len(env.k[c].opens))] ELSE it

H(e) == hist' = Append(hist, e)

\* What a server step puts into the history
Step(a, e) == a /\ H(e) /\ UNCHANGED outs

EnvStep ==
  \/ Fam = "hs" /\ conn = <<>> /\ EnvConnect /\ UNCHANGED <<hist, outs>>
  \/ \E c \in DOMAIN conn, it \in Items :
       /\ env.k[c].fed < MaxFeed
       /\ conn[c].q = <<>> \/ Len(conn[c].q) < 2
       /\ \A i \in 1..Len(conn[c].q) : conn[c].q[i].k # "hup"
       /\ ~conn[c].closed
       /\ EnvFeed(c, Peer(c, it))
       /\ H([e |-> "feed", c |-> c, it |-> Peer(c, it)])
       /\ UNCHANGED outs
  \/ \E c \in Waiting, ok \in BOOLEAN :
       /\ EnvResolve(c, ok, TRUE, TRUE, Fam = "io")
       /\ H([e |-> "res", c |-> c, f |-> conn[c].wait.o.f, ok |-> ok, id |-> conn[c].wait.id])
       /\ UNCHANGED outs
  \/ /\ outs < MaxOut
     /\ outs' = outs + 1
     /\ UNCHANGED <<env, hist>>
     /\ \E p \in DOMAIN proc :
          \/ \E s \in {1, 2}, n \in {1, 3} : ~proc[p].oeof[s] /\ Output(p, s, n)
          \/ \E s \in {1, 2} : ~proc[p].oeof[s] /\ OutputEnd(p, s)
          \/ ~proc[p].exited /\ Exit(p, "7")
  \/ /\ outs < MaxOut /\ Fam = "io"
     /\ outs' = outs + 1
     /\ UNCHANGED hist
     /\ \E c \in DOMAIN conn : ~conn[c].werr /\ ~conn[c].closed /\ WriteFails(c) /\ UNCHANGED env

Said(c) == IF conn[c].owe # <<>> /\ Head(conn[c].owe).k \in {"srv", "conf", "call", "credit"}
           THEN [e |-> Head(conn[c].owe).k, c |-> c, o |-> Head(conn[c].owe)] ELSE [e |-> "other", c |-> c]

MCNext ==
  \/ EnvStep
  \/ \E c \in DOMAIN conn :
       \/ AcceptStep(c) /\ UNCHANGED <<hist, outs>>
       \/ ReceiveStep(c) /\ H(Said(c)) /\ UNCHANGED outs
       \/ ReleaseStep(c) /\ UNCHANGED outs
            /\ IF conn'[c].closed /\ ~conn[c].closed THEN H([e |-> "released", c |-> c]) ELSE UNCHANGED hist
  \/ \E p \in DOMAIN proc : OutputStep(p) /\ UNCHANGED <<hist, outs>>

MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* Properties over the history *)

Idx == 1..Len(hist)
Is(i, e, c) == hist[i].e = e /\ hist[i].c = c
Count(S) == Cardinality(S)
Told(i, c, t) == Is(i, "srv", c) /\ hist[i].o.m.t = t

\* C01
AuthGate ==
  \A c \in DOMAIN conn :
    /\ conn[c].ph = "open" => conn[c].user # None
    /\ (conn[c].nums # <<>> \/ ProcsOf(c) # {}) => (conn[c].user # None)
    /\ Fam \in {"auth", "hs"} =>
       \A i \in Idx : (Is(i, "conf", c) \/ (Is(i, "call", c) /\ hist[i].o.f = "spawn") \/ Told(i, c, "AuthSuccess")) =>
          \E j \in 1..(i - 1) : Is(j, "res", c) /\ hist[j].f = "auth" /\ hist[j].ok

\* C02: answers correspond to verdicts, in order
AuthAnswers ==
  \A c \in DOMAIN conn :
    LET verdicts == SelectSeq(hist, LAMBDA x : x.e = "res" /\ x.c = c /\ x.f \in {"auth", "pk"})
        answers == SelectSeq(hist, LAMBDA x : x.e = "srv" /\ x.c = c /\ x.o.m.t \in {"AuthSuccess", "AuthPkOk"})
        yes == SelectSeq(verdicts, LAMBDA x : x.ok)
    IN /\ Len(answers) <= Len(yes) /\ Len(yes) <= Len(answers) + 1
       /\ \A i \in 1..Len(answers) : (answers[i].o.m.t = "AuthSuccess") <=> (yes[i].f = "auth")
       /\ Count({i \in Idx : Told(i, c, "AuthSuccess")}) <= 1

\* C03: what reaches the application is well formed and is an item of that peer
SignedExact ==
  \A i \in Idx : (hist[i].e = "call" /\ hist[i].o.f \in {"auth", "pk"}) =>
    \E j \in 1..(i - 1) :
      /\ Is(j, "feed", hist[i].c)
      /\ hist[j].it = hist[i].o.it
      /\ (hist[j].it.t \in {"AuthProbe", "AuthSigned"}) => (hist[j].it.blob.ok /\ hist[j].it.blob.alg = hist[j].it.alg)
      /\ (hist[j].it.t = "AuthSigned") => (hist[j].it.sig.ok /\ hist[j].it.sig.alg = hist[j].it.alg)

\* C05, C06, C15: nothing happens for items behind the one that ended the connection
EndIsFinal ==
  \A c \in DOMAIN conn :
    /\ conn[c].closed => (conn[c].owe = <<>> /\ conn[c].nums = <<>>)
    /\ \A i, j \in Idx : (i < j /\ Is(i, "released", c)) => hist[j].e \notin {"srv", "conf", "call", "credit"} \/ hist[j].c # c

NoKeysNoAuth ==
  Fam = "hs" => \A i \in Idx : hist[i].e = "call" =>
     /\ \E j \in 1..(i - 1) : Told(j, hist[i].c, "NewKeys")
     /\ \E j \in 1..(i - 1) : Is(j, "feed", hist[i].c) /\ hist[j].it.k = "pkt" /\ hist[j].it.t = "EcdhInit" /\ hist[j].it.contributory

\* C09
NumbersUnique ==
  /\ \A c \in DOMAIN conn : \A m, n \in DOMAIN conn[c].nums : m # n => conn[c].nums[m] # conn[c].nums[n]
  /\ \A c \in DOMAIN conn : \A m \in DOMAIN conn[c].nums : chan[conn[c].nums[m]].c = c /\ ~chan[conn[c].nums[m]].pclosed
  /\ \A c \in DOMAIN conn : Count({i \in Idx : Is(i, "conf", c)})
        <= Count({i \in Idx : Is(i, "feed", c) /\ hist[i].it.k = "pkt" /\ hist[i].it.t = "Open" /\ hist[i].it.ty = "session"})

\* C10
OneProcess ==
  /\ \A p, r \in DOMAIN proc : p # r => proc[p].u # proc[r].u
  /\ \A c \in DOMAIN conn :
       LET reqs == {i \in Idx : Is(i, "feed", c) /\ hist[i].it.k = "pkt" /\ hist[i].it.t = "Request"} IN
       /\ Count({i \in Idx : Told(i, c, "Success") \/ Told(i, c, "Failure")}) <= Count({i \in reqs : hist[i].it.reply})
       /\ Count({i \in Idx : Is(i, "call", c) /\ hist[i].o.f = "spawn"}) <= Count({i \in reqs : hist[i].it.kind = "exec"})

\* C12, C13, C14
OutputBounds ==
  \A p \in DOMAIN proc :
    /\ \A s \in {1, 2} : proc[p].sent[s] <= proc[p].av[s]
    /\ proc[p].exitsent => proc[p].exited
    /\ (chan[proc[p].u].sclosed /\ ~chan[proc[p].u].pclosed) => (proc[p].eofsent /\ proc[p].exitsent /\ AllSent(p))
    /\ proc[p].eofsent => proc[p].oeof = <<TRUE, TRUE>>

Sum(S, f(_)) == MapThenSumSet(f, S)

WindowKept ==
  Fam = "io" =>
    LET grants == Sum({i \in Idx : hist[i].e = "feed" /\ hist[i].it.k = "pkt" /\ hist[i].it.t = "WindowAdjust"}, LAMBDA i : hist[i].it.n)
        data == Sum({i \in Idx : hist[i].e = "feed" /\ hist[i].it.k = "pkt" /\ hist[i].it.t = "Data"}, LAMBDA i : hist[i].it.n)
        credit == Sum({i \in Idx : hist[i].e = "credit"}, LAMBDA i : hist[i].o.n)
    IN /\ \A p \in DOMAIN proc : proc[p].sent[1] + proc[p].sent[2] <= 3 + grants
       /\ credit <= data

\* C08, C15: a server that does what it owes meets the obligations when it comes to rest
CanRest ==
  ENABLED ServerNext \/ (\A c \in DOMAIN conn : QuietConn(c, {}, {}))

\* Sensitivity: these must be violated, or the exploration reaches nothing
NeverProcess == proc = <<>>
NeverClosed == \A u \in DOMAIN chan : ~chan[u].sclosed
NeverOpen == \A c \in DOMAIN conn : conn[c].ph # "open"
NeverReleased == \A c \in DOMAIN conn : ~conn[c].closed
=============================================================================
