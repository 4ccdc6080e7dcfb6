---------------------------- MODULE ServerSteps -----------------------------
(***************************************************************************)
(* NoraServer closed under a server that does what it owes: every step the *)
(* server may take in a state. Used to explore the design exhaustively      *)
(* (MCServer) and to generate scripts for the real server (GenServer).      *)
(***************************************************************************)
EXTENDS NoraServer, Bytes, SequencesExt, Json, IOUtils

VARIABLE env   \* what the environment did so far

EnvConn == [opens |-> <<>>, pos |-> 0, fed |-> 0]
Env0 == [id |-> 0, np |-> 0, nu |-> 0, k |-> <<>>, num |-> <<>>, blocked |-> {}, failing |-> {}, wb |-> {}]

NumNames == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15">>
FreeNum(c) == NumNames[CHOOSE i \in 1..16 : NumNames[i] \notin DOMAIN conn[c].nums
                         /\ \A j \in 1..(i - 1) : NumNames[j] \in DOMAIN conn[c].nums]

\* An owed message with everything the peer checks
Full(m) == m @@ [ok |-> TRUE, key |-> TRUE, q |-> TRUE, sig |-> TRUE]

ReceiveStep(c) ==
  LET k == conn[c]
      o == Head(k.owe) IN
  /\ ~k.closed /\ ~k.werr /\ k.owe # <<>> /\ ~(k.dead /\ k.must)
  /\ CASE o.k = "srv" -> c \notin env.wb /\ Send(c, Full(o.m)) /\ UNCHANGED env
       [] o.k = "conf" ->
            /\ c \notin env.wb
            /\ Send(c, [t |-> "OpenConf", peer |-> o.it.peer, num |-> FreeNum(c), max |-> 32768])
            /\ env' = [env EXCEPT !.num = Put(@, o.it.uid, FreeNum(c))]
       [] o.k = "credit" -> c \notin env.wb /\ Send(c, [t |-> "WindowAdjust", peer |-> o.peer, n |-> o.n]) /\ UNCHANGED env
       [] o.k = "call" ->
            /\ CASE o.f = "auth" -> CallAuth(env.id + 1, o.a)
                 [] o.f = "pk" -> CallKey(env.id + 1, o.a)
                 [] o.f = "spawn" -> CallSpawn(env.id + 1, k.user, o.a)
            /\ env' = [env EXCEPT !.id = @ + 1]
       [] o.k = "in" ->
            /\ UNCHANGED env
            /\ IF o.p \in env.failing THEN InputError(o.p)
               ELSE o.p \notin env.blocked /\ \E n \in {1, o.n} : Input(o.p, n, {o.at})

Over(p) == proc[p].oeof = <<TRUE, TRUE>> /\ (proc[p].sent = proc[p].av \/ chan[proc[p].u].pclosed)

OutputStep(p) ==
  LET pr == proc[p]
      c == pr.c
      ch == chan[pr.u]
      about == [peer |-> ch.peer] IN
  /\ ~conn[c].closed /\ ~conn[c].werr /\ ~conn[c].dead /\ c \notin env.wb /\ ~ch.sclosed
  /\ UNCHANGED env
  /\ \/ \E s \in {1, 2} :
          /\ CanSend(p, s)
          /\ \E n \in {1, Min(pr.av[s] - pr.sent[s], Min(ch.win, ch.max))} :
               Send(c, about @@ [t |-> IF s = 1 THEN "Data" ELSE "ExtData", p |-> p, s |-> s, ok |-> TRUE, n |-> n, ty |-> "1"])
     \/ Over(p) /\ ~pr.eofsent /\ Send(c, about @@ [t |-> "Eof"])
     \/ /\ Over(p) /\ pr.eofsent /\ pr.exited /\ ~pr.exitsent
        /\ Send(c, about @@ [t |-> "Request", ty |-> "exit-status", reply |-> FALSE, status |-> pr.status])
     \/ Over(p) /\ pr.exitsent /\ Send(c, about @@ [t |-> "Close"])

ReleaseStep(c) ==
  \/ conn[c].accepted /\ ~conn[c].closed /\ (conn[c].werr \/ (conn[c].dead /\ conn[c].wait.id = 0)) /\ Closed(c) /\ UNCHANGED env
  \/ UNCHANGED env /\ \E p \in ProcsOf(c) :
       proc[p].stdin \in {"open", "broken"} /\ (conn[c].closed \/ chan[proc[p].u].eof) /\ InputDrop(p)

AcceptStep(c) == ~conn[c].accepted /\ Accept(c) /\ UNCHANGED env

ServerNext ==
  \/ \E c \in DOMAIN conn : AcceptStep(c) \/ ReceiveStep(c) \/ ReleaseStep(c)
  \/ \E p \in DOMAIN proc : OutputStep(p)

NoReport(labels, reason) == FALSE

-----------------------------------------------------------------------------
(* Environment actions, with the effect on env *)

NewUid(c) == c * 1000 + Len(env.k[c].opens) + 1

EnvConnect == LET c == Cardinality(DOMAIN conn) + 1 IN
              Connect(c) /\ env' = [env EXCEPT !.k = Put(@, c, EnvConn)]

EnvFeed(c, it) ==
  LET k == env.k[c]
      full == CASE it.k = "pkt" /\ it.t = "Open" -> it @@ [uid |-> NewUid(c)]
                [] it.k = "pkt" /\ it.t = "Data" -> it @@ [at |-> k.pos]
                [] OTHER -> it IN
  /\ Feed(c, full)
  /\ env' = [env EXCEPT !.k[c].fed = @ + 1,
        !.k[c].opens = IF it.k = "pkt" /\ it.t = "Open" THEN Append(@, NewUid(c)) ELSE @,
        !.k[c].pos = IF it.k = "pkt" /\ it.t = "Data" THEN @ + it.n ELSE @]

Waiting == {c \in DOMAIN conn : conn[c].wait.id # 0}

EnvResolve(c, ok, i, o, x) ==
  /\ Resolved(conn[c].wait.id, [ok |-> ok, user |-> env.nu + 1, p |-> env.np + 1, i |-> i, o |-> o, x |-> x])
  /\ env' = [env EXCEPT !.nu = IF ok /\ conn[c].wait.o.f = "auth" THEN @ + 1 ELSE @,
                        !.np = IF ok /\ conn[c].wait.o.f = "spawn" THEN @ + 1 ELSE @]
=============================================================================
