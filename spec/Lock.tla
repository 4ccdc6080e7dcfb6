-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* How the threads of one connection share its write half (C07, C12, C14). *)
(*                                                                         *)
(* Thread Receive answers the peer: it needs the write lock only. The other *)
(* threads forward output: before each packet they take a part of the       *)
(* channel's window. A thread runs only if it was woken (it is in ready);   *)
(* a thread that finds the lock taken, the window empty or the transport     *)
(* full registers itself there and sleeps. Waiting threads may disappear.    *)
(*                                                                         *)
(* Design of the lock:                                                     *)
(*   "queue"  it is passed on in the order in which it was asked for         *)
(*   "all"    whoever releases it wakes everybody, the fastest gets it       *)
(*   "one"    whoever releases it wakes the one that waits last, even if it   *)
(*            is not there any more                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Outs,       \* threads that forward output
          Receive,    \* the receive thread
          Packets,    \* packets each thread wants to send
          Pieces,     \* writes that one packet needs
          MaxGrant,   \* window the peer grants in total
          Design

Threads == Outs \cup {Receive}

VARIABLES
  st,        \* "window", "want", "write", "done", "gone"
  left,      \* packets left
  ready,     \* threads that were woken
  lock,      \* thread that holds the lock, or "none"
  lockq,     \* threads to wake when the lock is released, in that order
  win, winq, granted, open,
  room,      \* pieces that the transport takes now
  roomq,
  pos,       \* pieces of the current packet that were written
  seq,       \* number of the next packet
  stream,    \* <<number, piece, thread>>
  passed     \* 0, or 1 and how often others got the lock since a thread found it taken

vars == <<st, left, ready, lock, lockq, win, winq, granted, open, room, roomq, pos, seq, stream, passed>>

Elems(s) == {s[i] : i \in 1..Len(s)}
First(t) == IF t = Receive THEN "want" ELSE "window"

Init ==
  /\ st = [t \in Threads |-> First(t)]
  /\ left = [t \in Threads |-> Packets]
  /\ ready = Threads
  /\ lock = "none" /\ lockq = <<>>
  /\ win = 0 /\ winq = {} /\ granted = 0 /\ open = TRUE
  /\ room = 0 /\ roomq = {}
  /\ pos = 0 /\ seq = 0 /\ stream = <<>>
  /\ passed = [t \in Threads |-> 0]


\* Window::take
TakeWindow(t) ==
  /\ t \in ready /\ st[t] = "window"
  /\ IF ~open THEN /\ st' = [st EXCEPT ![t] = "done"]
                   /\ ready' = ready \ {t}
                   /\ UNCHANGED <<win, winq>>
     ELSE IF win > 0 THEN /\ win' = win - 1
                          /\ st' = [st EXCEPT ![t] = "want"]
                          /\ UNCHANGED <<ready, winq>>
     ELSE /\ winq' = winq \cup {t}
          /\ ready' = ready \ {t}
          /\ UNCHANGED <<st, win>>
  /\ UNCHANGED <<left, lock, lockq, granted, open, room, roomq, pos, seq, stream, passed>>

\* LocalMutex::lock
MayTake(t) == lock = "none" /\ (Design = "queue" => (lockq = <<>> \/ Head(lockq) = t))
TakeLock(t) ==
  /\ t \in ready /\ st[t] = "want"
  /\ IF MayTake(t)
     THEN /\ lock' = t
          /\ st' = [st EXCEPT ![t] = "write"]
          /\ pos' = 0
          /\ lockq' = IF Design = "queue" /\ lockq # <<>> THEN Tail(lockq) ELSE lockq
          /\ passed' = [x \in Threads |-> IF x = t THEN 0 ELSE IF passed[x] > 0 THEN passed[x] + 1 ELSE 0]
          /\ UNCHANGED ready
     ELSE /\ lockq' = IF Design = "queue" THEN IF t \in Elems(lockq) THEN lockq ELSE Append(lockq, t) ELSE <<t>> \o lockq
          /\ ready' = ready \ {t}
          /\ passed' = [passed EXCEPT ![t] = IF @ = 0 THEN 1 ELSE @]
          /\ UNCHANGED <<lock, st, pos>>
  /\ UNCHANGED <<left, win, winq, granted, open, room, roomq, seq, stream>>

\* write_all, and the release of the lock behind the last piece
Write(t) ==
  /\ t \in ready /\ st[t] = "write"
  /\ IF room = 0
     THEN /\ roomq' = roomq \cup {t}
          /\ ready' = ready \ {t}
          /\ UNCHANGED <<st, left, lock, lockq, room, pos, seq, stream>>
     ELSE /\ room' = room - 1
          /\ stream' = Append(stream, <<seq, pos + 1, t>>)
          /\ UNCHANGED roomq
          /\ IF pos + 1 < Pieces
             THEN pos' = pos + 1 /\ UNCHANGED <<st, left, lock, lockq, ready, seq>>
             ELSE /\ pos' = 0 /\ seq' = seq + 1
                  /\ lock' = "none"
                  /\ left' = [left EXCEPT ![t] = @ - 1]
                  /\ st' = [st EXCEPT ![t] = IF left[t] = 1 THEN "done" ELSE First(t)]
                  /\ LET woken == IF lockq = <<>> THEN {} ELSE IF Design = "all" THEN Elems(lockq) ELSE {Head(lockq)} IN
                     /\ ready' = ready \cup {x \in woken : st[x] # "gone"}
                     /\ lockq' = CASE Design = "all" \/ lockq = <<>> -> <<>> [] Design = "one" -> Tail(lockq) [] OTHER -> lockq
  /\ UNCHANGED <<win, winq, granted, open, passed>>

Grant ==
  /\ open /\ granted < MaxGrant
  /\ granted' = granted + 1 /\ win' = win + 1
  /\ ready' = ready \cup winq /\ winq' = {}
  /\ UNCHANGED <<st, left, lock, lockq, open, room, roomq, pos, seq, stream, passed>>

PeerCloses ==
  /\ open /\ open' = FALSE
  /\ ready' = ready \cup winq /\ winq' = {}
  /\ UNCHANGED <<st, left, lock, lockq, win, granted, room, roomq, pos, seq, stream, passed>>

Drain ==
  /\ room = 0 /\ room' = 1
  /\ ready' = ready \cup roomq /\ roomq' = {}
  /\ UNCHANGED <<st, left, lock, lockq, win, winq, granted, open, pos, seq, stream, passed>>

\* A thread that waits for the lock disappears, with its place in the queue if there is one
Vanish(t) ==
  /\ t \in Outs /\ st[t] = "want"
  /\ \A x \in Outs : st[x] # "gone"
  /\ st' = [st EXCEPT ![t] = "gone"]
  /\ passed' = [passed EXCEPT ![t] = 0]
  /\ lockq' = IF Design = "queue" THEN SelectSeq(lockq, LAMBDA x : x # t) ELSE lockq
  /\ ready' = (ready \ {t}) \cup (IF Design = "queue" /\ lockq' # <<>> THEN {Head(lockq')} ELSE {})
  /\ UNCHANGED <<left, lock, win, winq, granted, open, room, roomq, pos, seq, stream>>

Next == \/ \E t \in Threads : TakeWindow(t) \/ TakeLock(t) \/ Write(t) \/ Vanish(t)
        \/ Grant \/ PeerCloses \/ Drain

Spec == Init /\ [][Next]_vars
        /\ \A t \in Threads : WF_vars(TakeWindow(t)) /\ WF_vars(TakeLock(t)) /\ WF_vars(Write(t))
        /\ WF_vars(Drain) /\ WF_vars(Grant)

-----------------------------------------------------------------------------
\* C07: whole packets under consecutive numbers, whoever sends
WholePackets ==
  \A i \in 1..Len(stream) :
    /\ stream[i][1] = (i - 1) \div Pieces
    /\ stream[i][2] = ((i - 1) % Pieces) + 1
    /\ (stream[i][2] > 1) => stream[i][3] = stream[i - 1][3]

Exclusive == \A t \in Threads : (st[t] = "write") <=> (lock = t)

\* Nobody sleeps while what it waits for is there
NoLostWakeUp ==
  \A t \in Threads \ ready :
    /\ st[t] = "want" => (t \in Elems(lockq) /\ (lock # "none" \/ (Design = "queue" /\ Head(lockq) \in ready)))
    /\ st[t] = "window" => (open /\ win = 0 /\ t \in winq)
    /\ st[t] = "write" => (room = 0 /\ t \in roomq)

\* C14: no more is sent than was granted
SentBy(t) == Cardinality({i \in 1..Len(stream) : stream[i][3] = t /\ stream[i][2] = 1})
WithinWindow == Cardinality({i \in 1..Len(stream) : stream[i][3] \in Outs /\ stream[i][2] = 1}) <= granted

\* C26: nobody gets the lock twice while another waits
InOrder == \A t \in Threads : passed[t] <= Cardinality(Threads)

\* C07: whatever waits is sent once the connection is writable
EverythingSent == \A t \in Threads : <>(st[t] \in {"done", "gone"})
=============================================================================
