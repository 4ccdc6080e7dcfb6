------------------------------ MODULE TraceKdf ------------------------------
(* Judges key derivation (C20) and the transcript hash (C04). The hash is an *)
(* unknown function here: what the library fed to it and got from it is in   *)
(* the trace (a finite map), and the terms are evaluated over that map.      *)
EXTENDS Terms, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev == Traces[tid].trace[l]
Len_ == Len(Traces[tid].trace)
Chk(labels, why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, labels, why>>) /\ FALSE

(* The hash of b, or <<>> if the library never asked for it *)
HashOf(hs, b) ==
  IF \E i \in 1..Len(hs) : hs[i].i = b THEN hs[CHOOSE i \in 1..Len(hs) : hs[i].i = b].o ELSE <<>>

RECURSIVE Eval(_, _, _), EvalSeq(_, _, _)
Eval(t, env, hs) ==
  CASE t.k = "str" -> Str(env[t.n])
    [] t.k = "mpint" -> Mpint(env[t.n])
    [] t.k = "raw" -> env[t.n]
    [] t.k = "const" -> t.b
    [] t.k = "hash" -> HashOf(hs, EvalSeq(t.a, env, hs))
EvalSeq(ts, env, hs) == IF ts = <<>> THEN <<>> ELSE Eval(ts[1], env, hs) \o EvalSeq(Tail(ts), env, hs)

Derived(e) ==
  LET ts == KeyBlocks(e.purpose, e.dir, e.n)
      env == [K |-> e.K, H |-> e.H]
  IN /\ Chk({"C20"}, "wrong number of blocks", Len(e.out) = e.n)
     /\ Chk({"C20"}, "not the hash that RFC 4253 section 7.2 prescribes",
            \A i \in 1..e.n : /\ e.out[i] # <<>>
                              /\ e.out[i] = Eval(ts[i], env, e.hashes))

Transcript(e) ==
  LET env == [V_C |-> e.V_C, V_S |-> e.V_S, I_C |-> e.I_C, I_S |-> e.I_S,
              K_S |-> Str(e.key[1]) \o Str(e.key[2]) \o Str(e.key[3]),
              Q_C |-> e.Q_C, Q_S |-> e.Q_S, K |-> e.K]
  IN Chk({"C04"}, "not the hash of the transcript", e.out = Eval(ExchangeHash, env, e.hashes))

Init == tid \in 1..Len(Traces) /\ l = 1
Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e = "derive" -> Derived(Ev)
       [] Ev.e = "sha" -> Chk({"C20"}, "not the SHA-256 chain", Ev.same)
       [] Ev.e = "transcript" -> Transcript(Ev)
       [] Ev.e = "panic" -> Chk({"C20", "C04"}, "derivation panics", FALSE)
Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED <<tid, l>>
Next == Step \/ Finished
=============================================================================
