----------------------------- MODULE TraceFresh -----------------------------
(* Judges what real servers drew in many handshakes of many runs (C25):      *)
(* one history, as no value may appear twice anywhere. That is decided at    *)
(* its end, which is the same as at every step but takes less time.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
Tr == Traces[tid].trace
Ev == Tr[l]
Len_ == Len(Tr)
Chk(why, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", tid, l, {"C25"}, why>>) /\ FALSE

Size == [cookie |-> 16, key |-> 32]
Init == tid \in 1..Len(Traces) /\ l = 1

\* What is the same whenever it is drawn from the same generator, entropy itself aside
At(k) == {i \in 1..(l - 1) : Tr[i].e = k /\ ~(k = "seed" /\ Tr[i].how = "entropy")}
Values(k) == {Tr[i].v : i \in At(k)}
Distinct(k) == Cardinality(Values(k)) = Cardinality(At(k))

(* With n values drawn at random, any byte of them takes more than n/10 values (n <= 1000)
   but with negligible probability *)
Varied(k) ==
  LET n == Cardinality(At(k))
      m == IF n > 1000 THEN 1000 ELSE n
      vs == Values(k) IN
  n < 150 \/ \A i \in 1..Size[k] : Cardinality({v[i] : v \in vs}) > m \div 10

Step ==
  /\ l <= Len_
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ IF Ev.e = "end"
     THEN /\ Chk("two generators are seeded alike", Distinct("seed"))
          /\ Chk("two connections have the same cookie", Distinct("cookie"))
          /\ Chk("two connections have the same ephemeral key", Distinct("key"))
          /\ Chk("two connections have the same session identifier", Distinct("sid"))
          /\ Chk("two signatures use the same secret number", Distinct("nonce"))
          /\ Chk("cookies are not random in every byte", Varied("cookie"))
          /\ Chk("ephemeral keys are not random in every byte", Varied("key"))
     ELSE /\ Chk("a generator is seeded with few bits", Ev.e = "seed" => Ev.how # "u64")
          /\ Chk("wrong size", Ev.e \in {"cookie", "key"} => Len(Ev.v) = Size[Ev.e])

Finished == l > Len_ /\ PrintT(<<"DONE", tid>>) /\ UNCHANGED vars
Next == Step \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
