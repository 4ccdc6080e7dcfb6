------------------------------- MODULE MCTerms ------------------------------
(* With a hash that never collides (terms stand for themselves), keys of     *)
(* different purposes, directions and positions differ, and no two different *)
(* transcripts of the bounded domain have the same hash.                     *)
EXTENDS Terms

Sel == {"iv", "key", "mac"} \X {"cs", "sc"}

(* Free algebra: a hash is the tuple of the bytes and hashes it is made of *)
RECURSIVE Flat(_, _), Term(_, _)
Term(t, env) ==
  CASE t.k = "str" -> Str(env[t.n])
    [] t.k = "mpint" -> Mpint(env[t.n])
    [] t.k = "raw" -> env[t.n]
    [] t.k = "const" -> t.b
    [] t.k = "hash" -> <<[h |-> Flat(t.a, env)]>>
Flat(ts, env) == IF ts = <<>> THEN <<>> ELSE Term(ts[1], env) \o Flat(Tail(ts), env)

Small == {<<>>, <<0>>, <<1>>, <<0, 0, 0, 0>>}
Vals == [V_C : Small, V_S : {<<>>, <<0>>, <<1>>}, I_C : Small, I_S : {<<>>, <<1>>}, K_S : {<<>>, <<0, 0, 0, 1>>}, Q_C : {<<>>, <<0>>, <<1>>}, Q_S : {<<1>>, <<0>>},
         K : {<<0, 1>>, <<1>>, <<128>>, <<0, 128>>, <<127, 0>>}]

VARIABLE x
Init == x \in Vals
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

(* Everything can be read back from the bytes that are hashed: so different *)
(* transcripts are different inputs of the hash.                            *)
Read(b) ==
  LET a1 == ParseStr(b)
      a2 == ParseStr(a1.r)
      a3 == ParseStr(a2.r)
      a4 == ParseStr(a3.r)
      a5 == ParseStr(a4.r)
      a6 == ParseStr(a5.r)
      a7 == ParseStr(a6.r)
      a8 == ParseStr(a7.r)
  IN <<a1.v, a2.v, a3.v, a4.v, a5.v, a6.v, a7.v, a8.v, a8.r>>
Injective ==
  Read(Flat(ExchangeHash.a, x)) =
    <<x.V_C, x.V_S, x.I_C, x.I_S, x.K_S, x.Q_C, x.Q_S, Drop(Mpint(x.K), 4), <<>>>>

Positive == LET m == Drop(Mpint(x.K), 4) IN m = <<>> \/ m[1] < 128
Numeric == StripZeros(Drop(Mpint(x.K), 4)) = StripZeros(x.K)

SessionFirst == Take(Flat(SignData, [session |-> x.V_C, user |-> x.I_C, service |-> x.Q_C, alg |-> x.V_S, blob |-> x.I_S]), 4 + Len(x.V_C)) = Str(x.V_C)

KeyEnv == [K |-> x.K, H |-> x.V_C]
KeysDiffer ==
  \A a \in Sel, b \in Sel : a # b => Letter(a[1], a[2]) # Letter(b[1], b[2])
Chains ==
  \A a \in Sel :
    LET k == KeyBlocks(a[1], a[2], 3) IN
    /\ Len(k) = 3
    /\ Cardinality({k[1], k[2], k[3]}) = 3
    /\ \A b \in Sel \ {a} : \A i \in 1..3 : KeyBlocks(b[1], b[2], 3)[i] # k[i]
=============================================================================
