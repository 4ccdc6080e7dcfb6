------------------------------- MODULE Terms --------------------------------
(* What is hashed and signed, as terms over named inputs. Hash functions are *)
(* uninterpreted here; the harness evaluates the terms with SHA-256.         *)
EXTENDS Bytes

S(n) == [k |-> "str", n |-> n]       \* string of input n
MP(n) == [k |-> "mpint", n |-> n]    \* positive mpint of input n
Raw(n) == [k |-> "raw", n |-> n]     \* the bytes of input n
C(b) == [k |-> "const", b |-> b]     \* these bytes
H(ts) == [k |-> "hash", a |-> ts]    \* the hash of a concatenation

(* RFC 5656 section 4 with RFC 8731 section 3.1 *)
ExchangeHash == H(<<S("V_C"), S("V_S"), S("I_C"), S("I_S"), S("K_S"), S("Q_C"), S("Q_S"), MP("K")>>)

(* RFC 4252 section 7 *)
SignData == <<S("session"), C(<<50>>), S("user"), S("service"), C(Str(B("publickey"))), C(<<1>>),
              S("alg"), S("blob")>>

(* RFC 4253 section 7.2; the session identifier is the first exchange hash *)
Letter(purpose, dir) ==
  CASE purpose = "iv" /\ dir = "cs" -> 65
    [] purpose = "iv" /\ dir = "sc" -> 66
    [] purpose = "key" /\ dir = "cs" -> 67
    [] purpose = "key" /\ dir = "sc" -> 68
    [] purpose = "mac" /\ dir = "cs" -> 69
    [] purpose = "mac" /\ dir = "sc" -> 70

RECURSIVE KeyBlocks(_, _, _)
KeyBlocks(purpose, dir, n) ==
  IF n = 1 THEN <<H(<<MP("K"), Raw("H"), C(<<Letter(purpose, dir)>>), Raw("H")>>)>>
  ELSE LET p == KeyBlocks(purpose, dir, n - 1) IN
       Append(p, H(<<MP("K"), Raw("H")>> \o p))
=============================================================================
