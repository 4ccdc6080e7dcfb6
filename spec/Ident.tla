-------------------------------- MODULE Ident --------------------------------
(***************************************************************************)
(* Recognition of the peer's identification (C16): the byte-wise automaton  *)
(* against the definition in terms of lines, on every string over Alphabet  *)
(* up to MaxLen bytes. "V" stands for the four bytes "2.0-" (the version     *)
(* that is supported), every other symbol for itself.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Alphabet, MaxLen,
          MaxId      \* longest identification, in symbols

VARIABLES in, state, id, cr

vars == <<in, state, id, cr>>

Init == in = <<>> /\ state = "start" /\ id = <<>> /\ cr = FALSE

Over == state \in {"ok", "bad"}
Push(x) == IF Len(id) + Len(x) > MaxId THEN state' = "bad" /\ UNCHANGED id ELSE id' = id \o x /\ UNCHANGED state

Next ==
  /\ Len(in) < MaxLen
  /\ ~Over
  /\ \E b \in Alphabet :
       /\ in' = Append(in, b)
       /\ CASE state \in {"start", "S", "SS", "SSH", "skip", "skipcr"} ->
                 /\ state' = (CASE state = "start" /\ b = "S" -> "S"
                                [] state = "S" /\ b = "S" -> "SS"
                                [] state = "SS" /\ b = "H" -> "SSH"
                                [] state = "SSH" /\ b = "-" -> "version"
                                [] state = "skipcr" /\ b = "LF" -> "start"
                                [] b = "CR" -> "skipcr"
                                [] OTHER -> "skip")
                 /\ UNCHANGED <<id, cr>>
            [] state = "version" ->
                 /\ IF b = "V" THEN state' = "rest" /\ id' = <<"S", "S", "H", "-", "V">>
                    ELSE state' = "bad" /\ UNCHANGED id
                 /\ UNCHANGED cr
            [] state = "rest" ->
                 CASE ~cr /\ b = "CR" -> cr' = TRUE /\ UNCHANGED <<state, id>>
                   [] cr /\ b = "LF" -> state' = "ok" /\ UNCHANGED <<id, cr>>
                   [] cr /\ b = "CR" -> Push(<<"CR">>) /\ UNCHANGED cr
                   [] ~cr -> Push(<<b>>) /\ UNCHANGED cr
                   [] cr -> Push(<<"CR", b>>) /\ cr' = FALSE

Spec == Init /\ [][Next]_vars

\* The identification line itself, deeper
Prefix == <<"S", "S", "H", "-", "V">>
SpecRest == /\ in = Prefix /\ state = "rest" /\ id = Prefix /\ cr = FALSE
            /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Lines are what CR LF separates
Breaks(s) == {i \in 1..(Len(s) - 1) : s[i] = "CR" /\ s[i + 1] = "LF"}
\* where lines begin
Begins(s) == {1} \cup {i + 2 : i \in Breaks(s)}
Starts(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The line that begins with "SSH-"
Candidates(s) == {i \in Begins(s) : Starts(s, i, <<"S", "S", "H", "-">>)}
Verdict(s) ==
  IF Candidates(s) = {} THEN [r |-> "more", id |-> <<>>]
  ELSE LET i == Least(Candidates(s))
           ends == {j \in Breaks(s) : j >= i}
           e == IF ends = {} THEN 0 ELSE Least(ends) IN
       IF i + 4 > Len(s) THEN [r |-> "more", id |-> <<>>]
       ELSE IF ~Starts(s, i, <<"S", "S", "H", "-", "V">>) THEN [r |-> "bad", id |-> <<>>]
       \* complete: short enough or not
       ELSE IF e > 0 THEN IF e - i <= MaxId THEN [r |-> "ok", id |-> SubSeq(s, i, e - 1)] ELSE [r |-> "bad", id |-> <<>>]
       \* incomplete: too long if even an immediate CR LF does not help
       ELSE LET n == Len(s) - i + 1
                n2 == IF s[Len(s)] = "CR" THEN n - 1 ELSE n IN
            IF n2 > MaxId THEN [r |-> "bad", id |-> <<>>] ELSE [r |-> "more", id |-> <<>>]

Exact ==
  LET v == Verdict(in) IN
  /\ (state = "ok") <=> (v.r = "ok")
  /\ (state = "bad") <=> (v.r = "bad")
  /\ (state = "ok") => (id = v.id)
\* Sensitivity
NeverOk == state # "ok"
NeverBad == state # "bad"
=============================================================================
