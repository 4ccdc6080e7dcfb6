------------------------------ MODULE GenSshd -------------------------------
(* Scripts for clients of the real nora_sshd: random walks of Sshd.          *)
EXTENDS Sshd, Json, IOUtils, FiniteSets

VARIABLES cl, shell, script, st, left
gvars == <<cl, shell, script, st, left>>

Pick(x) == x[RandomElement(1..Len(x))]
Chance(p) == RandomElement(1..100) <= p
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Words == << B("o=0"), B("o=1"), B("o=100"), B("o=5000"), B("o=40000"), B("o=200000"), B("e=1"), B("e=77"), B("e=40000"), B("e=0"), B("c"), B("c"), B("x=0"), B("x=1"), B("x=5"),
            B("x=255"), B("x=128"), B("k=9"), B("k=15"), B("k=6"), B("k=1"), B("s=5"), B("s=30"), B("arg"), B("-la"), B("--"), B("'quoted"), B("arg'"), B("\"q\""), B("*"), B("$HOME"), B("a;b"), B("|"), B(">x"),
            B("&&"), B("\\n"), <<195, 169>>, <<255, 254>>, <<1>>, B("o="), B("o=x"), B("=5"), B("~"), B("probe"), B("#"), B("`id`"), B("{a,b}"), <<11>>, <<160>>, <<127>> >>
Gaps == << <<32>>, <<32>>, <<32>>, <<32, 32>>, <<9>>, <<10>>, <<13, 10>>, <<12>>, <<32, 9, 32>> >>
RECURSIVE Line(_)
Line(n) == IF n = 0 THEN <<>> ELSE Pick(Gaps) \o Pick(Words) \o Line(n - 1)
Wrongs == << <<>>, <<32>>, <<9, 10, 32>>, B("nosuch"), B("nosuch o=1"), B("/"), B("."), B("probe") \o <<0>>, B("probe a") \o <<0>> \o B("b"), B("'probe' x=1"), B("probe;"), B("/nonexistent/probe"), B("Probe"), <<0>>, <<255>>,
             B("prob e"), B("\"probe\""), <<11>> \o B("probe") >>
Cmd(z) == CASE Chance(12) -> Pick(Wrongs)
            [] OTHER -> (IF Chance(10) THEN Pick(Gaps) ELSE <<>>) \o B("probe") \o Line(Pick(<<0, 1, 1, 2, 2, 3, 3, 4, 5, 8>>)) \o (IF Chance(10) THEN Pick(Gaps) ELSE <<>>)

WrongSeq == SetSeq(Wrong)
Stages == << "tcp", "ident", "kexinit", "ecdh", "newkeys" >>
Evils == << "zeros", "ones", "random", "line", "packet", "empty-packet", "unknown-channel", "disconnect" >>

Init ==
  cl = <<>> /\ script = <<>> /\ st = "start" /\ shell = "probe" /\ left = 0

Start ==
  /\ st = "start" /\ st' = "go"
  /\ shell' \in {Pick(<<"probe", "probe", "probe", "probe", "none", "missing">>)}
  /\ left' \in {RandomElement(15..70)}
  /\ UNCHANGED <<cl, script>>

Emit(o) == script' = Append(script, o)
Set(c, k) == cl' = (c :> k) @@ cl

Here == {c \in DOMAIN cl : cl[c].ph # "gone"}
Running(k) == {n \in DOMAIN k.chans : k.chans[n].st = "run"}
Usable(k) == {n \in DOMAIN k.chans : k.chans[n].st # "closed"}

Connect ==
  \E c \in {Cardinality(DOMAIN cl) + 1} :
  \E upto \in {IF Chance(75) THEN "full" ELSE Pick(Stages)} :
    Emit([op |-> "connect", c |-> c, upto |-> upto]) /\ Set(c, NewClient(upto))

Misbehave(c) ==
  \E x \in {RandomElement(1..10)}, e \in {Pick(Evils)}, rst \in {Chance(50)} :
    IF (x <= 4 /\ cl[c].ph # "tcp") \/ (x <= 4 /\ e \in {"zeros", "ones", "random", "line"})
    THEN Emit([op |-> "garbage", c |-> c, how |-> e]) /\ Set(c, [cl[c] EXCEPT !.ph = "evil"])
    ELSE IF x = 5 THEN Emit([op |-> "stall", c |-> c]) /\ Set(c, [cl[c] EXCEPT !.ph = "evil"])
    ELSE Emit([op |-> "drop", c |-> c, rst |-> rst]) /\ Set(c, [cl[c] EXCEPT !.ph = "gone"])

Leave(c) == \E rst \in {Chance(50)} : Emit([op |-> "drop", c |-> c, rst |-> rst]) /\ Set(c, [cl[c] EXCEPT !.ph = "gone"])

DoAuth(c) ==
  \E how \in {IF Chance(60) THEN "good" ELSE IF Chance(20) THEN "probe" ELSE Pick(WrongSeq)} :
    Emit([op |-> "auth", c |-> c, how |-> how]) /\ Set(c, AfterAuth(cl[c], how))

DoOpen(c) ==
  LET k == cl[c]
      n == Cardinality(DOMAIN k.chans) + 1 IN
  \E w \in {Pick(<< 2000000000, 2000000000, 1000000, 3000, 500 >>)}, m \in {Pick(<< 32768, 32768, 1000, 100 >>)} :
    Emit([op |-> "open", c |-> c, k |-> n, win |-> w, max |-> m]) /\ Set(c, AfterOpen(k, n, w))

Request(c, n) ==
  \E kind \in {IF Chance(85) THEN "exec" ELSE "shell"}, cmd \in {Cmd(0)}, reply \in {Chance(80)} :
    /\ Set(c, AfterRequest(cl[c], n, kind, IF kind = "exec" THEN cmd ELSE <<>>, shell))
    /\ Emit(IF kind = "exec" THEN [op |-> "exec", c |-> c, k |-> n, cmd |-> cmd, reply |-> reply]
            ELSE [op |-> "shell", c |-> c, k |-> n, reply |-> reply])

(* A process whose output the client does not let through stops reading its  *)
(* input: see the open finding in known_findings.txt                         *)
InputOf(c, n) ==
  LET ch == cl[c].chans[n]
      reads == ch.kind = "shell" \/ Reads(ch.cmd) IN
  \E x \in {RandomElement(1..10)}, m \in {IF reads THEN Pick(<<1, 5, 100, 3000, 40000, 100000>>) ELSE Pick(<<1, 100, 1000>>)} :
    IF ch.eof \/ (x <= 3 /\ WillEnd(cl[c], n)) THEN
      (IF WillEnd(cl[c], n) THEN Emit([op |-> "finish", c |-> c, k |-> n]) /\ Set(c, AfterClose(cl[c], n)) ELSE UNCHANGED <<cl, script>>)
    ELSE IF x <= 5 THEN Emit([op |-> "eof", c |-> c, k |-> n]) /\ Set(c, AfterEof(cl[c], n))
    ELSE IF x = 6 /\ Chance(40) THEN Emit([op |-> "close", c |-> c, k |-> n]) /\ Set(c, AfterClose(cl[c], n))
    ELSE IF (~reads /\ ch.fed > 20000) \/ (ch.win < 2000000000 /\ ch.fed + m > 60000) THEN UNCHANGED <<cl, script>>
    ELSE Emit([op |-> "data", c |-> c, k |-> n, n |-> m]) /\ Set(c, AfterData(cl[c], n, m))

OneOpen(c) ==
  LET k == cl[c] IN
  \E x \in {RandomElement(1..100)} :
    CASE x <= 4 -> Misbehave(c)
      [] x <= 30 \/ Usable(k) = {} -> IF Cardinality(DOMAIN k.chans) < 4 THEN DoOpen(c) ELSE Leave(c)
      [] OTHER -> \E n \in {RandomElement(Usable(k))} :
                    IF k.chans[n].st = "run" /\ x <= 95 THEN InputOf(c, n) ELSE Request(c, n)

Go ==
  /\ st = "go"
  /\ UNCHANGED shell
  /\ left' = left - 1
  /\ st' = IF left = 0 THEN "wind" ELSE "go"
  /\ \E x \in {RandomElement(1..100)} :
       IF Here = {} \/ (x <= 12 /\ Cardinality(Here) < 5) THEN Connect
       ELSE \E c \in {RandomElement(Here)} :
              CASE cl[c].ph \in {"evil", "tcp"} -> IF Chance(40) THEN Leave(c) ELSE IF cl[c].ph = "tcp" /\ Chance(40) THEN Misbehave(c) ELSE UNCHANGED <<cl, script>>
                [] cl[c].ph = "auth" -> IF x > 95 THEN Misbehave(c) ELSE DoAuth(c)
                [] cl[c].ph = "open" -> OneOpen(c)

(* Every client that behaved gets its results; then a new one is served *)
Pending == {c \in Here : cl[c].ph = "open" /\ Running(cl[c]) # {}}
Wind ==
  /\ st = "wind"
  /\ UNCHANGED <<shell, left>>
  /\ IF Pending # {}
     THEN LET c == CHOOSE c \in Pending : TRUE
              n == CHOOSE n \in Running(cl[c]) : TRUE IN
          /\ st' = st
          /\ IF WillEnd(cl[c], n) THEN Emit([op |-> "finish", c |-> c, k |-> n]) /\ Set(c, AfterClose(cl[c], n))
             ELSE Emit([op |-> "eof", c |-> c, k |-> n]) /\ Set(c, AfterEof(cl[c], n))
     ELSE /\ st' = "end"
          /\ cl' = cl
          /\ script' = script \o << [op |-> "connect", c |-> 99, upto |-> "full"], [op |-> "auth", c |-> 99, how |-> "bad-s"], [op |-> "auth", c |-> 99, how |-> "good"],
                 [op |-> "open", c |-> 99, k |-> 1, win |-> 100000, max |-> 32768], [op |-> "exec", c |-> 99, k |-> 1, cmd |-> B("probe o=10 c e=3 x=9"), reply |-> TRUE],
                 [op |-> "data", c |-> 99, k |-> 1, n |-> 50], [op |-> "eof", c |-> 99, k |-> 1], [op |-> "finish", c |-> 99, k |-> 1], [op |-> "alive"] >>

Done ==
  /\ st = "end"
  /\ Serialize(ToJson([name |-> "sshd", shell |-> shell, ops |-> script]) \o "\n", IOEnv.OUT,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ st' = "written"
  /\ UNCHANGED <<cl, shell, script, left>>

Next == Start \/ Go \/ Wind \/ Done
=============================================================================
