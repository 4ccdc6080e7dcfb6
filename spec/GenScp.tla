------------------------------- MODULE GenScp -------------------------------
(* Scripts for the real nora_scp: random walks of the receiver and sender.   *)
(* FAM: recv or send. A script is a sequence of items (see Scp), "cut" (wait *)
(* until the program waits for input) and "eof".                             *)
EXTENDS Scp, Json, IOUtils

VARIABLES r, s, conf, script, st
gvars == <<r, s, conf, script, st>>

Fam == IOEnv.FAM
Pick(x) == x[RandomElement(1..Len(x))]
Chance(p) == RandomElement(1..100) <= p

Fill(c, n) == [i \in 1..n |-> c]
GoodNames == << B("a"), B("b"), B("file.txt"), B("with space"), B(" lead"), B("two  spaces "), <<195, 169>>, B("..."), B("..a"), B("a.."), B(".hidden"),
                B("-t"), B("C0644 5 x"), B("*"), B("~"), B("$HOME"), B("\\x"), <<97, 13>>, <<1, 2>>, B("taken"), B("a"), Fill(120, 255), B("%s") >>
EvilNames == << B("../evil"), B(".."), B("."), <<>>, B("/SCRATCH/evil"), B("sub/evil"), B("sub/../evil"), B("./x"), B("x/"), B("/"), B("../out/../evil"),
                B("..//evil"), B("x/.."), B("../taken"), B("a/b/c"), B("/SCRATCH/outside") >>
OddNames == << <<97, 0, 98>>, Fill(121, 256), B("adir"), <<46, 46, 0>> >>
Sizes == << 0, 0, 1, 1, 2, 5, 12, 33, 63, 64, 100, 255, 256, 1000, 8191, 8192, 8193, 32767, 32768, 32769, 65536, 100000 >>
Modes == << "C0644", "C0755", "C0600", "C0000", "C0777" >>

Mk(n, name) == B(Pick(Modes)) \o <<Space>> \o Digits(n) \o <<Space>> \o name \o <<Newline>>
BadHeaders == << B("D0755 0 dir") \o <<10>>, B("T123 0 123 0") \o <<10>>, <<10>>, <<0>>, B("X") \o <<10>>, <<1>> \o B("error") \o <<10>>, B("E") \o <<10>>,
                 B("C0644") \o <<10>>, B("C0644 5") \o <<10>>, B("C0644 x name") \o <<10>>, B("C0644 -1 name") \o <<10>>, B("C0644  5 name") \o <<10>>,
                 B("C0644 5x name") \o <<10>>, B("C0644 99999999999999999999999999 name") \o <<10>>, B("C") \o <<10>>, B("C 5") \o <<10>>,
                 B("C0644 1.5 name") \o <<10>>, B("C0644 0x5 name") \o <<10>>, B("C0644 5 ") \o <<255, 254, 10>>, <<67, 200, 32>> \o B("5 name") \o <<10>>, B("c0644 5 a") \o <<10>>,
                 B(" C0644 5 a") \o <<10>> >>

HeaderText(z) ==
  CASE Chance(70) -> Mk(Pick(Sizes), Pick(GoodNames))
    [] Chance(45) -> Mk(Pick(Sizes), Pick(EvilNames))
    [] Chance(15) -> Mk(Pick(Sizes), Pick(OddNames))
    [] OTHER -> Pick(BadHeaders)

Lit(b) == [k |-> "b", b |-> b]
Cut == [k |-> "cut"]

Targets == << <<B("t1")>>, <<B("t1"), B("t2")>>, <<B("deep/er/t1"), B("t2"), B("deep/t3")>>, <<B("taken")>>, <<B("adir")>>, <<>>, <<B("t1"), B("t1")>>,
              <<B("with space")>>, <<B("t1"), B("adir"), B("t2")>>, <<B("t1"), B("t2"), B("t3"), B("t4")>> >>
Files == << [name |-> B("a"), n |-> 0], [name |-> B("b"), n |-> 1], [name |-> B("c d"), n |-> 5], [name |-> <<195, 169>>, n |-> 64], [name |-> B("e.txt"), n |-> 1000],
            [name |-> B("f"), n |-> 32767], [name |-> B("g"), n |-> 32768], [name |-> B("h"), n |-> 32769], [name |-> B("i"), n |-> 65536], [name |-> B("j"), n |-> 200000],
            [name |-> B("k"), n |-> 255], [name |-> B("-k"), n |-> 12], [name |-> B("C0644 5 x"), n |-> 9], [name |-> B("missing"), n |-> 0 - 1], [name |-> <<97, 10, 98>>, n |-> 3] >>
SomeFiles(z) == LET k == Pick(<<0, 1, 1, 2, 2, 3, 5>>)
                    hi == IF Chance(25) THEN Len(Files) ELSE Len(Files) - 2
                IN [i \in 1..k |-> Files[RandomElement(1..hi)]]

Init ==
  /\ \E d \in BOOLEAN : r = IF d THEN Receiver(TRUE, <<>>, {B("adir")}) ELSE Receiver(FALSE, Pick(Targets), {B("adir")})
  /\ s = Sender(SomeFiles(0))
  /\ conf = 0
  /\ script = <<>>
  /\ st = "go"

Go(its) == script' = script \o (IF Chance(40) THEN its \o <<Cut>> ELSE its)

(* Literal bytes, sometimes in two parts *)
Parts(b, i) == IF i < Len(b) /\ Chance(30)
            THEN <<Lit(Take(b, i)), Cut, Lit(Drop(b, i))>>
            ELSE <<Lit(b)>>

RecvStep ==
  /\ st = "go" /\ Fam = "recv"
  /\ UNCHANGED <<s, conf>>
  /\ \E c \in {RandomElement(1..100)} :
     CASE c <= 4 \/ Len(script) > 40 \/ (Over(r) /\ c <= 50) -> /\ r' = REof(r) /\ st' = "end" /\ script' = script \o <<[k |-> "eof"]>>
       [] Over(r) \/ r.ph \in {"head", "doomed"} ->
            \E h \in {IF r.ph = "head" /\ Len(r.files) > 3 /\ Chance(30) THEN <<67>> ELSE HeaderText(c)} :
            \E i \in {RandomElement(1..Len(h))} : r' = RBytes(r, h) /\ Go(Parts(h, i)) /\ UNCHANGED st
       [] r.ph = "data" ->
            \E n \in {IF Chance(60) THEN r.left ELSE RandomElement(1..r.left)} :
            r' = RRun(r, n) /\ Go(<<[k |-> "r", n |-> n]>>) /\ UNCHANGED st
       [] r.ph = "term" ->
            \E b \in {IF Chance(92) THEN <<0>> ELSE <<Pick(<<1, 2, 67, 10, 255>>)>>} :
            r' = RBytes(r, b) /\ Go(<<Lit(b)>>) /\ UNCHANGED st

SendStep ==
  /\ st = "go" /\ Fam = "send"
  /\ UNCHANGED <<r, conf>>
  /\ \E c \in {RandomElement(1..100)} :
     IF c <= 5 \/ Len(script) > 40 \/ (SOver(s) /\ c <= 60)
     THEN s' = SEof(s) /\ st' = "end" /\ script' = script \o <<[k |-> "eof"]>>
     ELSE IF c <= 12 /\ s.ph = "header"
     THEN \E k \in {s.i}, n \in {Pick(Sizes)} :
          IF script = <<>> \/ script[Len(script)] # Cut THEN UNCHANGED <<s, st, script>>
          ELSE s' = SResize(s, k, n) /\ UNCHANGED st /\ script' = script \o <<[k |-> "resize", f |-> k, n |-> n]>>
     ELSE \E b \in {CASE c <= 85 -> <<0>> [] c <= 92 -> <<0, 0>> [] c <= 95 -> <<0, 0, 0, 0, 0>> [] OTHER -> <<Pick(<<1, 2, 48, 255>>)>>} :
          s' = SBytes(s, b) /\ UNCHANGED st /\ script' = script \o (IF Chance(80) THEN <<Lit(b), Cut>> ELSE <<Lit(b)>>)

Done ==
  /\ st = "end"
  /\ Serialize(ToJson([name |-> Fam, dir |-> r.dir, targets |-> r.targets, files |-> s.files, ops |-> script]) \o "\n", IOEnv.OUT,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ st' = "written"
  /\ UNCHANGED <<r, s, conf, script>>

Next == RecvStep \/ SendStep \/ Done
=============================================================================
