-------------------------------- MODULE Scp ---------------------------------
(***************************************************************************)
(* The two ends of SCP1 as nora_scp implements it, as transducers over      *)
(* their standard input. Input is a sequence of items: literal bytes, or a  *)
(* run of n opaque bytes (contents of a file).                              *)
(***************************************************************************)
EXTENDS Bytes

Slash == 47
Space == 32
Newline == 10

IsDigits(b) == b # <<>> /\ \A i \in 1..Len(b) : b[i] \in 48..57
RECURSIVE Decimal(_)
Decimal(b) == IF b = <<>> THEN 0 ELSE Decimal(Take(b, Len(b) - 1)) * 10 + (b[Len(b)] - 48)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

HasByte(b, x) == \E i \in 1..Len(b) : b[i] = x
IndexOf(b, x) == CHOOSE i \in 1..Len(b) : b[i] = x /\ \A j \in 1..(i - 1) : b[j] # x

(* "C0644 12 name", without the newline. Sizes of ten digits up to 2^64 are  *)
(* not used: they stand for those that are too large for any file.          *)
RECURSIVE NoZeros(_)
NoZeros(b) == IF Len(b) > 1 /\ b[1] = 48 THEN NoZeros(Tail(b)) ELSE b
BadHeader == [ok |-> FALSE, size |-> 0, name |-> <<>>]
Header(h) ==
  IF ~IsUtf8(h) \/ h = <<>> \/ h[1] # 67 \/ ~HasByte(h, Space) THEN BadHeader
  ELSE LET r == Drop(h, IndexOf(h, Space)) IN
       IF ~HasByte(r, Space) THEN BadHeader
       ELSE LET s == Take(r, IndexOf(r, Space) - 1)
                n == Drop(r, IndexOf(r, Space))
            IN IF IsDigits(s) /\ Len(NoZeros(s)) < 10 THEN [ok |-> TRUE, size |-> Decimal(s), name |-> n] ELSE BadHeader

(* A name that stays directly inside the directory *)
Inside(n) ==
  /\ n \notin {<<>>, <<46>>, <<46, 46>>}
  /\ ~HasByte(n, Slash)

(* No file can have this name *)
Impossible(n) == HasByte(n, 0) \/ Len(n) > 255

-----------------------------------------------------------------------------
(* The receiver. ph: head, data, term: what is expected next; doomed: the    *)
(* header cannot become right any more; ok, bad: it ends with success or     *)
(* failure.                                                                  *)

Receiver(dir, targets, blocked) ==
  [dir |-> dir, targets |-> targets, blocked |-> blocked, ph |-> IF ~dir /\ targets = <<>> THEN "ok" ELSE "head",
   hdr |-> <<>>, left |-> 0, acks |-> 1, pos |-> 0, files |-> <<>>]

Over(r) == r.ph \in {"ok", "bad"}

Accept(r, h) ==
  LET target == IF r.dir THEN h.name ELSE r.targets[Len(r.files) + 1] IN
  IF ~h.ok \/ (r.dir /\ ~Inside(h.name)) \/ Impossible(target) \/ target \in r.blocked
  THEN [r EXCEPT !.ph = "bad", !.hdr = <<>>]
  ELSE [r EXCEPT !.ph = IF h.size = 0 THEN "term" ELSE "data", !.left = h.size, !.acks = @ + 1, !.hdr = <<>>,
                 !.files = Append(@, [name |-> target, start |-> r.pos + 1, n |-> h.size, done |-> FALSE])]

Complete(r) ==
  LET k == Len(r.files)
      f == [r.files EXCEPT ![k].done = TRUE]
  IN [r EXCEPT !.files = f, !.acks = @ + 1, !.ph = IF ~r.dir /\ k = Len(r.targets) THEN "ok" ELSE "head"]

RByte(r, b) ==
  LET s == CASE Over(r) -> r
             [] r.ph = "doomed" -> IF b = Newline THEN [r EXCEPT !.ph = "bad"] ELSE r
             [] r.ph = "head" /\ r.hdr = <<>> /\ b # 67 -> [r EXCEPT !.ph = IF b = Newline THEN "bad" ELSE "doomed"]
             [] r.ph = "head" /\ b # Newline -> [r EXCEPT !.hdr = Append(@, b)]
             [] r.ph = "head" -> Accept(r, Header(r.hdr))
             [] r.ph = "data" -> [r EXCEPT !.left = @ - 1, !.ph = IF r.left = 1 THEN "term" ELSE "data"]
             [] r.ph = "term" -> IF b = 0 THEN Complete(r) ELSE [r EXCEPT !.ph = "bad"]
  IN [s EXCEPT !.pos = @ + 1]

RECURSIVE RBytes(_, _)
RBytes(r, b) == IF b = <<>> THEN r ELSE RBytes(RByte(r, b[1]), Tail(b))

(* Opaque bytes are only meant for files *)
RRun(r, n) ==
  IF Over(r) THEN [r EXCEPT !.pos = @ + n]
  ELSE [r EXCEPT !.left = @ - n, !.pos = @ + n, !.ph = IF r.left = n THEN "term" ELSE "data"]
RunFits(r, n) == Over(r) \/ (r.ph = "data" /\ n <= r.left)

REof(r) ==
  CASE Over(r) -> r
    [] r.ph = "head" /\ r.hdr = <<>> /\ r.dir -> [r EXCEPT !.ph = "ok"]
    [] OTHER -> [r EXCEPT !.ph = "bad"]

RItem(r, it) == IF it.k = "b" THEN RBytes(r, it.b) ELSE RRun(r, it.n)
RECURSIVE RItems(_, _)
RItems(r, its) == IF its = <<>> THEN r ELSE RItems(RItem(r, its[1]), Tail(its))

(* Paths it may have created or changed; the last use of a name counts *)
Touched(r) == {r.files[i].name : i \in 1..Len(r.files)}
LastUse(r, n) == CHOOSE i \in 1..Len(r.files) : r.files[i].name = n /\ \A j \in (i + 1)..Len(r.files) : r.files[j].name # n

-----------------------------------------------------------------------------
(* The sender: files are [name, n]; n is -1 for none. cur: the sizes now, as  *)
(* files may change. It emits items: head, data, term, or part: some bytes   *)
(* of a file that turned out too short.                                      *)

Sender(files) == [files |-> files, cur |-> [i \in 1..Len(files) |-> files[i].n], i |-> 0, ph |-> "first", out |-> <<>>]
SOver(s) == s.ph \in {"ok", "bad"}

NextFile(s) ==
  IF s.i = Len(s.files) THEN [s EXCEPT !.ph = "ok"]
  ELSE LET k == s.i + 1
           f == s.files[k] IN
       IF s.cur[k] < 0 \/ HasByte(f.name, Newline)   \* no such file, or no header for it
       THEN [s EXCEPT !.ph = "bad"]
       ELSE [s EXCEPT !.i = k, !.ph = "header", !.out = Append(@, [k |-> "head", name |-> f.name, n |-> s.cur[k]])]

(* A file grows or shrinks (it exists) *)
SResize(s, k, n) == [s EXCEPT !.cur[k] = n]

SByte(s, b) ==
  CASE SOver(s) -> s
    [] b # 0 -> [s EXCEPT !.ph = "bad"]
    [] s.ph = "header" ->
         LET n == s.out[Len(s.out)].n IN
         IF s.cur[s.i] < n THEN [s EXCEPT !.ph = "bad", !.out = Append(@, [k |-> "part"])]
         ELSE [s EXCEPT !.ph = "file", !.out = @ \o <<[k |-> "data", f |-> s.i, n |-> n], [k |-> "term"]>>]
    [] OTHER -> NextFile(s)

RECURSIVE SBytes(_, _)
SBytes(s, b) == IF b = <<>> THEN s ELSE SBytes(SByte(s, b[1]), Tail(b))
SEof(s) == IF SOver(s) THEN s ELSE [s EXCEPT !.ph = "bad"]
=============================================================================
