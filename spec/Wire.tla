-------------------------------- MODULE Wire --------------------------------
(* The messages of RFC 4250-4254, 5656 and 8731 as data: every message is a  *)
(* message number followed by fields. Encode and Parse interpret this table; *)
(* the harness' client is driven by the same table (exported as JSON).       *)
EXTENDS Bytes

F(k, n) == [k |-> k, n |-> n, v |-> <<>>]
Lit(s) == [k |-> "lit", n |-> "", v |-> B(s)]

AuthMethods == {B("none"), B("publickey"), B("password"), B("hostbased")}

M(t, num, f) == [t |-> t, num |-> num, f |-> f]

Messages == <<
  M("Disconnect", 1, <<F("u32", "reason"), F("str", "description"), F("str", "language")>>),
  M("Ignore", 2, <<F("str", "data")>>),
  M("Unimplemented", 3, <<F("u32", "seq")>>),
  M("Debug", 4, <<F("bool", "display"), F("utf8", "message"), F("str", "language")>>),
  M("ServiceRequest", 5, <<F("str", "name")>>),
  M("ServiceAccept", 6, <<F("str", "name")>>),
  M("KexInit", 20, <<F("raw16", "cookie"), F("names", "kex"), F("names", "hostkey"),
                     F("names", "enc_cs"), F("names", "enc_sc"), F("names", "mac_cs"), F("names", "mac_sc"),
                     F("names", "cmp_cs"), F("names", "cmp_sc"), F("names", "lang_cs"), F("names", "lang_sc"),
                     F("bool", "follows"), F("zero32", "")>>),
  M("NewKeys", 21, <<>>),
  M("EcdhInit", 30, <<F("str", "q")>>),
  M("EcdhReply", 31, <<F("hostkey", "key"), F("str", "q"), F("sigblob", "sig")>>),
  M("AuthNone", 50, <<F("str", "user"), F("str", "service"), Lit("none")>>),
  M("AuthProbe", 50, <<F("str", "user"), F("str", "service"), Lit("publickey"), F("false", ""),
                       F("str", "alg"), F("str", "blob")>>),
  M("AuthSigned", 50, <<F("str", "user"), F("str", "service"), Lit("publickey"), F("true", ""),
                        F("str", "alg"), F("str", "blob"), F("str", "sig")>>),
  M("AuthPassword", 50, <<F("str", "user"), F("str", "service"), Lit("password"), F("false", ""),
                          F("str", "password")>>),
  M("AuthRenew", 50, <<F("str", "user"), F("str", "service"), Lit("password"), F("true", ""),
                       F("str", "old"), F("str", "new")>>),
  M("AuthHost", 50, <<F("str", "user"), F("str", "service"), Lit("hostbased"), F("str", "alg"),
                      F("str", "key"), F("ascii", "host"), F("utf8", "luser"), F("str", "sig")>>),
  M("AuthOther", 50, <<F("str", "user"), F("str", "service"), F("method", "method"), F("rest", "data")>>),
  M("AuthFailure", 51, <<F("names", "methods"), F("bool", "partial")>>),
  M("AuthSuccess", 52, <<>>),
  M("AuthBanner", 53, <<F("str", "message"), F("str", "language")>>),
  M("AuthPkOk", 60, <<F("str", "alg"), F("str", "blob")>>),
  M("Open", 90, <<F("str", "type"), F("u32", "sender"), F("u32", "window"), F("u32", "maxpkt")>>),
  M("OpenConf", 91, <<F("u32", "recipient"), F("u32", "sender"), F("u32", "window"), F("u32", "maxpkt"),
                      F("rest", "data")>>),
  M("OpenFail", 92, <<F("u32", "recipient"), F("u32", "reason"), F("utf8", "description"),
                      F("str", "language")>>),
  M("WindowAdjust", 93, <<F("u32", "recipient"), F("u32", "n")>>),
  M("Data", 94, <<F("u32", "recipient"), F("str", "data")>>),
  M("ExtData", 95, <<F("u32", "recipient"), F("u32", "type"), F("str", "data")>>),
  M("Eof", 96, <<F("u32", "recipient")>>),
  M("Close", 97, <<F("u32", "recipient")>>),
  M("Request", 98, <<F("u32", "recipient"), F("str", "type"), F("bool", "reply"), F("rest", "data")>>),
  M("Success", 99, <<F("u32", "recipient")>>),
  M("Failure", 100, <<F("u32", "recipient")>>)
>>

(* Session requests: type name and the fields in the data of a Request *)
R(t, name, f) == [t |-> t, name |-> B(name), f |-> f]
Requests == <<
  R("Pty", "pty-req", <<F("str", "term"), F("u32", "cw"), F("u32", "ch"), F("u32", "pw"), F("u32", "ph"),
                        F("str", "modes")>>),
  R("X11", "x11-req", <<F("bool", "single"), F("str", "proto"), F("str", "cookie"), F("u32", "screen")>>),
  R("Env", "env", <<F("str", "name"), F("str", "value")>>),
  R("Shell", "shell", <<>>),
  R("Exec", "exec", <<F("str", "command")>>),
  R("Subsystem", "subsystem", <<F("str", "name")>>),
  R("WindowChange", "window-change", <<F("u32", "cw"), F("u32", "ch"), F("u32", "pw"), F("u32", "ph")>>),
  R("XonXoff", "xon-xoff", <<F("bool", "on")>>),
  R("Signal", "signal", <<F("str", "signal")>>),
  R("ExitStatus", "exit-status", <<F("u32", "status")>>),
  R("ExitSignal", "exit-signal", <<F("str", "signal"), F("bool", "core"), F("utf8", "message"),
                                   F("str", "language")>>)
>>

(* Fields without a value of their own *)
Silent(k) == k \in {"lit", "true", "false", "zero32"}
ValueFields(f) == SelectSeq(f, LAMBDA x : ~Silent(x.k))

-----------------------------------------------------------------------------
(* Encoding *)

EncField(fd, v) ==
  CASE fd.k = "u32" -> v
    [] fd.k = "bool" -> IF v THEN <<1>> ELSE <<0>>
    [] fd.k \in {"str", "utf8", "ascii", "names", "method"} -> Str(v)
    [] fd.k \in {"raw16", "rest"} -> v
    [] fd.k = "lit" -> Str(fd.v)
    [] fd.k = "true" -> <<1>>
    [] fd.k = "false" -> <<0>>
    [] fd.k = "zero32" -> Zero32
    [] fd.k = "hostkey" -> Str(Str(v[1]) \o Str(v[2]) \o Str(v[3]))
    [] fd.k = "sigblob" -> Str(Str(v[1]) \o Str(Mpint(v[2]) \o Mpint(v[3])))

RECURSIVE EncFields(_, _)
EncFields(f, v) ==
  IF f = <<>> THEN <<>>
  ELSE IF Silent(f[1].k) THEN EncField(f[1], <<>>) \o EncFields(Tail(f), v)
  ELSE EncField(f[1], v[1]) \o EncFields(Tail(f), Tail(v))

MsgOf(t) == Messages[CHOOSE i \in 1..Len(Messages) : Messages[i].t = t]
ReqOf(t) == Requests[CHOOSE i \in 1..Len(Requests) : Requests[i].t = t]

Encode(t, v) == <<MsgOf(t).num>> \o EncFields(MsgOf(t).f, v)
EncodeReq(t, v) == EncFields(ReqOf(t).f, v)

-----------------------------------------------------------------------------
(* Parsing *)

ParseKey(b) ==
  LET a == ParseStr(b) IN IF ~a.ok THEN Fail ELSE
  LET i == ParseStr(a.r) IN IF ~i.ok THEN Fail ELSE
  LET q == ParseStr(i.r) IN IF ~q.ok \/ q.r # <<>> THEN Fail ELSE
  Got(<<a.v, i.v, q.v>>, <<>>)

(* The numbers are kept as they were written *)
ParseSig(b) ==
  LET a == ParseStr(b) IN IF ~a.ok THEN Fail ELSE
  LET x == ParseStr(a.r) IN IF ~x.ok \/ x.r # <<>> THEN Fail ELSE
  LET r == ParseStr(x.v) IN IF ~r.ok THEN Fail ELSE
  LET s == ParseStr(r.r) IN IF ~s.ok \/ s.r # <<>> THEN Fail ELSE
  Got(<<a.v, r.v, s.v>>, <<>>)

ParseField(fd, b) ==
  CASE fd.k = "u32" -> IF Len(b) < 4 THEN Fail ELSE Got(Take(b, 4), Drop(b, 4))
    [] fd.k = "bool" -> IF b = <<>> THEN Fail ELSE Got(b[1] # 0, Tail(b))
    [] fd.k = "true" -> IF b = <<>> \/ b[1] = 0 THEN Fail ELSE Got(<<>>, Tail(b))
    [] fd.k = "false" -> IF b = <<>> \/ b[1] # 0 THEN Fail ELSE Got(<<>>, Tail(b))
    [] fd.k = "raw16" -> IF Len(b) < 16 THEN Fail ELSE Got(Take(b, 16), Drop(b, 16))
    [] fd.k = "rest" -> Got(b, <<>>)
    [] fd.k = "zero32" -> IF Len(b) < 4 \/ Take(b, 4) # Zero32 THEN Fail ELSE Got(<<>>, Drop(b, 4))
    [] OTHER ->
       LET s == ParseStr(b) IN
       IF ~s.ok THEN Fail
       ELSE CASE fd.k = "str" -> s
              [] fd.k = "utf8" -> IF IsUtf8(s.v) THEN s ELSE Fail
              [] fd.k = "ascii" -> IF IsAscii(s.v) THEN s ELSE Fail
              [] fd.k = "names" -> IF IsNameList(s.v) THEN s ELSE Fail
              [] fd.k = "method" -> IF s.v \notin AuthMethods THEN s ELSE Fail
              [] fd.k = "lit" -> IF s.v = fd.v THEN s ELSE Fail
              [] fd.k = "hostkey" -> LET x == ParseKey(s.v) IN IF x.ok THEN Got(x.v, s.r) ELSE Fail
              [] fd.k = "sigblob" -> LET x == ParseSig(s.v) IN IF x.ok THEN Got(x.v, s.r) ELSE Fail

RECURSIVE ParseFields(_, _)
ParseFields(f, b) ==
  IF f = <<>> THEN (IF b = <<>> THEN Got(<<>>, <<>>) ELSE Fail)
  ELSE LET x == ParseField(f[1], b) IN
       IF ~x.ok THEN Fail
       ELSE LET y == ParseFields(Tail(f), x.r) IN
            IF ~y.ok THEN Fail
            ELSE Got((IF Silent(f[1].k) THEN <<>> ELSE <<x.v>>) \o y.v, <<>>)

Bad == [t |-> "err", v |-> <<>>]

(* At most one row of the table fits *)
Parse(b) ==
  IF b = <<>> THEN Bad
  ELSE LET c == {i \in 1..Len(Messages) : Messages[i].num = b[1] /\ ParseFields(Messages[i].f, Tail(b)).ok}
       IN IF c = {} THEN Bad
          ELSE LET i == CHOOSE i \in c : TRUE IN
               [t |-> Messages[i].t, v |-> ParseFields(Messages[i].f, Tail(b)).v]

Unambiguous(b) ==
  Cardinality({i \in 1..Len(Messages) : b # <<>> /\ Messages[i].num = b[1] /\ ParseFields(Messages[i].f, Tail(b)).ok}) <= 1

ParseReq(name, b) ==
  LET c == {i \in 1..Len(Requests) : Requests[i].name = name /\ ParseFields(Requests[i].f, b).ok}
  IN IF c = {} THEN Bad
     ELSE LET i == CHOOSE i \in c : TRUE IN
          [t |-> Requests[i].t, v |-> ParseFields(Requests[i].f, b).v]

(* Values as they come back: numbers of a signature are numbers *)
Canon(t, v) == IF t = "EcdhReply" THEN [v EXCEPT ![3] = <<v[3][1], StripZeros(v[3][2]), StripZeros(v[3][3])>>] ELSE v
=============================================================================
