------------------------------- MODULE Packet -------------------------------
(* Binary packet framing, RFC 4253 section 6. `rule` says whether the length *)
(* field is part of what is aligned (FALSE for chacha20-poly1305@openssh.com,*)
(* whose length is encrypted on its own).                                    *)
EXTENDS Bytes

Blocks == {8, 16, 32, 64}
Counted(rule) == IF rule THEN 4 ELSE 0

(* len and pad are a right framing of p payload bytes *)
Framed(p, bs, rule, len, pad) ==
  /\ len = 1 + p + pad
  /\ pad \in 4..255
  /\ (len + Counted(rule)) % bs = 0

(* Whether a packet with this length field (4 bytes) and padding length is taken *)
Accepts(len, pad, bs, rule) ==
  /\ (len[4] + Counted(rule)) % bs = 0      \* bs divides 256
  /\ Take(len, 3) # <<0, 0, 0>> \/ pad < len[4]

PayloadLen(len, pad) == len - pad - 1
=============================================================================
