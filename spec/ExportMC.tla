------------------------------ MODULE ExportMC ------------------------------
(* Writes the tables that drive the harness' independent client. *)
EXTENDS Wire, Terms, Json, IOUtils
VARIABLE x
Init == /\ x = 0
        /\ JsonSerialize(IOEnv.OUT, [messages |-> Messages, requests |-> Requests,
              exchange_hash |-> ExchangeHash, sign_data |-> SignData,
              kdf |-> [p \in {"iv", "key", "mac"} |-> [d \in {"cs", "sc"} |-> [n \in 1..8 |-> KeyBlocks(p, d, n)]]],
              key_cs |-> KeyBlocks("key", "cs", 2), key_sc |-> KeyBlocks("key", "sc", 2)])
Next == UNCHANGED x
=============================================================================
