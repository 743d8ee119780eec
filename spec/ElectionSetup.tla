--------------------------- MODULE ElectionSetup ---------------------------
(* When the public parameters of an election fit together. A parameter set  *)
(* is a record of sizes: bx, bc, bb, bg (equality proof), n (bits of a      *)
(* range proof), lo, hi (candidates), ql, pl (bit lengths of the two group  *)
(* orders). Fits is what the trace module demands of every set the real     *)
(* setup produces; ElectionSetupMC shows, over all small sets and orders,   *)
(* what Fits buys and that each of its conjuncts is needed.                 *)
EXTENDS Integers

\* every candidate can be proven to lie in the range ...
RangeOk(p) == p.lo <= p.hi /\ p.hi - p.lo < 2^p.n
\* ... nothing else can: the two range proofs do not wrap around the order
NoWrap(p) == p.n + 1 <= p.ql - 1
\* a candidate has at most bx bits
SecretOk(p) == p.hi < 2^p.bx
\* the responses of the equality proof stay below both orders, and some
\* response is not an abort
WindowOk(p) == /\ p.bg <= p.ql /\ p.bg <= p.pl
               /\ p.bb >= 1
               /\ p.bx + p.bc + p.bb <= p.bg - 1
Challenge(p) == p.bc >= 1
Fits(p) == RangeOk(p) /\ NoWrap(p) /\ SecretOk(p) /\ WindowOk(p) /\ Challenge(p)
\* sizes that leave an order of ql bits no window at all
NoRoom(bx, bc, ql) == ql - 1 - bx - bc < 1
=============================================================================
