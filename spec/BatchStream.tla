---------------------------- MODULE BatchStream ----------------------------
(* Buffered streams. The stream of a seed is a fixed sequence of pairwise     *)
(* different elements; a sampler of that seed delivers element 1, 2, 3, ...   *)
(* The machine below keeps a buffer of B elements that is refilled from the   *)
(* stream once its last element has been delivered.                           *)
EXTENDS Naturals, Sequences
Fill(B, from) == [i \in 1..B |-> from + i]
NewSampler(B) == [B |-> B, taken |-> B, buf |-> Fill(B, 0), idx |-> 0, out |-> <<>>]
Deliver(s) == LET x == s.buf[s.idx + 1]
                  o == [s EXCEPT !.out = Append(@, x), !.idx = @ + 1]
              IN IF o.idx < o.B THEN o ELSE [o EXCEPT !.buf = Fill(o.B, o.taken), !.taken = @ + o.B, !.idx = 0]
(* what every sampler must satisfy, whatever its buffer *)
InOrder(s) == s.out = [i \in 1..Len(s.out) |-> i]
=============================================================================
