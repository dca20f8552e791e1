---------------------------- MODULE ModeTracking ----------------------------
(* Continuing m modes from one set of eigenvalues to the next.              *)
(*                                                                          *)
(* Eigenvalues are points <<re, im>> of an integer grid.  The modes claim   *)
(* one after the other: every mode takes an eigenvalue of the next set that *)
(* is nearest to its current one among those nobody has claimed yet.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Points, M

VARIABLES cur,     \* current eigenvalue of every mode, in mode order
          inp,     \* the next set of eigenvalues, in input order
          claim,   \* index into inp claimed by every mode so far
          done

vars == <<cur, inp, claim, done>>

Rows == [1..M -> Points]
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

Free == {k \in 1..M : \A j \in 1..Len(claim) : claim[j] # k}
Nearest(p) == {k \in Free : \A l \in Free : D2(p, inp[k]) <= D2(p, inp[l])}

Init == /\ cur \in Rows
        /\ inp \in Rows
        /\ claim = <<>>
        /\ done = FALSE

Claim == /\ Len(claim) < M
         /\ \E k \in Nearest(cur[Len(claim) + 1]) : claim' = Append(claim, k)
         /\ done' = (Len(claim) + 1 = M)
         /\ UNCHANGED <<cur, inp>>

Next == Claim
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ Len(claim) <= M
          /\ \A j \in 1..Len(claim) : claim[j] \in 1..M
\* no eigenvalue is given to two modes
Injective == \A i, j \in 1..Len(claim) : i # j => claim[i] # claim[j]
\* nothing is lost: at the end every input eigenvalue is somebody's
Complete == done => {claim[j] : j \in 1..M} = 1..M
\* well separated modes: if every mode has its own nearest eigenvalue the
\* order of claiming is irrelevant
Own(j) == \E k \in 1..M : /\ \A l \in 1..M : l # k => D2(cur[j], inp[k]) < D2(cur[j], inp[l])
                          /\ \A i \in 1..M : i # j => \E l \in 1..M : l # k /\ D2(cur[i], inp[l]) < D2(cur[i], inp[k])
Separated == (done /\ \A j \in 1..M : Own(j)) =>
               \A j \in 1..M : \A l \in 1..M : D2(cur[j], inp[claim[j]]) <= D2(cur[j], inp[l])
=============================================================================
