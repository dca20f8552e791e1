-------------------------------- MODULE Trim --------------------------------
(* Trimming a recorded oscillation: the record from its largest deviation   *)
(* from the mean to the last sample whose deviation exceeds a tenth of it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Amp, MaxLen      \* samples are -Amp..Amp

VARIABLES data, first, last
vars == <<data, first, last>>

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* deviation from the mean, times the number of samples
Dev(s, j) == Len(s) * s[j] - SumTo(s, Len(s))
MaxDev(s) == CHOOSE m \in {Abs(Dev(s, j)) : j \in 1..Len(s)} :
                \A j \in 1..Len(s) : Abs(Dev(s, j)) <= m
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Start(s) == Min({j \in 1..Len(s) : Abs(Dev(s, j)) = MaxDev(s)})
Above(s) == {j \in 1..Len(s) : 10 * Dev(s, j) > MaxDev(s)}
End(s) == Max(Above(s))

Init == /\ \E n \in 2..MaxLen : data \in [1..n -> -Amp..Amp]
        /\ MaxDev(data) > 0
        /\ first = Start(data) /\ last = End(data)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* trimming starts at a sample of the largest deviation
AtPeak == \A j \in 1..Len(data) : Abs(Dev(data, j)) <= Abs(Dev(data, first))
\* there is always a sample above the threshold
NonEmpty == Above(data) # {}
\* behind the end there is none
TailSmall == \A j \in (last + 1)..Len(data) : 10 * Dev(data, j) <= MaxDev(data)
=============================================================================
