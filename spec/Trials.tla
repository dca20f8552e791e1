------------------------------- MODULE Trials -------------------------------
(* From pendulum recordings to periods.                                     *)
(*                                                                          *)
(* A recording names the part, the kind of pendulum, the ordinal of the     *)
(* orientation and the trial.  Processing a directory visits recordings in  *)
(* any order and collects them per period.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Records,    \* names of recordings that may be in the directory
          MaxRecords

Parts == {"Frame", "Fwheel", "Rwheel", "Flywheel", "Rod", "Fork", "Handlebar"}
Pendulums == {"Compound", "Torsional"}
Ordinals == {"First", "Second", "Third", "Fourth", "Fifth", "Sixth"}

Number == [First |-> "1", Second |-> "2", Third |-> "3",
           Fourth |-> "4", Fifth |-> "5", Sixth |-> "6"]
Letter(p, split) ==
    CASE p = "Frame" -> "B" [] p = "Fwheel" -> "F" [] p = "Rwheel" -> "R"
      [] p = "Flywheel" -> "D" [] p = "Rod" -> "P"
      [] p = "Fork" -> (IF split THEN "S" ELSE "H")
      [] p = "Handlebar" -> (IF split THEN "G" ELSE "?")
Kind(q) == IF q = "Compound" THEN "c" ELSE "t"
\* the period a recording belongs to, <<>> if it cannot be told
Key(r, split) == IF Letter(r.part, split) = "?" THEN <<>>
                 ELSE <<"T", Kind(r.pend), Letter(r.part, split), Number[r.ord]>>

\* the recordings the accumulation is explored with
Rec(n) == CASE n = 1 -> [part |-> "Frame", pend |-> "Torsional", ord |-> "Second", trial |-> 1]
            [] n = 2 -> [part |-> "Frame", pend |-> "Torsional", ord |-> "Second", trial |-> 2]
            [] n = 3 -> [part |-> "Fork", pend |-> "Torsional", ord |-> "Second", trial |-> 1]
            [] n = 4 -> [part |-> "Fork", pend |-> "Torsional", ord |-> "Second", trial |-> 2]
            [] n = 5 -> [part |-> "Frame", pend |-> "Compound", ord |-> "First", trial |-> 1]
            [] n = 6 -> [part |-> "Frame", pend |-> "Torsional", ord |-> "Second", trial |-> 3]
            [] n = 7 -> [part |-> "Rod", pend |-> "Torsional", ord |-> "First", trial |-> 1]
            [] n > 10 -> [part |-> "Rwheel", pend |-> "Torsional", ord |-> "First", trial |-> n - 10]
\* nine trials of one configuration, in order or backwards, after another one
Many == 11..19

VARIABLES mode,     \* "key": one recording, "dir": a directory, "count": stored periods,
          \* "many": a directory with many trials
          rec, split, key,
          done,     \* recordings processed so far, in order
          acc,      \* period -> set of recordings
          nc, nt, recalc

vars == <<mode, rec, split, key, done, acc, nc, nt, recalc>>

NoRec == [part |-> "", pend |-> "", ord |-> "", trial |-> 0]
Single == {[part |-> p, pend |-> q, ord |-> o, trial |-> 1] :
             p \in Parts, q \in Pendulums, o \in Ordinals}

\* compound: every part once; torsional: rod, two wheels, three orientations each else
Needed(s) == IF s THEN [c |-> 5, t |-> 12] ELSE [c |-> 4, t |-> 9]

Init == \/ /\ mode = "key" /\ rec \in Single /\ split \in BOOLEAN
           /\ key = Key(rec, split) /\ done = <<>> /\ acc = [k \in {} |-> {}]
           /\ nc = 0 /\ nt = 0 /\ recalc = FALSE
        \/ /\ mode = "dir" /\ rec = NoRec /\ split \in BOOLEAN /\ key = <<>>
           /\ done = <<>> /\ acc = [k \in {} |-> {}]
           /\ nc = 0 /\ nt = 0 /\ recalc = FALSE
        \/ /\ mode = "many" /\ rec = NoRec /\ split = FALSE /\ key = <<>>
           /\ \E n \in {1, 11, 19} : done = <<n>> /\ acc = (Key(Rec(n), FALSE) :> {n})
           /\ nc = 0 /\ nt = 0 /\ recalc = FALSE
        \/ /\ mode = "count" /\ rec = NoRec /\ split \in BOOLEAN /\ key = <<>>
           /\ done = <<>> /\ acc = [k \in {} |-> {}]
           /\ nc \in 0..7 /\ nt \in 0..14
           /\ recalc = (nc < Needed(split).c \/ nt < Needed(split).t)

Put(n) == LET k == Key(Rec(n), split)
          IN IF k \in DOMAIN acc THEN [acc EXCEPT ![k] = @ \cup {n}]
             ELSE acc @@ (k :> {n})

Process(n) == /\ mode = "dir" /\ Len(done) < MaxRecords
              /\ \A i \in 1..Len(done) : done[i] # n
              /\ done' = Append(done, n) /\ acc' = Put(n)
              /\ UNCHANGED <<mode, rec, split, key, nc, nt, recalc>>

Up == 11 \in {done[i] : i \in 1..(IF Len(done) < 2 THEN 1 ELSE 2)}
More(n) == /\ mode = "many"
           /\ IF done = <<1>> THEN n \in {11, 19}
              ELSE n = done[Len(done)] + (IF Up THEN 1 ELSE -1)
           /\ done' = Append(done, n) /\ acc' = Put(n)
           /\ UNCHANGED <<mode, rec, split, key, nc, nt, recalc>>

Next == (\E n \in Records : Process(n)) \/ (\E n \in Many : More(n))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Processed == {done[i] : i \in 1..Len(done)}
\* every recording belongs to exactly one period
OnePeriod == mode \in {"dir", "many"} =>
    \A n \in Processed : Cardinality({k \in DOMAIN acc : n \in acc[k]}) = 1
Complete == mode \in {"dir", "many"} => UNION {acc[k] : k \in DOMAIN acc} = Processed
\* trials of one configuration belong together, others do not
Together == mode \in {"dir", "many"} => \A n, m \in Processed :
    (\E k \in DOMAIN acc : {n, m} \subseteq acc[k]) <=>
    (Rec(n).part = Rec(m).part /\ Rec(n).pend = Rec(m).pend /\ Rec(n).ord = Rec(m).ord)
\* different configurations of one bicycle never share a period
ASSUME Injective == \A s \in BOOLEAN : \A a, b \in Single :
    (Key(a, s) # <<>> /\ Key(a, s) = Key(b, s)) => a = b
=============================================================================
