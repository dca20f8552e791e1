------------------------------ MODULE BikeStore ------------------------------
(* One bicycle's data directory and the bicycle object loaded from it.      *)
(*                                                                          *)
(* Periods come in groups: "c" the compound pendulum periods, "b" the       *)
(* torsional periods of frame and fork, "w" those of wheels and rod.  Every *)
(* group is needed.  Stored data has an identity so that the source of      *)
(* every value can be told: stored benchmark parameters are "stored",       *)
(* computed ones are a function from group to the source of its periods.    *)
EXTENDS Integers, FiniteSets, TLC

Groups == {"c", "b", "w"}
NoPer == [g \in Groups |-> "none"]

CONSTANTS MaxOps, Splits, AnyMats

VARIABLES
  bench,     \* Parameters/<Name>Benchmark.txt: [src, per]
  extra,     \* another parameter file exists
  raw,       \* "nodir" | "nofile" | "file": raw data directory and measured file
  per,       \* source of the periods in the measured file
  mats,      \* groups with pendulum recordings in the raw data directory
  split,     \* fork and handlebar measured separately
  mem,       \* the loaded bicycle: "no", or a record
  ops,
  act

vars == <<bench, extra, raw, per, mats, split, mem, ops, act>>
disk == <<bench, extra, raw, per, mats, split>>

None == [src |-> "none", per |-> NoPer]
Stored == [src |-> "stored", per |-> NoPer]
Calc(p) == [src |-> "calc", per |-> p]
NoMem == [loaded |-> FALSE, bench |-> None, extra |-> FALSE, meas |-> FALSE, per |-> NoPer]

FilePer(S) == [g \in Groups |-> IF g \in S THEN "file" ELSE "none"]

Init == /\ bench \in {None, Stored}
        /\ extra \in BOOLEAN
        /\ raw \in {"nodir", "nofile", "file"}
        /\ \E S \in SUBSET Groups : per = IF raw = "file" THEN FilePer(S) ELSE NoPer
        /\ mats \in SUBSET Groups
        /\ (raw # "file" => mats = {})
        /\ (~AnyMats => mats \in {{}, {"c"}, Groups})
        /\ split \in Splits
        /\ (raw # "file" => split = FALSE)
        /\ mem = NoMem
        /\ ops = 0
        /\ act = [op |-> "init", raw |-> FALSE, per |-> FALSE, out |-> ""]

Complete(p) == \A g \in Groups : p[g] # "none"
Merge(p) == [g \in Groups |-> IF g \in mats THEN "mat" ELSE p[g]]

\* the benchmark parameters are computed from the measured data
Recalc(fr) == (fr /\ raw = "file") \/ (~fr /\ bench = None)
\* the periods are computed from the recordings
Periods(fp) == fp \/ ~Complete(per)

Loaded(b, m, p) == [loaded |-> TRUE, bench |-> b, extra |-> extra, meas |-> m, per |-> p]

LoadStored(fr, fp) ==
  /\ ~Recalc(fr)
  /\ mem' = Loaded(bench, bench # None /\ ~fr /\ raw = "file",
                   IF bench # None /\ ~fr /\ raw = "file" THEN per ELSE NoPer)
  /\ act' = [op |-> "load", raw |-> fr, per |-> fp, out |-> "stored"]
  /\ UNCHANGED disk

LoadNoData(fr, fp) ==
  /\ Recalc(fr) /\ raw # "file"
  /\ mem' = NoMem
  /\ act' = [op |-> "load", raw |-> fr, per |-> fp, out |-> "fail"]
  /\ UNCHANGED disk

LoadCalc(fr, fp) ==
  /\ Recalc(fr) /\ raw = "file"
  /\ LET p == IF Periods(fp) THEN Merge(per) ELSE per
     IN /\ per' = p
        /\ IF Complete(p)
           THEN /\ mem' = Loaded(Calc(p), TRUE, p)
                /\ act' = [op |-> "load", raw |-> fr, per |-> fp, out |-> "calc"]
           ELSE /\ mem' = NoMem
                /\ act' = [op |-> "load", raw |-> fr, per |-> fp, out |-> "fail"]
  /\ UNCHANGED <<bench, extra, raw, mats, split>>

Load == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E fr, fp \in BOOLEAN : \/ LoadStored(fr, fp)
                                   \/ LoadNoData(fr, fp)
                                   \/ LoadCalc(fr, fp)

\* the loaded bicycle is written, existing files are overwritten
Save == /\ ops < MaxOps /\ ops' = ops + 1
        /\ mem.loaded
        /\ bench' = IF mem.bench = None THEN bench ELSE mem.bench
        /\ act' = [op |-> "save", raw |-> FALSE, per |-> FALSE, out |-> ""]
        /\ UNCHANGED <<extra, raw, per, mats, split, mem>>

Next == Load \/ Save
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* stored benchmark parameters win unless recalculation is forced
StoredWins == (act.op = "load" /\ ~act.raw /\ bench # None) => mem.bench = bench
\* a forced recalculation never hands out the stored parameters as new ones
ForcedIsNew == (act.op = "load" /\ act.raw /\ raw = "file" /\ mem.loaded) => mem.bench.src = "calc"
\* nothing is made up
NotMadeUp == (mem.loaded /\ mem.bench.src = "calc") => raw = "file"
\* no stored period is lost, and a recorded one only replaces it by itself
PeriodsKept == [][\A g \in Groups : /\ per[g] # "none" => per'[g] # "none"
                                    /\ per'[g] # per[g] => (per'[g] = "mat" /\ g \in mats)]_vars
\* loading never writes parameter files
LoadReadsOnly == [][(act'.op = "load") => bench' = bench]_vars
\* a forced period calculation uses all recordings
ForcedPeriods == (act.op = "load" /\ act.per /\ act.out = "calc") =>
                    \A g \in mats : mem.bench.per[g] = "mat"
=============================================================================
