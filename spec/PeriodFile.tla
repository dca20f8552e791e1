----------------------------- MODULE PeriodFile -----------------------------
(* Writing oscillation periods into a measured-data file.                   *)
(*                                                                          *)
(* The file is a sequence of lines whose last line may lack a terminator.   *)
(* WritePeriods(mp) removes the period lines and appends every period of mp *)
(* in the order of its name; nothing else changes.                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS ParamKeys,      \* names of other measured quantities
          PeriodKeys,     \* names of periods, all start with T
          Vals,           \* value identities
          MaxLines,
          MaxWrites

VARIABLES lines,          \* sequence of [kind, key, val]
          terminated,     \* the last line ends with a newline
          writes,         \* number of writes so far
          act             \* last action: what was written

vars == <<lines, terminated, writes, act>>

Noise == {[kind |-> "comment", key |-> 0, val |-> 0],
          [kind |-> "Tcomment", key |-> 0, val |-> 0],
          [kind |-> "blank", key |-> 0, val |-> 0]}
ParamLine(k, v) == [kind |-> "param", key |-> k, val |-> v]
PeriodLine(k, v) == [kind |-> "period", key |-> k, val |-> v]
IsPeriod(l) == l.kind = "period"

KeysOf(ls) == {ls[j].key : j \in {i \in 1..Len(ls) : ls[i].kind \in {"param", "period"}}}
Content == {s \in UNION {[1..n -> Noise \cup {ParamLine(k, 0) : k \in ParamKeys}
                                  \cup {PeriodLine(k, 0) : k \in PeriodKeys}] : n \in 0..MaxLines} :
              \A i, j \in 1..Len(s) : (i # j /\ s[i].key # 0) => s[i].key # s[j].key}

\* partial functions from period names to values
Periods == UNION {[S -> Vals] : S \in SUBSET PeriodKeys}

Init == /\ lines \in Content
        /\ terminated \in BOOLEAN
        /\ (Len(lines) = 0 => terminated)
        /\ writes = 0
        /\ act = [op |-> "none", mp |-> [k \in {} |-> 0]]

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Rest == SelectSeq(lines, LAMBDA l : ~IsPeriod(l))
NewLines(mp) == [i \in 1..Cardinality(DOMAIN mp) |->
                   PeriodLine(Sorted(DOMAIN mp)[i], mp[Sorted(DOMAIN mp)[i]])]

Write(mp) == /\ writes < MaxWrites
             /\ lines' = Rest \o NewLines(mp)
             /\ terminated' = (IF DOMAIN mp # {} THEN TRUE ELSE terminated)
             /\ writes' = writes + 1
             /\ act' = [op |-> "write", mp |-> mp]

Next == \E mp \in Periods : Write(mp)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Read(ls) == [k \in KeysOf(ls) |-> LET j == CHOOSE i \in 1..Len(ls) : ls[i].key = k IN ls[j].val]
\* every name occurs once
Unique == \A i, j \in 1..Len(lines) : (i # j /\ lines[i].key # 0) => lines[i].key # lines[j].key
\* reading the file gives exactly the periods written
ReadsBack == act.op = "write" => \A k \in PeriodKeys :
               IF k \in DOMAIN act.mp THEN k \in KeysOf(lines) /\ Read(lines)[k] = act.mp[k]
               ELSE k \notin KeysOf(lines)
\* no other line changes
OthersKept == [][SelectSeq(lines', LAMBDA l : ~IsPeriod(l)) = SelectSeq(lines, LAMBDA l : ~IsPeriod(l))]_vars
=============================================================================
