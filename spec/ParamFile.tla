------------------------------ MODULE ParamFile ------------------------------
(* The meaning of a parameter text file.                                     *)
(*                                                                           *)
(* A file is a sequence of lines.  A parameter line has a name, one or more  *)
(* comma separated values (in thousandths), each with or without an          *)
(* uncertainty, and a layout.  Reading the file gives, for every name, the   *)
(* mean of the values, stored here as numerator / count, and the standard    *)
(* deviation of that mean as sqrt(var) / count.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Forms, Layouts, Noise, MaxLines

VARIABLES file, dict

vars == <<file, dict>>

\* values of a line: sequences of <<value, uncertainty>>; uncertainty -1: none
Values(k, f) ==
  CASE f = "one"      -> << <<120 + 7 * k, -1>> >>
    [] f = "neg"      -> << <<0 - (305 + k), -1>> >>
    [] f = "int"      -> << <<2000 * k, -1>> >>
    [] f = "unc"      -> << <<314 + k, 2 + k>> >>
    [] f = "negunc"   -> << <<0 - (40 + k), 5>> >>
    [] f = "two"      -> << <<500 + k, -1>>, <<300, -1>> >>
    [] f = "twounc"   -> << <<100 + k, 3>>, <<120, 4>> >>
    [] f = "threeunc" -> << <<100, 2>>, <<130 + 3 * k, 3>>, <<0 - 80, 6>> >>

RECURSIVE Sum(_), Var(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s)[1] + Sum(Tail(s))
Var(s) == IF s = <<>> THEN 0 ELSE (IF Head(s)[2] < 0 THEN 0 ELSE Head(s)[2] * Head(s)[2]) + Var(Tail(s))

Entry(vs) == [sum |-> Sum(vs), cnt |-> Len(vs), var |-> Var(vs),
              unc |-> \E j \in 1..Len(vs) : vs[j][2] >= 0]

Init == file = <<>> /\ dict = [k \in {} |-> 0]

Param == /\ Len(file) < MaxLines
         /\ \E k \in Keys, f \in Forms, l \in Layouts :
              /\ k \notin DOMAIN dict
              /\ file' = Append(file, [key |-> k, vals |-> Values(k, f), layout |-> l])
              /\ dict' = dict @@ (k :> Entry(Values(k, f)))

Skip == /\ Len(file) < MaxLines
        /\ \E n \in Noise : file' = Append(file, [key |-> 0, vals |-> <<>>, layout |-> n])
        /\ UNCHANGED dict

Next == Param \/ Skip
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
ParamLines == {j \in 1..Len(file) : file[j].key # 0}
\* exactly the names of the parameter lines are known
Names == DOMAIN dict = {file[j].key : j \in ParamLines}
\* the meaning does not depend on the order of the lines
OrderFree == \A j \in ParamLines : dict[file[j].key] = Entry(file[j].vals)
\* an uncertain value never turns into a certain one
KeepsUnc == \A j \in ParamLines :
   dict[file[j].key].unc = (\E i \in 1..Len(file[j].vals) : file[j].vals[i][2] >= 0)
=============================================================================
