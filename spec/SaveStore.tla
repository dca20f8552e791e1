----------------------------- MODULE SaveStore -----------------------------
(* Saving the parameter sets of a bicycle, with or without a rider.         *)
(*                                                                          *)
(* Content is told apart by the version of the object it was saved from;    *)
(* version 0 is what an older program left behind.  The order in which the  *)
(* files are written is free.  The user may answer a question with "y",     *)
(* "n", something else, or close the input.                                 *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Sets,       \* parameter sets a bicycle may have, with "Measured"
          MaxSaves, MaxJunk

Own == {[dir |-> "bike", set |-> s] : s \in Sets}
Rid == {[dir |-> d, set |-> "Benchmark"] : d \in {"rider", "combined"}}
Files == Own \cup Rid
NoFile == -1

VARIABLES have,      \* parameter sets of the bicycle object
          rider,     \* a rider is seated
          file,      \* Files -> version or NoFile
          ver,       \* version of the object
          todo,      \* files still to be written by the running save
          ask,       \* the file the user is asked about, or NoAsk
          junk,      \* unrecognised answers to the current question
          saves, status, act
vars == <<have, rider, file, ver, todo, ask, junk, saves, status, act>>

NoAsk == [dir |-> "none", set |-> "none"]
A(op, f, ans) == [op |-> op, f |-> f, ans |-> ans]

Init == /\ have \in {S \in SUBSET Sets : "Benchmark" \in S}
        /\ rider \in BOOLEAN
        /\ \E E \in SUBSET Files :
              \* files of sets the object does not have are irrelevant
              /\ \A f \in E : f.set \in have \/ f.dir # "bike"
              /\ (rider => E \cap Own \in {{}, {[dir |-> "bike", set |-> "Benchmark"]}})
              /\ (~rider => E \cap Rid \in {{}, Rid})
              /\ file = [f \in Files |-> IF f \in E THEN 0 ELSE NoFile]
        /\ file[[dir |-> "bike", set |-> "Measured"]] = NoFile
        /\ ver = 1 /\ todo = {} /\ ask = NoAsk /\ junk = 0 /\ saves = 0
        /\ status = "idle" /\ act = A("init", NoAsk, "")

Targets == IF rider THEN Rid ELSE {f \in Own : f.set \in have /\ f.set # "Measured"}

Begin == /\ status \in {"idle"} /\ saves < MaxSaves
         /\ saves' = saves + 1 /\ status' = "saving" /\ todo' = Targets
         /\ act' = A("begin", NoAsk, "")
         /\ UNCHANGED <<have, rider, file, ver, ask, junk>>

Create(f) == /\ status = "saving" /\ ask = NoAsk /\ f \in todo
             /\ file[f] = NoFile
             /\ file' = [file EXCEPT ![f] = ver] /\ todo' = todo \ {f}
             /\ act' = A("create", f, "")
             /\ UNCHANGED <<have, rider, ver, ask, junk, saves, status>>

Question(f) == /\ status = "saving" /\ ask = NoAsk /\ f \in todo
               /\ file[f] # NoFile
               /\ ask' = f /\ junk' = 0 /\ act' = A("question", f, "")
               /\ UNCHANGED <<have, rider, file, ver, todo, saves, status>>

Yes == /\ ask # NoAsk
       /\ file' = [file EXCEPT ![ask] = ver] /\ todo' = todo \ {ask}
       /\ ask' = NoAsk /\ act' = A("answer", ask, "y")
       /\ UNCHANGED <<have, rider, ver, junk, saves, status>>

No == /\ ask # NoAsk
      /\ todo' = todo \ {ask} /\ ask' = NoAsk /\ act' = A("answer", ask, "n")
      /\ UNCHANGED <<have, rider, file, ver, junk, saves, status>>

Junk == /\ ask # NoAsk /\ junk < MaxJunk
        /\ junk' = junk + 1 /\ act' = A("answer", ask, "junk")
        /\ UNCHANGED <<have, rider, file, ver, todo, ask, saves, status>>

\* the input is closed: the save is given up, what is on disk stays
Close == /\ ask # NoAsk
         /\ ask' = NoAsk /\ todo' = {} /\ status' = "idle"
         /\ act' = A("answer", ask, "eof")
         /\ UNCHANGED <<have, rider, file, ver, junk, saves>>

\* ... or only the file in question is skipped
Skip == /\ ask # NoAsk
        /\ todo' = todo \ {ask} /\ ask' = NoAsk /\ act' = A("answer", ask, "eof")
        /\ UNCHANGED <<have, rider, file, ver, junk, saves, status>>

End == /\ status = "saving" /\ todo = {} /\ ask = NoAsk
       /\ status' = "idle" /\ act' = A("end", NoAsk, "")
       /\ UNCHANGED <<have, rider, file, ver, todo, ask, junk, saves>>

\* the user changes the parameters of the object
Modify == /\ status = "idle" /\ saves > 0 /\ ver < 2
          /\ ver' = ver + 1 /\ act' = A("modify", NoAsk, "")
          /\ UNCHANGED <<have, rider, file, todo, ask, junk, saves, status>>

Next == \/ Begin \/ Yes \/ No \/ Junk \/ Close \/ Skip \/ End \/ Modify
        \/ \E f \in Files : Create(f) \/ Question(f)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* an existing file only changes by an affirmative answer about that file
OnlyOnYes == [][\A f \in Files : (file[f] # NoFile /\ file'[f] # file[f])
                   => (act'.op = "answer" /\ act'.ans = "y" /\ act'.f = f)]_vars
\* the measured data is never written
NoMeasured == file[[dir |-> "bike", set |-> "Measured"]] = NoFile
\* nothing disappears
Kept == [][\A f \in Files : file[f] # NoFile => file'[f] # NoFile]_vars
\* a save that ran to its end left no target missing
AllThere == (act.op = "end") => \A f \in Targets : file[f] # NoFile
\* with a rider the files of the bicycle alone stay as they are
OwnFiles == [][rider => \A f \in Own : file'[f] = file[f]]_vars
Apart == [][~rider => \A f \in Rid : file'[f] = file[f]]_vars
=============================================================================
