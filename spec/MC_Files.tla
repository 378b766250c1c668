------------------------------- MODULE MC_Files ------------------------------
(* Cleaning up small folders (property C21).                                *)
(*                                                                          *)
(* Every content of a folder W with entries named as in Top, each a file, a *)
(* link (to a file outside, to a folder outside, to nothing) or a folder    *)
(* that again has entries named as in Sub; beside it a folder O with a      *)
(* matching and another file.  Then up to Conf.calls clean-ups.             *)
(* (Names are sequences of one-letter strings here.)                        *)
EXTENDS Files, FiniteSets, SequencesExt, Json, IOUtils, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL) ELSE [calls |-> 1, full |-> FALSE]

Top == {<< "a", ".", "x" >>, << ".", "x" >>}
Sub == IF Conf.full THEN {<< "b", ".", "x" >>, << "x" >>} ELSE {<< "b", ".", "x" >>}
Exts == {<< ".", "x" >>, << "x" >>, << "a", ".", "x" >>}
Links == {"to_file", "to_folder", "to_nothing", "to_itself"}
Simple == {"none", "file", "dir"} \cup Links
W == << "W" >>
Outside == {[at |-> << << "O" >> >>, kind |-> "dir", to |-> ""],
            [at |-> << << "O" >>, << "k", ".", "x" >> >>, kind |-> "file", to |-> ""],
            [at |-> << << "O" >>, << "k" >> >>, kind |-> "file", to |-> ""],
            [at |-> << W >>, kind |-> "dir", to |-> ""]}

Entry(at, what) == IF what = "none" THEN {}
                   ELSE {[at |-> at, kind |-> IF what \in Links THEN "link" ELSE what, to |-> IF what \in Links THEN what ELSE ""]}
\* the contents of an entry of W: a set of file systems
Contents(name) == {Entry(<< W, name >>, k) : k \in Simple \ {"dir"}}
                  \cup {Entry(<< W, name >>, "dir") \cup UNION {Entry(<< W, name, s >>, f[s]) : s \in Sub} : f \in [Sub -> Simple]}
Worlds == {Outside \cup UNION {c[t] : t \in Top} :
            c \in {c \in [Top -> UNION {Contents(t) : t \in Top}] : \A t \in Top : c[t] \in Contents(t)}}

VARIABLES fs0,    \* at the beginning
          sure,   \* certainly still there
          gone,   \* certainly gone
          calls, over
vars == << fs0, sure, gone, calls, over >>
Init == /\ fs0 \in Worlds
        /\ sure = fs0 /\ gone = {} /\ calls = << >> /\ over = FALSE
Folders == {<< W >>} \cup {x.at : x \in {x \in fs0 : x.kind = "dir" /\ Len(x.at) = 2 /\ x.at[1] = W}}
CleanUp == /\ Len(calls) < Conf.calls /\ ~over
           /\ \E folder \in (IF Conf.calls = 1 THEN Folders ELSE {<< W >>}), ext \in Exts, deep \in BOOLEAN :
                LET left == fs0 \ gone IN
                /\ gone' = gone \cup MustGo(left, folder, ext, deep)
                /\ sure' = sure \ (MustGo(left, folder, ext, deep) \cup MayGo(left, folder, ext, deep))
                /\ calls' = Append(calls, [folder |-> folder, ext |-> ext, deep |-> deep])
           /\ UNCHANGED << fs0, over >>
Done == /\ Len(calls) = Conf.calls /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson([fs |-> SetToSeq(fs0), gone |-> SetToSeq(gone), sure |-> SetToSeq(sure), calls |-> calls]))
        /\ UNCHANGED << fs0, sure, gone, calls >>
Next == CleanUp \/ Done
Spec == Init /\ [][Next]_vars

(* ---------------------------- the properties ------------------------ *)
OutsideStays == \A x \in Outside : x \in sure
FoldersStay == \A x \in fs0 : x.kind = "dir" => x \in sure
Disjoint == sure \cap gone = {} /\ sure \cup gone \subseteq fs0
OnlyLinksDoubtful == \A x \in fs0 \ (sure \cup gone) : x.kind = "link"
Suffixed == \A x \in gone : \E k \in 1 .. Len(calls) : EndsWith(x.at[Len(x.at)], calls[k].ext)
Complete == \A x \in fs0 : x.kind = "file" /\ Len(x.at) = 2 /\ x.at[1] = W
              /\ (\E k \in 1 .. Len(calls) : calls[k].folder = << W >> /\ EndsWith(x.at[2], calls[k].ext)) => x \in gone
Deep == \A x \in fs0 : x.kind = "file" /\ x.at[1] = W
              /\ (\E k \in 1 .. Len(calls) : calls[k].folder = << W >> /\ calls[k].deep /\ EndsWith(x.at[Len(x.at)], calls[k].ext)) => x \in gone
Shallow == (\A k \in 1 .. Len(calls) : ~calls[k].deep /\ calls[k].folder = << W >>) => \A x \in gone : Len(x.at) = 2
\* doing it again removes no further file
Again == \A k \in 1 .. Len(calls) : MustGo(fs0 \ gone, calls[k].folder, calls[k].ext, calls[k].deep) = {}
=============================================================================
