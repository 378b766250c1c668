-------------------------------- MODULE Files -------------------------------
(* Deleting files by extension (property C21).                              *)
(*                                                                          *)
(* A file system is a set of entries [at, kind]: at is the path as a        *)
(* sequence of names (a name is a sequence of character codes), kind is     *)
(* "file", "dir" or "link".                                                 *)
EXTENDS Integers, Sequences

EndsWith(name, ext) == Len(ext) <= Len(name) /\ SubSeq(name, Len(name) - Len(ext) + 1, Len(name)) = ext
InFolder(at, folder, deep) ==
  /\ Len(at) > Len(folder)
  /\ SubSeq(at, 1, Len(folder)) = folder
  /\ deep \/ Len(at) = Len(folder) + 1
Matches(x, folder, ext, deep) == InFolder(x.at, folder, deep) /\ EndsWith(x.at[Len(x.at)], ext)

\* what must go, and what may (a link itself)
MustGo(fs, folder, ext, deep) == {x \in fs : x.kind = "file" /\ Matches(x, folder, ext, deep)}
MayGo(fs, folder, ext, deep)  == {x \in fs : x.kind = "link" /\ Matches(x, folder, ext, deep)}

FlFlag(cond, clause) == IF cond THEN {clause} ELSE {}
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
JudgeFiles(ev) ==
  LET before == SetOf(ev.before)
      after == SetOf(ev.after)
      must == MustGo(before, ev.folder, ev.ext, ev.deep)
      may == MayGo(before, ev.folder, ev.ext, ev.deep)
  IN  FlFlag(must \cap after # {}, "C21:matching file left")
      \cup FlFlag((before \ (must \cup may)) \ after # {}, "C21:something else removed")
      \cup FlFlag(after \ before # {}, "C21:something appeared or changed")
=============================================================================
