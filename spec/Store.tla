---------------------------------- MODULE Store ---------------------------------
(* Saved results on disk.  A configuration c names a file; saving a result v     *)
(* (the names of its datasets and an identity) in mode "w", "a" or "r+" changes  *)
(* only that file.                                                               *)
EXTENDS Integers, Sequences, TLC, FiniteSets
VARIABLE disk            \* path -> [sets: dataset name -> identity of the save, att: identity]
StoreInit == disk = <<>>
Join(s, n) == s \o n
(* c = [base, sub, extra, name, k, m]: sub and extra without surrounding slashes *)
Ints(q) == ToString(q[1]) \o "_" \o ToString(q[2]) \o "_" \o ToString(q[3])
Folder(c) == IF c.sub = "" /\ c.extra = "" THEN <<c.base, "hdf5_output">> ELSE <<c.base, "hdf5_output", c.sub \o c.extra>>
FileName(c) == c.name \o "_k_" \o Ints(c.k) \o "_m_" \o Ints(c.m) \o ".h5"
Path(c) == Append(Folder(c), FileName(c))
(* the loading side, told the same folders, name and mode identification *)
Star(c) == "_M" \o c.mass \o "_Xc" \o c.xci \o "_" \o c.xcf \o "_d" \o ToString(c.r[1][1]) \o "_" \o ToString(c.r[1][2])
           \o "_d" \o ToString(c.r[2][1]) \o "_" \o ToString(c.r[2][2]) \o "_p" \o ToString(c.r[3][1]) \o "_" \o ToString(c.r[3][2])
Loaded(c) == Append(Folder(c), c.base_name \o (IF c.spec = "" THEN "" ELSE "_" \o c.spec) \o (IF c.std THEN Star(c) ELSE "")
                               \o "_k_" \o Ints(c.k) \o "_m_" \o Ints(c.m) \o "." \o c.suffix)
(* ------------------------- saving -------------------------------------------- *)
Exists(p) == p \in DOMAIN disk
Content(p) == IF Exists(p) THEN disk[p].sets ELSE <<>>
Fresh(v) == [n \in v.names |-> v.id]
Over(f, g) == [n \in DOMAIN f \union DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]     \* f wins
CanSave(p, mode) == mode # "r+" \/ Exists(p)
After(p, mode, v) == CASE mode = "w" -> Fresh(v)
                       [] mode = "a" -> Over(Content(p), Fresh(v))
                       [] mode = "r+" -> Over(Fresh(v), Content(p))
Put(p, x) == disk' = [q \in DOMAIN disk \union {p} |-> IF q = p THEN x ELSE disk[q]]
Save(p, mode, v) == IF CanSave(p, mode) THEN Put(p, [sets |-> After(p, mode, v), att |-> v.id]) ELSE UNCHANGED disk
=================================================================================
