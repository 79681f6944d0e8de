------------------------------- MODULE PathResolve ------------------------------
(* A file asked for by name and default directory is looked for relative to the  *)
(* working directory first, then relative to the directory of the run script.    *)
EXTENDS Integers, Sequences, FiniteSets
\* cands: candidate paths in order; fs: paths that exist
FirstExisting(cands, fs) ==
  IF \A i \in DOMAIN cands : cands[i] \notin fs THEN "none"
  ELSE cands[CHOOSE i \in DOMAIN cands : cands[i] \in fs /\ \A j \in 1..(i - 1) : cands[j] \notin fs]
\* which file a run script is asked for, from the number of its arguments and where the save-name switch stands
Request(script, argc, switch) ==
  IF script = "solve" THEN (IF argc = 6 /\ switch = 4 THEN "custom" ELSE IF argc = 3 /\ switch = 1 THEN "default" ELSE "error")
  ELSE (IF argc = 4 THEN "custom" ELSE IF argc = 1 THEN "default" ELSE "error")
=================================================================================
