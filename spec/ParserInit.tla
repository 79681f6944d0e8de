-------------------------------- MODULE ParserInit ------------------------------
(* Starting an inlist parser.  A call c carries                                  *)
(*   path     "none" | "path" | "other"   what was given as full inlist path     *)
(*   found    a parent directory of that path carries the base name              *)
(*   full     the full path as text                                              *)
(*   base, name   "none" | "str" | "other" for the base directory and file name  *)
(*   second   the file that base directory, inlist directory, name, suffix denote *)
(*   args     the inlist named on the command line, or ""                        *)
(*   noinlist command-line switch: use the command line instead of an inlist     *)
EXTENDS Integers, Sequences, FiniteSets
Form1(c) == c.path = "path" /\ c.found
Form2(c) == c.base = "str" /\ c.name = "str"
Reasons(c) == (IF c.base = "str" THEN 0 ELSE 1) + (IF c.name = "str" THEN 0 ELSE 1) + (IF Form1(c) THEN 0 ELSE 1)
Target(c) == IF Form1(c) THEN c.full ELSE c.second      \* the full path is preferred
\* fs: the set of existing files
Outcome(c, fs) ==
  IF ~Form1(c) /\ ~Form2(c) THEN [kind |-> "refused", reasons |-> Reasons(c), file |-> ""]
  ELSE IF Target(c) \notin fs THEN [kind |-> "exit", reasons |-> 0, file |-> ""]
  ELSE IF c.noinlist THEN [kind |-> "ready", reasons |-> 0, file |-> "command line"]
  ELSE [kind |-> "ready", reasons |-> 0, file |-> IF c.args = "" THEN Target(c) ELSE c.args]
=================================================================================
