-------------------------------- MODULE Emit --------------------------------
(* Writing down what a model explores, as scripts for the harness: one     *)
(* sequence of calls per line.                                             *)
EXTENDS Json, Sequences

WriteLine(s) == TRUE            \* java/Emit.java appends it to a file
Write(calls) == WriteLine(ToJson(calls))
=============================================================================
