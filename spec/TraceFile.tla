------------------------------ MODULE TraceFile ------------------------------
(* The JSON values on the lines of a file (java/TraceFile.java). *)
Load(path) == <<>>
=============================================================================
