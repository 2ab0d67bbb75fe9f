------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Input of recorded behaviours and output of verdicts/generated cases.    *)
(* JSON strings starting with "#" denote real numbers ("#<m>e<k>" is the   *)
(* dyadic rational m*2^k), so that every floating point number the         *)
(* implementation produced reaches the specification exactly.              *)
(***************************************************************************)
LOCAL INSTANCE Sequences
LoadJson(file) == CHOOSE v : TRUE       \* the value in the file
EmitJson(file, v) == TRUE               \* appends v to the file
=============================================================================
