------------------------------ MODULE TraceLog ------------------------------
(* The recorded trace: one JSON object per line of the file named by TRACE. *)
EXTENDS Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
