----------------------------- MODULE OptimTrace -----------------------------
EXTENDS OptimSM, Float64, TraceBase
=============================================================================
