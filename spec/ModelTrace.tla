----------------------------- MODULE ModelTrace -----------------------------
EXTENDS ModelSM, Float64, TraceBase
=============================================================================
