------------------------------ MODULE FnTrace ------------------------------
EXTENDS FnSM, Float64, TraceBase
=============================================================================
