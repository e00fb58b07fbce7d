------------------------------ MODULE LogTrace ------------------------------
EXTENDS LogSM, Num, Float64, TraceBase
=============================================================================
