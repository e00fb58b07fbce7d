------------------------------ MODULE MatTrace ------------------------------
EXTENDS MatHeap, Float64, TraceBase
=============================================================================
