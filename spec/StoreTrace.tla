----------------------------- MODULE StoreTrace -----------------------------
EXTENDS StoreSM, Num, Float64, TraceBase
=============================================================================
