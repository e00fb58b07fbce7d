----------------------------- MODULE TrainTrace -----------------------------
EXTENDS TrainSM, Float64, TraceBase
=============================================================================
