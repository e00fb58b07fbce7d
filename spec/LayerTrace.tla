----------------------------- MODULE LayerTrace -----------------------------
EXTENDS LayerSM, Float64, TraceBase
=============================================================================
