----------------------------- MODULE LaneTrace -----------------------------
EXTENDS LaneSM, Float64, TraceBase
=============================================================================
