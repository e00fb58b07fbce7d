"""The checks: which models, which traces, which specification."""

OPS = ["Add", "Sub", "Mul", "Div", "Neg", "Abs", "Exp", "Ln", "Sqrt", "Pow", "Lt", "Eq", "Int", "Lit", "Trunc", "Canon", "Same", "Close"]
FLOAT = {"N" + o: "F" + {"Canon": "Str"}.get(o, o) for o in OPS}
FLOAT["NFinite"] = "FIsFinite"
RAT = {"N" + o: "R" + {"Exp": "None", "Ln": "None"}.get(o, o) for o in OPS}
RAT["NFinite"] = "RFinite"

CHECKS = {}

GRID = dict(module="Grid", num="rat", INIT="Init", NEXT="Next", INVARIANTS=["SizeFixed", "LastWriteWins", "Emit"], gen=True)
MATHEAP = dict(trace="MatTrace", start="HeapStart", accept="HeapAccept", post="HeapPost")
CHECKS["C01"] = dict(MATHEAP, control={o: "res" for o in ("add", "sub", "neg", "adds", "muls", "dot", "tr", "sum", "eq")},
                     models=[dict(module="MatLaws", num="rat", consts=dict(Shapes="<- Shapes1"), INIT="Init", NEXT="Next",
                                  INVARIANTS=["Transposes", "Identity", "Additive", "Bilinear", "Sums", "Powers"], min_states=6000)],
                     need=["add:ok", "add:err", "dot:ok", "dot:err", "sum:ok", "eq:ok", "tr:ok", "pows:ok"])
CHECKS["C02"] = dict(MATHEAP, control={"get": "val", "getrow": "vals", "getcol": "vals", "set": None, "setrow": None, "setcol": None},
                     models=[dict(GRID, consts=dict(GR=2, GC=3, Depth=2, Full="TRUE", Focus='""')),
                             dict(GRID, consts=dict(GR=2, GC=3, Depth=3, Full="FALSE", Focus='""'), thorough=dict(Depth=4), cap_quick=3000, cap_thorough=60000)],
                     need=["get:ok", "get:err", "set:err", "setrow:ok", "setrow:err", "setcol:err", "getrow:err", "getcol:err", "new:err", "slice:err"])

LAYER = dict(trace="LayerTrace", start="LayerStart", accept="LayerAccept", post="LayerPost")
LMATH = dict(module="LayerMath", num="float", consts=dict(Wide="FALSE", Focus='""'), thorough=dict(Wide="TRUE"), INIT="Init", NEXT="Next", workers="4", min_states=800,
             INVARIANTS=["BackwardIsDerivative", "Kinks", "Fused", "Distributions", "SigmoidSymmetric"])
CHECKS["C03"] = dict(LAYER, control={"fwd": "res", "nodrop": "res"}, models=[LMATH], need=["fwd:ok", "fwd:err", "nodrop:ok", "nodrop:err"])
CHECKS["C04"] = dict(LAYER, control={"bwd": "dw"}, models=[LMATH], need=["bwd:ok", "fwd:err", "mut:ok"])
CHECKS["C05"] = dict(LAYER, control={"bwd": None, "bce": None, "new": None},
                     models=[dict(module="LayerProto", num="rat", consts=dict(Depth=3, Focus='""'), INIT="Init", NEXT="Next", gen=True, cap_quick=6000, cap_thorough=16000,
                                  INVARIANTS=["CacheIsLatest", "ShapesAgree", "SomethingRefused", "EmitProg"])],
                     need=["bwd:ok", "bwd:err", "bce:ok", "bce:err", "new:err", "fwd:err"])
CHECKS["C06"] = dict(LAYER, control={"bwd": "dw"}, models=[dict(module="DropModel", num="float", consts=dict(Trials="{1, 2, 5, 20, 100, 300}", Focus='""'), thorough=dict(Trials="{" + ", ".join(map(str, range(1, 401))) + "}"), INIT="Init", NEXT="Next", workers="4", min_states=600,
                                                                  INVARIANTS=["Possibles", "Noticed", "Unbiased", "Derivative", "Bounds", "Powerful"])],
                     need=["bwd:ok", "fwd:ok", "nodrop:ok", "kept:ok"])
CHECKS["C26"] = dict(LAYER, control={"init": None, "normal": "dup"},
                     models=[dict(module="InitModel", num="float", consts=dict(Steps=2000, Focus='""'), thorough=dict(Steps=20000), INIT="Init", NEXT="Next", min_states=8,
                                  INVARIANTS=["Constants", "Tells", "Scales", "Takes"])], need=["init:ok", "normal:ok", "initmodel:ok"])

FN = dict(trace="FnTrace", start="FnStart", accept="FnAccept", post="FnPost")
LOSSMATH = dict(module="LossMath", num="float", consts=dict(Fine="FALSE"), thorough=dict(Fine="TRUE"), INIT="Init", NEXT="Next", workers="4", min_states=1500,
                INVARIANTS=["GradientIsDerivative", "MeanOfSamples", "NonNegative", "PerfectIsBest", "FiniteAtEdges"])
METRIC = dict(module="MetricMath", num="rat", consts=dict(K=2), thorough=dict(K=3), INIT="Init", NEXT="Next", workers="4", min_states=1000,
              INVARIANTS=["Unit", "ArgMaxIsLargest", "RoundTrip", "PerfectScores", "ShiftInvariant", "Meaning", "BinaryMeaning"])
CHECKS["C07"] = dict(FN, control={"loss": "val"}, models=[LOSSMATH], need=["loss:ok", "loss:err", "newloss:err"])
CHECKS["C08"] = dict(FN, control={"grad": "res"}, models=[LOSSMATH], need=["grad:ok", "grad:err"])
CHECKS["C23"] = dict(FN, control={"acc": "val", "argmax": "res", "binary": "res", "bulk": "!val"}, models=[METRIC], need=["acc:ok", "bulk:ok", "argmax:ok", "binary:ok"])
CHECKS["C24"] = dict(FN, control={"onehot": "res"}, models=[METRIC], need=["onehot:ok", "onehot:err"])
CHECKS["C25"] = dict(FN, control={"shuffle": "rx", "differ": "same"}, models=[dict(module="ShuffleModel", consts=dict(N=6), thorough=dict(N=7), INIT="Init", NEXT="Next", INVARIANTS=["PairsKept", "Permuted"], min_states=1200)],
                     need=["shuffle:ok", "mixed:ok", "many:ok", "reach:ok", "places:ok", "differ:ok"])
CHECKS["C29"] = dict(FN, control={"act": "res"}, models=[dict(module="ActMath", num="float", consts=dict(Focus='""'), INIT="Init", NEXT="Next", min_states=600,
                  INVARIANTS=["Derivatives", "Ranges", "Monotone", "Softmaxes"])], need=["act:ok"])

OPTIM = dict(trace="OptimTrace", start="OptimStart", accept="OptimAccept", post="OptimPost")
OPTMATH = dict(module="OptimMath", num="float", consts=dict(Depth=4), thorough=dict(Depth=6), INIT="Init", NEXT="Next", workers="4", min_states=2000,
               INVARIANTS=["ClosedForm", "FirstStep", "Plain", "Apart", "Counts"])
CHECKS["C09"] = dict(OPTIM, control={"upd": "W", "newopt": None}, models=[OPTMATH], need=["idle:ok", "upd:ok", "newopt:ok", "newopt:err"])
CHECKS["C10"] = dict(OPTIM, control={"upd": "B", "newopt": None}, models=[OPTMATH], need=["idle:ok", "upd:ok", "newopt:ok", "newopt:err"])
CHECKS["C11"] = dict(OPTIM, control={"upd": "W"},
                     models=[dict(module="OptimProto", num="rat", consts=dict(Depth=2, Focus='""'), thorough=dict(Depth=3), INIT="Init", NEXT="Next", gen=True, cap_quick=1300, cap_thorough=20000,
                                  INVARIANTS=["OwnHistory", "ParamsKeepShape", "EmitProg"], min_states=1000)],
                     need=["upd:ok", "upd:err", "fresh:ok"])

MODEL = dict(trace="ModelTrace", start="ModelStart", accept="ModelAccept", post="ModelPost")
MODELMATH = dict(module="ModelMath", num="float", consts=dict(Pars='"few"', Focus='""'), thorough=dict(Pars='"all"'), INIT="Init", NEXT="Next", workers="4", min_states=1000,
                 INVARIANTS=["ChainIsDerivative", "Accepts"])
CHECKS["C12"] = dict(MODEL, control={"add": "obs.ids", "fin": "obs.nopt", "upd": "W"},
                     models=[dict(module="ModelProto", num="rat", consts=dict(Depth0=3, Focus='""'), thorough=dict(Depth0=4), INIT="Init", NEXT="Next", gen=True, cap_quick=1500, cap_thorough=25000,
                                  INVARIANTS=["Chains", "InOrder", "Optimizers", "LossFitted", "Fresh", "EmitProg"], min_states=2000)],
                     need=["add:ok", "add:err", "fin:ok", "fin:err", "upd:ok"])
CHECKS["C13"] = dict(MODEL, control={"fwd": "outs", "loss": "val", "acc": "val", "pred": "res"}, models=[dict(MODELMATH, INVARIANTS=["RowsIndependent", "Composes", "Scores"])],
                     need=["fwd:ok", "fwd:err", "loss:ok", "loss:err", "acc:ok", "acc:err", "pred:ok", "pred:err"])
CHECKS["C14"] = dict(MODEL, control={"bwd": "dws"}, models=[MODELMATH, LMATH], need=["bwd:ok", "bwd:err"])

TRAIN = dict(trace="TrainTrace", start="TrainStart", accept="TrainAccept", post="TrainPost", control={"fit": "par", "dfit": "par"})
TPROTO = dict(module="TrainProto", consts={"Ns": "{1, 2, 3, 4, 5, 6, 7, 17, 33}", "Depth": 2, "Epochs": "{0, 1, 2, 5}", "Batches": "{0, 1, 2, 3, 5, 8, 40}", "Bads": "{}", "N2": 3},
              INIT="Init", NEXT="Next", INVARIANTS=["Covers", "AddsUp", "OnlyValid", "EmitProg"], gen=True, min_states=20)
BADS = '{"xwide", "xnarrow", "ywide", "ynarrow", "fewer", "more", "morex", "empty", "emptyx", "emptyy", "negative", "minus one", "big negative"}'
TLARGE = dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{130, 1003}", N2=2, Depth=1, Epochs="{1, 2}", Batches="{0, 64, 500, 1001, 5000}"), cap_quick=20, cap_thorough=100)
TLONG = dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{3}", N2=2, Depth=1, Epochs="{10, 33, 105, 140}", Batches="{0, 1, 2}"), cap_quick=16, cap_thorough=60)
TMANY = dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{7, 21, 42, 45, 49, 50, 64, 90, 98, 128}", N2=2, Depth=1, Epochs="{1}", Batches="{7, 10, 13, 14, 15, 30, 32, 49, 63, 64}"), cap_quick=70, cap_thorough=200)
TSEQ = dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{2, 3}", N2=3, Depth=4, Epochs="{1, 2}", Batches="{0, 2}"), cap_quick=150, cap_thorough=3000)
CHECKS["C15"] = dict(TRAIN, models=[dict(TPROTO, cap_quick=1000, cap_thorough=14000), TLARGE, TLONG, TMANY, TSEQ], need=["fit:ok", "step:ok", "dfit:ok"])
CHECKS["C16"] = dict(TRAIN, models=[dict(TPROTO, cap_quick=600, cap_thorough=9000), dict(TLONG, cap_quick=6), dict(TMANY, cap_quick=15), dict(TSEQ, cap_quick=80)], need=["fit:ok", "look:ok", "drops:ok", "dfit:ok"])
CHECKS["C17"] = dict(TRAIN, control={"fit": None}, models=[dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{1, 2, 5}", Depth=3, Epochs="{1}", Batches="{0, 2}", Bads=BADS), cap_quick=1200, cap_thorough=12000)],
                     need=["fit:ok", "fit:err"])
CHECKS["C18"] = dict(TRAIN, control={"fit": "lines", "dreport": None}, models=[dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{1, 2, 4, 7}", Epochs="{1, 2, 4, 7}", Batches="{0, 1, 3}"), cap_quick=430, cap_thorough=2400), dict(TLONG, cap_quick=8),
                                                                           dict(TLARGE, consts=dict(TLARGE["consts"], Ns="{600, 1003}", Batches="{0, 500}"), cap_quick=8, min_states=10)],
                     need=["fit:ok", "eval:ok", "dreport:ok"])

STORE = dict(trace="StoreTrace", start="StoreStart", accept="StoreAccept", post="StorePost")
CODEC = dict(module="CodecModel", consts=dict(Sizes="{1, 2}"), thorough=dict(Sizes="{1, 2, 3}"), INIT="Init", NEXT="Next", workers="6", gen=True, min_states=2000,
             INVARIANTS=["RoundTrip", "Size", "Prefixes", "Shifted", "Noticed", "Layers", "EmitBytes"])
CHECKS["C20"] = dict(STORE, control={"load": "!desc.out", "read": "!left", "save": "!desc.code"}, models=[dict(CODEC, cap_quick=800, cap_thorough=12000)],
                     need=["load:ok", "read:ok", "save:ok", "read:err"])
CHECKS["C21"] = dict(STORE, control={"load": "!desc.out"}, models=[dict(CODEC, cap_quick=1500, cap_thorough=12000)], need=["load:ok", "load:err"])
CHECKS["C22"] = dict(STORE, control={"savefile": "!desc.out", "loadfile": "!desc.out"}, 
                     models=[dict(module="FileProto", consts=dict(Depth=2), thorough=dict(Depth=3), INIT="Init", NEXT="Next", gen=True, cap_quick=400, cap_thorough=6000, min_states=1000,
                                  INVARIANTS=["Honest", "NoHopeless", "Spares", "EmitProg"])],
                     need=["savefile:ok", "savefile:err", "loadfile:ok", "loadfile:err", "hugefile:ok", "giantfile:ok"])
CHECKS["C19"] = dict(TRAIN, control={"fit": "par", "load": "pred"}, models=[dict(TPROTO, consts=dict(TPROTO["consts"], Ns="{1, 2, 3, 5}", Epochs="{0, 1, 2}", Batches="{0, 1, 2, 3}"), cap_quick=350, cap_thorough=5000),
                                                                        dict(CODEC, consts=dict(Sizes="{1}"), INVARIANTS=CODEC["INVARIANTS"][:-1], gen=False, min_states=1000)],
                     need=["load:ok", "loadlayer:ok", "fit:ok", "mut:ok", "drops:ok", "dfit:ok"])
CHECKS["C28"] = dict(trace="LogTrace", start="LogStart", accept="LogAccept", post="LogPost", control={"init": None},
                     models=[dict(module="LogProto", consts=dict(Depth=3, Focus='""'), thorough=dict(Depth=4), INIT="Init", NEXT="Next", gen=True, cap_quick=1500, cap_thorough=15000, min_states=1000,
                                  INVARIANTS=["Once", "InOrder", "Silent", "EmitProg"])],
                     need=["init:ok", "init:err", "say:ok", "fit:ok", "load:ok", "badfit:err", "ext:ok", "burst:ok"])
CHECKS["C27"] = dict(trace="LaneTrace", start="LaneStart", accept="LaneAccept", post="LanePost", control={"step": "res"}, race=True,
                     models=[dict(module="LaneProto", consts=dict(Lanes="{1, 2}", Do="<- DoIt", Alone="<- AloneIt", Steps=5), INIT="Init", NEXT="Next", gen=True, INVARIANTS=["Independent", "EmitProg"], min_states=500),
                             dict(module="LaneProto", consts=dict(Lanes="{1, 2, 3}", Do="<- DoIt", Alone="<- AloneIt", Steps=3), INIT="Init", NEXT="Next", gen=True, cap_quick=300, cap_thorough=1680, INVARIANTS=["Independent", "EmitProg"], min_states=1000)],
                     need=["alone:ok", "step:ok"])

for p, names in {"C02": ["CellsProof"], "C05": ["PastProof"], "C11": ["UpdatesProof"], "C12": ["AssemblyProof"], "C15": ["BatchesProof", "RepeatProof"], "C18": ["RepeatProof"], "C19": ["RepeatProof"],
                 "C20": ["IntsProof"], "C23": ["LabelsProof"], "C24": ["LabelsProof"], "C25": ["ShuffleProof"], "C27": ["LaneProof"], "C28": ["LogProof"]}.items():
    CHECKS[p]["proofs"] = names
