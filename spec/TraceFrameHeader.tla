--------------------------- MODULE TraceFrameHeader ---------------------------
(* Recorded frame headers of the real parser against FrameHeader.               *)
EXTENDS FrameHeader, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Aspect          \* which guarantee this run judges
VARIABLES ci
vars == <<fvars, ci>>
Got == Cases[ci].out
In == Cases[ci].in
Init == /\ ci \in 1..Len(Cases)
        /\ data = Cases[ci].in.Data /\ pos = Cases[ci].in.Skip
        /\ sh = Cases[ci].in.Sh /\ ext = Cases[ci].in.Ext /\ ref = Cases[ci].in.Ref
        /\ sb128 = Cases[ci].in.Sh.SB128
        /\ FHInit
Next == /\ UNCHANGED ci
        /\ \/ ~Over(data, pos) /\ FHNext
           \/ (FHDone \/ Over(data, pos)) /\ UNCHANGED fvars
Spec == Init /\ [][Next]_vars

Same(fields) == \A f \in fields : Got.h[f] = h[f]
Basics ==
  /\ Same({"FrameType", "ShowFrame", "Showable", "DisableCdfUpdate", "Scr", "ForceIntMv", "FrameId", "SizeOverride",
           "Order", "Primary", "Refresh", "IntraBc", "DisableEndUpdate", "PresTime"})
  /\ Got.h["Intra"] = B2I(h.Intra)
  /\ Same({"UseSuperRes", "Denom", "UpscaledWidth", "FrameWidth", "FrameHeight", "MiCols", "MiRows", "RenderWidth",
           "RenderHeight"})
  /\ (~h.Intra => Same({"RefIdx", "HighPrec", "Interp", "MotionSwitch", "UseRefMvs"}))
Refs == /\ Got.Valid = ref.Valid /\ Got.OrderHint = ref.OrderHint
        /\ (~h.Intra => Same({"OrderHints", "SignBias"}))
TilesOk == /\ Same({"TileCols", "TileRows", "ColsLog2", "RowsLog2", "CtxTile"})
QuantOk == Same({"BaseQ", "QYDc", "QUDc", "QUAc", "QVDc", "QVAc", "UsingQm", "SegOn", "SegEn", "SegVal", "SegPreSkip",
                 "SegLast", "DqPresent", "DqRes", "DlfPresent", "DlfRes", "DlfMulti", "Lossless", "CodedLossless",
                 "AllLossless", "SegUpdateMap", "SegTemporal"})
           /\ (h.UsingQm = 1 => Same({"QmY", "QmU", "QmV", "SegQm"}))
FilterOk == /\ Same({"LfLevel", "LfRef", "LfMode", "LfDelta", "CdefBits", "CdefDamp", "CdefY", "CdefUV", "LrType", "UsesLr",
                     "TxMode", "RefSelect", "SkipPresent", "Warped", "ReducedTx"})
            /\ (h.CodedLossless = 0 /\ h.IntraBc = 0 => Same({"LfSharp"}))
            /\ (h.UsesLr = 1 => Same({"LrSize"}))
            /\ (h.SkipAllowed => Same({"SkipFrames"}))
MotionOk == Same({"GmType", "Gm"})
GrainSame == Got.Grain = h.Grain
ExistingOk == Same({"MapIdx", "FrameType", "Refresh"}) /\ (sh.FrameIds = 1 => Same({"DisplayId"}))
              /\ (HasPresTime => Same({"PresTime"}))

\* the judgement that matches the property this run decides
Judge ==
  CASE Aspect = "basics" -> Basics /\ TilesOk
    [] Aspect = "refs" -> Refs
    [] Aspect = "quant" -> QuantOk
    [] Aspect = "filter" -> FilterOk
    [] Aspect = "motion" -> MotionOk
    [] Aspect = "grain" -> GrainSame
    [] Aspect = "all" -> Basics /\ Refs /\ TilesOk /\ QuantOk /\ FilterOk /\ MotionOk /\ GrainSame
Conforms ==
  IF Over(data, pos) THEN Got.st # "ok"
  ELSE CASE ph = "refused" -> Got.st # "ok"
         [] ph = "done" -> /\ Got.st = "ok"
                           /\ Got.h["ShowExisting"] = h.ShowExisting
                           /\ Got.p = pos
                           /\ IF h.ShowExisting = 1 THEN (Aspect \in {"basics", "all"} => ExistingOk) ELSE Judge
         [] OTHER -> TRUE
=============================================================================
