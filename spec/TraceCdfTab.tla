------------------------------ MODULE TraceCdfTab ------------------------------
(* The probability tables a frame without a primary reference starts from:        *)
(* every one a valid CDF with a zero counter, coefficient tables chosen by the    *)
(* base quantizer index (AV1 init_coeff_cdfs), values as the format lists them.   *)
EXTENDS Symbol, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Defaults == JsonDeserialize("DefaultCdfs.json")
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
QSet(q) == IF q <= 20 THEN 1 ELSE IF q <= 60 THEN 2 ELSE IF q <= 120 THEN 3 ELSE 4
Expected == LET d == Defaults[In.Field] IN IF Len(d) = 1 THEN d[1] ELSE d[QSet(In.Q)]
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
\* How the tables are arranged: one CDF for every combination of contexts.
Dims(f) ==
  CASE f \in {"IntrabcCdf", "FilterIntraModeCdf", "DeltaQCdf", "DeltaLFCdf", "InterTxTypeSet2Cdf",
        "CflSignCdf", "UseWienerCdf", "UseSgrprojCdf", "RestorationTypeCdf"}
       -> <<>>
  [] f \in {"EobPt512Cdf", "EobPt1024Cdf", "ZeroMvCdf", "MvJointCdf", "PaletteUVModeCdf",
        "InterTxTypeSet1Cdf"}
       -> <<2>>
  [] f \in {"EobPt16Cdf", "EobPt32Cdf", "EobPt64Cdf", "EobPt128Cdf", "EobPt256Cdf", "MvClassCdf",
        "MvClass0BitCdf", "MvFrCdf", "MvClass0HpCdf", "MvSignCdf", "MvHpCdf"}
       -> <<2, 2>>
  [] f \in {"MvClass0FrCdf"}
       -> <<2, 2, 2>>
  [] f \in {"MvBitCdf"}
       -> <<2, 2, 10>>
  [] f \in {"DcSignCdf"}
       -> <<2, 3>>
  [] f \in {"IntraTxTypeSet1Cdf"}
       -> <<2, 13>>
  [] f \in {"SegmentIdCdf", "SegmentIdPredictedCdf", "Tx8x8Cdf", "Tx16x16Cdf", "Tx32x32Cdf", "Tx64x64Cdf",
        "DrlModeCdf", "SkipModeCdf", "SkipCdf", "InterIntraCdf", "InterIntraModeCdf"}
       -> <<3>>
  [] f \in {"CompBwdRefCdf"}
       -> <<3, 2>>
  [] f \in {"CompRefCdf", "UniCompRefCdf"}
       -> <<3, 3>>
  [] f \in {"SingleRefCdf"}
       -> <<3, 6>>
  [] f \in {"IntraTxTypeSet2Cdf"}
       -> <<3, 13>>
  [] f \in {"YModeCdf", "PartitionW8Cdf", "PartitionW16Cdf", "PartitionW32Cdf", "PartitionW64Cdf",
        "PartitionW128Cdf", "IsInterCdf", "DeltaLFMultiCdf", "InterTxTypeSet3Cdf"}
       -> <<4>>
  [] f \in {"CompModeCdf", "PaletteSize2YColorCdf", "PaletteSize2UVColorCdf", "PaletteSize3YColorCdf",
        "PaletteSize3UVColorCdf", "PaletteSize4YColorCdf", "PaletteSize4UVColorCdf", "PaletteSize5YColorCdf",
        "PaletteSize5UVColorCdf", "PaletteSize6YColorCdf", "PaletteSize6UVColorCdf", "PaletteSize7YColorCdf",
        "PaletteSize7UVColorCdf", "PaletteSize8YColorCdf", "PaletteSize8UVColorCdf", "CompRefTypeCdf"}
       -> <<5>>
  [] f \in {"CoeffBaseEobCdf"}
       -> <<5, 2, 4>>
  [] f \in {"EobExtraCdf"}
       -> <<5, 2, 9>>
  [] f \in {"CoeffBrCdf"}
       -> <<5, 2, 21>>
  [] f \in {"CoeffBaseCdf"}
       -> <<5, 2, 42>>
  [] f \in {"IntraFrameYModeCdf"}
       -> <<5, 5>>
  [] f \in {"TxbSkipCdf"}
       -> <<5, 13>>
  [] f \in {"NewMvCdf", "RefMvCdf", "CompGroupIdxCdf", "CompoundIdxCdf", "CflAlphaCdf"}
       -> <<6>>
  [] f \in {"PaletteYSizeCdf", "PaletteUVSizeCdf"}
       -> <<7>>
  [] f \in {"PaletteYModeCdf"}
       -> <<7, 3>>
  [] f \in {"AngleDeltaCdf", "CompoundModeCdf"}
       -> <<8>>
  [] f \in {"UVModeCflNotAllowedCdf", "UVModeCflAllowedCdf"}
       -> <<13>>
  [] f \in {"InterpFilterCdf"}
       -> <<16>>
  [] f \in {"TxfmSplitCdf"}
       -> <<21>>
  [] f \in {"FilterIntraCdf", "MotionModeCdf", "UseObmcCdf", "WedgeInterIntraCdf", "CompoundTypeCdf",
        "WedgeIndexCdf"}
       -> <<22>>
  [] OTHER -> <<-1>>   \* a table the format does not know
Volume(d) == FoldLeft(LAMBDA a, x: a * x, 1, d)
RECURSIVE Digits(_, _)
Digits(n, d) == IF d = <<>> THEN <<>> ELSE
                LET rest == Volume(Tail(d)) IN <<n \div rest>> \o Digits(n % rest, Tail(d))
Shaped(paths, d) == /\ Len(paths) = Volume(d)
                    /\ \A i \in 1..Len(paths) : paths[i] = Digits(i - 1, d)
FreshCdf(c) == ValidCdf(c) /\ c[Len(c)] = 0
Conforms == /\ Got.st = "ok"
            /\ Dims(In.Field) # <<-1>> => Shaped(Got.paths, Dims(In.Field))
            /\ In.Field \in DOMAIN Defaults => Got.tab = Expected
            /\ \A i \in 1..Len(Got.tab) : FreshCdf(Got.tab[i])
=============================================================================
