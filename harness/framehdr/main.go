// Frame headers: the real uncompressed_header() parser on generated bits.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type shIn struct {
	Reduced, DMPresent, EqualPicture, PresentLen, RemovalLen int
	FrameIds, DeltaIdLen, AddIdLen, Scr, IntMv               int
	OrderHint, OrderHintBits                                 int
	Ops                                                      []op
	WidthBits, HeightBits, MaxWidth, MaxHeight, SuperRes     int
	SB128, RefMvs, NumPlanes, SepUV, Cdef, Restoration       int
	SubX, SubY, Mono, Warped, FilmGrain                      int
}
type op struct{ Dm, Idc int }
type refIn struct {
	Valid, Id, OrderHint, Type []int
	CurId                      int
}
type in struct {
	Data []int
	Skip int
	Sh   shIn
	Ext  []int
	Ref  refIn
	Old  int // state an earlier frame left behind
}

func bits(v, n int) int {
	k := 0
	for i := 0; i < n; i++ {
		k |= v & (1 << uint(i))
	}
	return k
}

func genOnce(r *Rng) in {
	var c in
	s := &c.Sh
	s.Reduced = b2i(r.Chance(1, 12))
	if r.Chance(1, 4) {
		s.DMPresent = 1
		s.EqualPicture = r.Intn(2)
		s.PresentLen, s.RemovalLen = r.Intn(32), r.Intn(32)
	}
	if r.Chance(1, 2) {
		s.FrameIds = 1
		s.DeltaIdLen = r.Intn(15)
		s.AddIdLen = r.Intn(8)
		if r.Chance(1, 2) {
			s.DeltaIdLen, s.AddIdLen = r.Intn(4), r.Intn(2)
		}
		if s.DeltaIdLen+s.AddIdLen+3 > 16 {
			s.AddIdLen = 0
		}
		if s.DeltaIdLen+s.AddIdLen+3 > 16 {
			s.DeltaIdLen = 13
		}
	}
	s.Scr, s.IntMv = r.Pick(2, 2, 0, 1, 1), r.Pick(2, 2, 0, 1)
	if s.Scr == 0 {
		s.IntMv = 2
	}
	if r.Chance(4, 5) {
		s.OrderHint = 1
		s.OrderHintBits = r.Range(1, 8)
		s.RefMvs = b2i(r.Chance(1, 3))
	}
	nops := 1
	if r.Chance(1, 3) {
		nops = r.Range(1, 6)
	}
	for i := 0; i < nops; i++ {
		s.Ops = append(s.Ops, op{r.Intn(2), r.Pick(0, r.Intn(4096), r.Intn(4096), 0x101, 0xf0f)})
	}
	s.WidthBits, s.HeightBits = r.Range(5, 9), r.Range(5, 9)
	if r.Chance(1, 25) {
		s.WidthBits = 12
	}
	s.MaxWidth = r.Intn(1 << uint(s.WidthBits+1))
	s.MaxHeight = r.Intn(1 << uint(s.HeightBits+1))
	s.SuperRes, s.SB128 = b2i(r.Chance(1, 3)), r.Intn(2)
	s.NumPlanes = 3
	if r.Chance(1, 5) {
		s.NumPlanes, s.Mono, s.SubX, s.SubY = 1, 1, 1, 1
	} else {
		k := r.Intn(3)
		s.SubX, s.SubY = b2i(k > 0), b2i(k > 1)
		s.SepUV = r.Intn(2)
	}
	s.Cdef, s.Restoration, s.Warped = b2i(r.Chance(3, 4)), b2i(r.Chance(3, 4)), r.Intn(2)
	s.FilmGrain = b2i(r.Chance(1, 2))
	c.Ext = []int{r.Intn(8), r.Intn(4)}

	idLen := s.DeltaIdLen + s.AddIdLen + 3
	idBase := r.Intn(1 << 16)
	ohBase := r.Intn(256)
	for i := 0; i < 8; i++ {
		c.Ref.Valid = append(c.Ref.Valid, b2i(r.Chance(7, 8)))
		id := r.Intn(1 << 16)
		if r.Chance(2, 3) {
			id = idBase + r.Range(-6, 6)
		}
		c.Ref.Id = append(c.Ref.Id, bits(id, idLen)*s.FrameIds)
		oh := r.Intn(256)
		if r.Chance(2, 3) {
			oh = ohBase + r.Range(-4, 4)
		}
		c.Ref.OrderHint = append(c.Ref.OrderHint, bits(oh, s.OrderHintBits))
		c.Ref.Type = append(c.Ref.Type, r.Intn(4))
	}
	c.Ref.CurId = bits(idBase, idLen) * s.FrameIds
	c.Skip = r.Intn(8)
	c.Old = r.Intn(2)

	// the fields that decide which syntax follows are steered; the rest is random
	var w W
	for i := 0; i < c.Skip; i++ {
		w.Put(r.Intn(2), 1)
	}
	p := r.Pick(2, 4, 6, 8, 8, 10, 12)
	if s.Reduced == 0 {
		if r.Chance(1, 14) {
			w.Put(1, 1)
		} else {
			w.Put(0, 1)
			ty := r.Pick(0, 0, 1, 1, 1, 1, 1, 1, 2, 3)
			w.Put(ty, 2)
			show := b2i(r.Chance(3, 4))
			w.Put(show, 1)
			if show == 1 && s.DMPresent == 1 && s.EqualPicture == 0 {
				w.Put(r.Intn(1<<16), s.PresentLen+1)
			}
			if show == 0 {
				w.Put(r.Intn(2), 1)
			}
			if !(ty == 3 || (ty == 0 && show == 1)) {
				er := b2i(r.Chance(1, 3))
				w.Put(er, 1)
			}
			w.Put(r.Intn(2), 1) // disable_cdf_update
			scr := s.Scr
			if s.Scr == 2 {
				scr = r.Intn(2)
				w.Put(scr, 1)
			}
			if scr == 1 && s.IntMv == 2 {
				w.Put(b2i(r.Chance(1, 3)), 1)
			}
			if s.FrameIds == 1 {
				id := r.Intn(1 << 16)
				if r.Chance(3, 4) {
					id = idBase + r.Range(-3, 6)
				}
				if r.Chance(1, 6) {
					id = r.Intn(12)
				}
				w.Put(bits(id, idLen), idLen)
			}
			if ty != 3 {
				w.Put(b2i(r.Chance(1, 5)), 1) // frame_size_override
			}
			oh := r.Intn(256)
			if r.Chance(3, 4) {
				oh = ohBase + r.Range(-3, 5)
			}
			w.Put(bits(oh, s.OrderHintBits), s.OrderHintBits)
			if ty == 1 && w.Bits != nil && r.Chance(9, 10) {
				// primary_ref_frame if it is coded here (error resilience decides)
				if errRes(&w, c) == 0 {
					w.Put(7, 3)
				}
			}
		}
	}
	n := 420
	if r.Chance(1, 30) {
		n = r.Range(1, 30)
	}
	tail := r.Bytes(n, p)
	mix := r.Chance(1, 2)
	for i, b := range tail {
		if mix && i%16 == 0 {
			p = r.Pick(1, 3, 5, 8, 11, 14)
			copy(tail[i:], r.Bytes(min(16, n-i), p))
			b = tail[i]
		}
		w.Put(b, 8)
	}
	c.Data = w.Bytes()
	if n < 100 {
		c.Data = c.Data[:min(len(c.Data), n)]
	}
	return c
}

// errRes finds the error resilience bit of the prefix just written.
func errRes(w *W, c in) int {
	p := c.Skip + 3
	show := int(w.Bits[p])
	p++
	if show == 1 && c.Sh.DMPresent == 1 && c.Sh.EqualPicture == 0 {
		p += c.Sh.PresentLen + 1
	}
	if show == 0 {
		p++
	}
	return int(w.Bits[p])
}

// rare are situations that random bits seldom reach; a share of the cases is
// searched for, with the parser under test only as a guide.
var rare = []func(u *uncompressedheader.UncompressedHeader, c in) bool{
	func(u *uncompressedheader.UncompressedHeader, c in) bool { // some segments lossless, some not
		n := 0
		for _, l := range u.LosslessArray {
			n += b2i(l)
		}
		return n > 0 && n < 8
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.SkipModeFrame != [2]int{0, 0} },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.AllowWarpedMotion },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.CodedLossless && !u.AllLossless },
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.CodedLossless && u.SegmentationEnabled
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.ApplyGrain && len(u.PointCbValue) > 0 && len(u.PointCrValue) > 0
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.ApplyGrain && u.ChromaScalingFromLuna
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.ApplyGrain && len(u.PointYValue) == 0
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.ApplyGrain && c.Sh.Mono == 1 },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.ApplyGrain && !u.ShowFrame },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.ApplyGrain && u.FrameType == 1 },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.ApplyGrain && u.FrameType == 3 },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.DeltaLfMulti == 1 },
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.UsesLr && c.Sh.SB128 == 0 && c.Sh.SubX == 1 && c.Sh.SubY == 1
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.UsesLr && c.Sh.NumPlanes == 1 },
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.UsingQMatrix && c.Sh.SepUV == 1 && u.DeltaQVAc != u.DeltaQUAc
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return u.LoopFilterModeDeltas != [2]int{} },
	func(u *uncompressedheader.UncompressedHeader, c in) bool { return c.Sh.Reduced == 1 && u.AllowIntraBc },
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return !u.ShowFrame && u.FrameType == 0 && c.Sh.OrderHint == 1
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return c.Sh.DMPresent == 1 && len(c.Sh.Ops) > 1 && !u.FrameIsIntra
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.UseSuperRes && u.FrameSizeOverrideFlag
	},
	func(u *uncompressedheader.UncompressedHeader, c in) bool {
		return u.AllowHighPrecisionMv && u.GmParams[1] != u.GmParams[2] && u.GmParams[1] != u.GmParams[3]
	},
}

func gen(r *Rng, i int) in {
	c := genOnce(r)
	if r.Chance(1, 6) {
		return c
	}
	if r.Chance(1, 3) {
		want := rare[r.Intn(len(rare))]
		for k := 0; k < 50; k++ {
			if st, _, u, _, _ := parse(c); st == "ok" && !u.ShowExistingFrame && want(&u, c) {
				return c
			}
			c = genOnce(r)
		}
	}
	for k := 0; k < 12; k++ {
		if st, _, _, _, _ := parse(c); st == "ok" {
			return c
		}
		c = genOnce(r)
	}
	return c
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func arr8(v []int) (a [8]int) { copy(a[:], v); return }

func parse(c in) (st, msg string, u uncompressedheader.UncompressedHeader, s *state.State, pos int) {
	b := bitstream.NewBitStream(Bytes(c.Data))
	b.Position = c.Skip
	s = &state.State{RefValid: arr8(c.Ref.Valid), RefFrameId: arr8(c.Ref.Id), RefOrderHint: arr8(c.Ref.OrderHint),
		RefFrameType: arr8(c.Ref.Type), CurrentFrameId: c.Ref.CurId}
	if c.Old == 1 {
		for i := range s.FeatureEnabled {
			for j := range s.FeatureEnabled[i] {
				s.FeatureEnabled[i][j], s.FeatureData[i][j] = (i+j)%2, i+j-4
			}
		}
		for i := range s.GmType {
			s.GmType[i] = 3
			s.PrevGmParams[i] = [6]int{1, 2, 3, 4, 5, 6}
		}
		s.MiCols, s.MiRows, s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2 = 34, 22, 2, 3, 1, 2
		s.MiColStarts, s.MiRowStarts = []int{0, 32, 34}, []int{0, 16, 20, 22}
		s.LoopRestorationSize = [3]int{64, 128, 256}
		s.CurrentQIndex = 77
		s.PrevSegmentIds = [][]int{{1, 2}, {3}}
	}
	x := c.Sh
	sh := sequenceheader.SequenceHeader{
		ReducedStillPictureHeader: x.Reduced == 1, StillPicture: x.Reduced == 1,
		TimingInfo:              sequenceheader.TimingInfo{EqualPictureInterval: x.EqualPicture == 1},
		DecoderModelInfoPresent: x.DMPresent == 1,
		DecoderModelInfo: sequenceheader.DecoderModelInfo{BufferRemovalTimeLengthMinusOne: x.RemovalLen,
			FramePresentationTimeLengthMinusOne: x.PresentLen},
		FrameIdNumbersPresent: x.FrameIds == 1, DeltaFrameIdLengthMinusTwo: x.DeltaIdLen,
		AdditionalFrameIdLengthMinusOne: x.AddIdLen,
		SeqForceScreenContentTools:      x.Scr, SeqForceIntegerMv: x.IntMv,
		SeqChooseScreenContentTools: x.Scr == 2, SeqChooseIntegerMv: x.IntMv == 2,
		EnableOrderHint: x.OrderHint == 1, OrderHintBits: x.OrderHintBits,
		OperatingPointsCountMinusOne: len(x.Ops) - 1,
		FrameWidthBitsMinusOne:       x.WidthBits, FrameHeightBitsMinusOne: x.HeightBits,
		MaxFrameWidthMinusOne: x.MaxWidth, MaxFrameHeightMinusOne: x.MaxHeight,
		EnableSuperRes: x.SuperRes == 1, Use128x128SuperBlock: x.SB128 == 1, EnableRefFrameMvs: x.RefMvs == 1,
		EnableCdef: x.Cdef == 1, EnableRestoration: x.Restoration == 1, EnableWarpedMotion: x.Warped == 1,
		FilmGrainParamsPresent: x.FilmGrain == 1,
		ColorConfig: sequenceheader.ColorConfig{NumPlanes: x.NumPlanes, SeparateUvDeltaQ: x.SepUV == 1,
			SubsamplingX: x.SubX == 1, SubsamplingY: x.SubY == 1, MonoChrome: x.Mono == 1, BitDepth: 8},
	}
	for _, o := range x.Ops {
		sh.DecoderModelPresentForThisOp = append(sh.DecoderModelPresentForThisOp, o.Dm == 1)
		sh.OperatingPointIdc = append(sh.OperatingPointIdc, o.Idc)
	}
	hd := header.Header{Type: 3, ExtensionFlag: true, ExtensionHeader: header.ExtensionHeader{TemporalID: c.Ext[0], SpatialID: c.Ext[1]}}

	st, msg = Try(func() { u = uncompressedheader.NewUncompressedHeader(hd, sh, &b, s) })
	return st, msg, u, s, b.Position
}

func run(c in) map[string]any {
	st, msg, u, s, pos := parse(c)
	out := map[string]any{"st": st, "msg": msg}
	if st != "ok" {
		return out
	}
	out["p"] = pos
	out["Valid"], out["OrderHint"], out["CurId"] = s.RefValid, s.RefOrderHint, s.CurrentFrameId
	h := map[string]any{
		"ShowExisting": u.ShowExistingFrame, "MapIdx": u.FrameToShowMapIdx, "DisplayId": u.DisplayFrameId,
		"PresTime": Limbs(u.FramePresentationTime), "FrameType": u.FrameType, "Intra": u.FrameIsIntra,
		"ShowFrame": u.ShowFrame, "Showable": u.ShowableFrame, "Refresh": u.RefreshFrameFlags,
	}
	out["h"] = h
	if u.ShowExistingFrame {
		return out
	}
	put := func(k string, v any) { h[k] = v }
	put("DisableCdfUpdate", u.DisableCdfUpdate)
	put("Scr", u.AllowScreenContentTools)
	put("ForceIntMv", u.ForceIntegerMv)
	put("FrameId", u.CurrentFrameId)
	put("SizeOverride", u.FrameSizeOverrideFlag)
	put("Order", u.OrderHint)
	put("Primary", u.PrimaryRefFrame)
	put("IntraBc", u.AllowIntraBc)
	put("DisableEndUpdate", u.DisableFrameEndUpdateCdf)
	put("UseSuperRes", u.UseSuperRes)
	put("Denom", u.SuperResDenom)
	put("UpscaledWidth", u.UpscaledWidth)
	put("FrameWidth", u.FrameWidth)
	put("FrameHeight", u.FrameHeight)
	put("MiCols", s.MiCols)
	put("MiRows", s.MiRows)
	put("RenderWidth", u.RenderWidth)
	put("RenderHeight", u.RenderHeight)
	put("RefIdx", u.RefFrameIdx)
	put("HighPrec", u.AllowHighPrecisionMv)
	put("Interp", u.InterpolationFilter)
	put("MotionSwitch", u.IsMotionModeSwitchable)
	put("UseRefMvs", u.UseRefFrameMvs)
	put("OrderHints", u.OrderHints[1:])
	put("SignBias", u.RefFrameSignBias[1:])
	put("TileCols", s.TileCols)
	put("TileRows", s.TileRows)
	put("ColsLog2", s.TileColsLog2)
	put("RowsLog2", s.TileRowsLog2)
	put("CtxTile", u.TileInfo.ContextUpdateTileId)
	put("ColStarts", s.MiColStarts)
	put("RowStarts", s.MiRowStarts)

	put("BaseQ", u.BaseQIdx)
	put("QYDc", u.DeltaQYDc)
	put("QUDc", u.DeltaQUDc)
	put("QUAc", u.DeltaQUAc)
	put("QVDc", u.DeltaQVDc)
	put("QVAc", u.DeltaQVAc)
	put("UsingQm", u.UsingQMatrix)
	put("QmY", u.Qmy)
	put("QmU", u.Qmu)
	put("QmV", u.Qmv)
	put("SegOn", u.SegmentationEnabled)
	put("SegUpdateMap", u.SegmentationUpdateMap)
	put("SegTemporal", u.SegmentationTemporalUpdate)
	var en, val []int
	for i := range s.FeatureEnabled {
		for j := range s.FeatureEnabled[i] {
			en = append(en, s.FeatureEnabled[i][j])
			val = append(val, s.FeatureData[i][j])
		}
	}
	put("SegEn", en)
	put("SegVal", val)
	put("SegPreSkip", u.SegIdPreSkip)
	put("SegLast", u.LastActiveSegId)
	put("DqPresent", u.DeltaQPresent)
	put("DqRes", u.DeltaQRes)
	put("DlfPresent", u.DeltaLfPresent)
	put("DlfRes", u.DeltaLfRes)
	put("DlfMulti", u.DeltaLfMulti)
	put("Lossless", u.LosslessArray)
	put("CodedLossless", u.CodedLossless)
	put("AllLossless", u.AllLossless)
	put("SegQm", u.SegQMLevel)

	put("LfLevel", u.LoopFilterLevel)
	put("LfSharp", u.LoopFilterSharpness)
	put("LfDelta", u.LoopFilterDeltaEnabled)
	put("LfRef", u.LoopFilterRefDeltas)
	put("LfMode", u.LoopFilterModeDeltas)
	put("CdefBits", u.CdefBits)
	put("CdefDamp", u.CdefDampening)
	pairs := func(a, b []int) [][]int {
		var o [][]int
		for i := 0; i < len(a) && i < 1<<uint(u.CdefBits); i++ {
			o = append(o, []int{a[i], b[i]})
		}
		return o
	}
	put("CdefY", pairs(u.CdefYPriStrength, u.CdefYSecStrength))
	put("CdefUV", pairs(u.CdefUVPriStrength, u.CdefUVSecStrength))
	put("LrType", u.FrameRestorationType)
	put("UsesLr", u.UsesLr)
	put("LrSize", s.LoopRestorationSize)
	put("TxMode", u.TxMode)
	put("RefSelect", u.ReferenceSelect)
	put("SkipPresent", u.SkipModePresent)
	put("SkipFrames", u.SkipModeFrame)
	put("Warped", u.AllowWarpedMotion)
	put("ReducedTx", u.ReducedTxSet)
	put("GmType", s.GmType[1:])
	put("Gm", u.GmParams[1:])

	pts := func(v, sc []int) [][]int {
		o := [][]int{}
		for i := range v {
			o = append(o, []int{v[i], sc[i]})
		}
		return o
	}
	out["Grain"] = map[string]any{
		"Apply": u.ApplyGrain, "Seed": u.GrainSeed, "Y": pts(u.PointYValue, u.PointYScaling),
		"Cb": pts(u.PointCbValue, u.PointCbScaling), "Cr": pts(u.PointCrValue, u.PointCrScaling),
		"FromLuma": u.ChromaScalingFromLuna, "Scaling": u.GrainScalingMinus8, "Lag": u.ArCoeffLag,
		"ArY": u.ArCoeffsYPlus128, "ArCb": u.ArCoeffsCbPlus128, "ArCr": u.ArCoeffsCrPlus128,
		"ArShift": u.ArCoeffShiftMinus6, "Shift": u.GrainScaleShift,
		"CbM": []int{u.CbMult, u.CbLumaMult, u.CbOffset}, "CrM": []int{u.CrMult, u.CrLumaMult, u.CrOffset},
		"Overlap": u.OverlapFlag, "Clip": u.ClipToRestrictedRange,
	}
	return out
}

func main() { Main(gen, run) }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
