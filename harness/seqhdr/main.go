package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Data []int
	Skip int
}

// coded writes a whole sequence header field by field, so that every late field is reached with
// every combination of the choices before it.
func coded(r *Rng) in {
	w := &W{}
	skip := r.Intn(9)
	w.Put(r.Intn(256), skip)
	bit := func(p int) int { // 1 in p of ten
		k := 0
		if r.Chance(p, 10) {
			k = 1
		}
		w.Put(k, 1)
		return k
	}
	prof := r.Intn(3)
	w.Put(prof, 3)
	bit(5)
	reduced := bit(2)
	if reduced == 1 {
		w.Put(r.Intn(32), 5)
	} else {
		dm, delayLen := 0, 0
		if bit(6) == 1 {
			w.Put(int(r.U64()&0xffffffff), 32)
			w.Put(int(r.U64()&0xffffffff), 32)
			if bit(5) == 1 {
				lz := r.Pick(0, 1, 2, 5, 12)
				w.Put(0, lz)
				w.Put(1, 1)
				w.Put(r.Intn(1<<uint(lz)), lz)
			}
			if dm = bit(7); dm == 1 {
				delayLen = r.Pick(0, 3, 9, r.Intn(32), 31)
				w.Put(delayLen, 5)
				w.Put(int(r.U64()&0xffffffff), 32)
				w.Put(r.Intn(32), 5)
				w.Put(r.Intn(32), 5)
			}
		}
		idp := bit(5)
		n := r.Pick(0, 0, 1, 2, 3, 5)
		if r.Chance(1, 20) {
			n = r.Pick(7, 31)
		}
		w.Put(n, 5)
		for k := 0; k <= n; k++ {
			w.Put(r.Pick(0, 0x101, 0x303, r.Intn(4096), 1<<uint(r.Intn(12))), 12)
			level := r.Pick(0, 5, 6, 7, 8, 9, 15, 16, 23, 31, r.Intn(32))
			w.Put(level, 5)
			if level > 7 {
				bit(5)
			}
			if dm == 1 && bit(5) == 1 {
				w.Put(int(r.U64()&0xffffffff)>>uint(31-delayLen), delayLen+1)
				w.Put(int(r.U64()&0xffffffff)>>uint(31-delayLen), delayLen+1)
				bit(5)
			}
			if idp == 1 && bit(6) == 1 {
				w.Put(r.Intn(16), 4)
			}
		}
	}
	wb, hb := r.Intn(16), r.Intn(16)
	w.Put(wb, 4)
	w.Put(hb, 4)
	w.Put(r.Pick(0, 1<<uint(wb), 1<<uint(wb+1)-1, r.Intn(1<<uint(wb+1))), wb+1)
	w.Put(r.Pick(0, 1<<uint(hb), 1<<uint(hb+1)-1, r.Intn(1<<uint(hb+1))), hb+1)
	if reduced == 0 && bit(5) == 1 {
		w.Put(r.Intn(16), 4)
		w.Put(r.Intn(8), 3)
	}
	for k := 0; k < 3; k++ {
		bit(5)
	}
	if reduced == 0 {
		for k := 0; k < 4; k++ {
			bit(5)
		}
		oh := bit(6)
		if oh == 1 {
			bit(5)
			bit(5)
		}
		scr := 1
		if bit(4) == 0 {
			scr = bit(5)
		}
		if scr == 1 && bit(4) == 0 {
			bit(5)
		}
		if oh == 1 {
			w.Put(r.Intn(8), 3)
		}
	}
	for k := 0; k < 3; k++ {
		bit(5)
	}
	high, twelve, mono := bit(5), 0, 0
	if prof == 2 && high == 1 {
		twelve = bit(7)
	}
	if prof != 1 {
		mono = bit(3)
	}
	srgb := false
	if bit(7) == 1 {
		cp := r.Pick(1, 1, 1, 2, 0, 9, 255, r.Intn(256))
		tc := r.Pick(13, 13, 13, 2, 1, 12, 14, 255, r.Intn(256))
		mc := r.Pick(0, 0, 0, 2, 1, 255, r.Intn(256))
		w.Put(cp, 8)
		w.Put(tc, 8)
		w.Put(mc, 8)
		srgb = cp == 1 && tc == 13 && mc == 0
	}
	if mono == 1 || !srgb {
		bit(5)
	}
	if mono == 0 && !srgb {
		sx, sy := prof != 1, prof == 0
		if prof == 2 && twelve == 1 {
			sx = bit(7) == 1
			sy = sx && bit(6) == 1
		}
		if sx && sy {
			w.Put(r.Intn(4), 2)
		}
	}
	for k := 0; k < 2; k++ {
		bit(5)
	}
	w.Put(r.Intn(1<<16), 16)
	return in{Data: w.Bytes(), Skip: skip}
}

func gen(r *Rng, i int) in {
	if i%2 == 1 {
		return coded(r)
	}
	w := &W{}
	skip := r.Intn(9)
	w.Put(r.Intn(256), skip)
	w.Put(r.Intn(3), 3) // profiles 0..2 are the defined ones
	w.Put(r.Intn(2), 1)
	if r.Chance(1, 5) { // reduced
		w.Put(1, 1)
	} else {
		w.Put(0, 1)
		if r.Chance(1, 2) {
			w.Put(1, 1)
			w.Put(int(r.U64()&0xffffffff), 32)
			w.Put(int(r.U64()&0xffffffff), 32)
			if r.Chance(1, 2) {
				w.Put(1, 1)
				lz := r.Pick(0, 1, 3, 10, 20, 31, 32)
				w.Put(0, lz)
				w.Put(1, 1)
				if lz < 32 {
					w.Put(int(r.U64()&0xffffffff)>>uint(32-lz), lz)
				}
			} else {
				w.Put(0, 1)
			}
			w.Put(r.Intn(2), 1)
		} else {
			w.Put(0, 1)
		}
	}
	if r.Chance(1, 2) {
		for _, x := range r.Bytes(r.Range(60, 90), r.Pick(2, 8, 8, 14)) {
			w.Put(x, 8)
		}
	} else {
		for _, x := range r.Bytes(r.Range(1, 200), r.Pick(2, 4, 8, 12)) {
			w.Put(x, 8)
		}
	}
	return in{Data: w.Bytes(), Skip: skip}
}

func run(c in) map[string]any {
	b := bitstream.NewBitStream(Bytes(c.Data))
	b.Position = c.Skip
	var s state.State
	var h sequenceheader.SequenceHeader
	st, msg := Try(func() { h = sequenceheader.NewSequenceHeader(&b, &s) })
	out := map[string]any{"st": st, "msg": msg}
	if st != "ok" {
		return out
	}
	out["p"] = b.Position
	out["idc"] = s.OperatingPointIdc
	out["h"] = map[string]any{
		"SeqProfile": h.SeqProfile, "StillPicture": h.StillPicture, "Reduced": h.ReducedStillPictureHeader,
		"NumUnitsInDisplayTick": Limbs(h.TimingInfo.NumUnitsInDisplayTick), "TimeScale": Limbs(h.TimingInfo.TimeScale),
		"EqualPictureInterval": h.TimingInfo.EqualPictureInterval, "NumTicks": Limbs(h.TimingInfo.NumTicksPerMinuteMinusOne),
		"DMPresent": h.DecoderModelInfoPresent, "BufferDelayLen": h.DecoderModelInfo.BufferDelayLengthMinusOne,
		"DecodingTick": Limbs(h.DecoderModelInfo.NumUnitsInDecodingTick), "RemovalLen": h.DecoderModelInfo.BufferRemovalTimeLengthMinusOne,
		"PresentLen": h.DecoderModelInfo.FramePresentationTimeLengthMinusOne, "DelayPresent": h.InitialDisplayDelayPresent,
		"OpCntMinus1": h.OperatingPointsCountMinusOne, "WidthBits": h.FrameWidthBitsMinusOne, "HeightBits": h.FrameHeightBitsMinusOne,
		"MaxWidth": h.MaxFrameWidthMinusOne, "MaxHeight": h.MaxFrameHeightMinusOne, "FrameIds": h.FrameIdNumbersPresent,
		"DeltaIdLen": h.DeltaFrameIdLengthMinusTwo, "AddIdLen": h.AdditionalFrameIdLengthMinusOne,
		"SB128": h.Use128x128SuperBlock, "FilterIntra": h.EnableFilterIntra, "IntraEdge": h.EnableIntraEdgeFilter,
		"InterIntra": h.EnableInterIntraCompound, "Masked": h.EnableMaskedCompound, "Warped": h.EnableWarpedMotion,
		"DualFilter": h.EnableDualFilter, "OrderHint": h.EnableOrderHint, "JntComp": h.EnableJntComp, "RefMvs": h.EnableRefFrameMvs,
		"ScrChoose": h.SeqChooseScreenContentTools, "Scr": h.SeqForceScreenContentTools, "IntMv": h.SeqForceIntegerMv,
		"OrderHintBits": h.OrderHintBits, "SuperRes": h.EnableSuperRes, "Cdef": h.EnableCdef, "Restoration": h.EnableRestoration,
		"FilmGrain": h.FilmGrainParamsPresent,
	}
	c2 := h.ColorConfig
	out["Color"] = map[string]any{
		"HighBitDepth": c2.HighBitDepth, "TwelveBit": c2.TwelveBit, "BitDepth": c2.BitDepth, "Mono": c2.MonoChrome,
		"NumPlanes": c2.NumPlanes, "Desc": c2.ColorDescriptionPresent, "CP": c2.ColorPrimaries, "TC": c2.TransferCharacteristics,
		"MC": c2.MatrixCoefficients, "Range": c2.ColorRange, "SubX": c2.SubsamplingX, "SubY": c2.SubsamplingY,
		"CSP": c2.ChromaSamplePosition, "SepUV": c2.SeparateUvDeltaQ,
	}
	ops := []any{}
	at := func(s []int, i int) int {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	bt := func(s []bool, i int) bool { return i < len(s) && s[i] }
	for i := range h.OperatingPointIdc {
		o := map[string]any{"idc": h.OperatingPointIdc[i], "level": at(h.SeqLevelIdx, i), "tier": at(h.SeqTier, i),
			"dm": bt(h.DecoderModelPresentForThisOp, i), "dbd": Limbs(0), "ebd": Limbs(0), "low": 0,
			"idp": bt(h.InitialDisplayDelayPresentForThisOp, i), "idd": 0}
		if bt(h.DecoderModelPresentForThisOp, i) {
			o["dbd"], o["ebd"], o["low"] = Limbs(at(h.DecoderBufferDelay, i)), Limbs(at(h.EncoderBufferDelay, i)), bt(h.LowDelayModeFlag, i)
		}
		if bt(h.InitialDisplayDelayPresentForThisOp, i) {
			o["idd"] = at(h.InitialDisplayDelayMinusOne, i)
		}
		ops = append(ops, o)
	}
	out["Ops"] = ops
	return out
}

func main() { Main(gen, run) }
