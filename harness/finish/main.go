// The ends of a few small frames in a row: filters, reference slots, output.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type frame struct {
	Show, Idx, Flags                           int // Show: 0 kept back, 1 shown, 2 the frame of slot Idx is shown again, 3 it becomes the current frame again
	Depth, SubX, SubY, Mono, W, UpW, H         int
	MiRows, MiCols, Super                      int
	Level                                      [4]int
	Sharp, DeltaOn, SegOn, UpdMap, Multi, Type int
	RefD                                       [8]int
	ModeD                                      [2]int
	FOn, FData                                 [8][4]int
	Own, Prev                                  [][]int
	Blk                                        []tilegroup.XBlk
	Damping                                    int
	YPri, YSec, UvPri, UvSec                   [8]int
	CdefIdx                                    [][]int // CDEF index of the whole frame
	Skips                                      [][]int
	Types, Unit                                [3]int
	Units                                      [][][]tilegroup.XUnit
	Px                                         [][][]int
	Meta                                       []int     // numbers kept with the frame
	Tag                                        int       // stands for its CDFs
	Mf                                         [][][]int // per 4x4: reference, vector
	Hints, Gm                                  []int
}

func meta(c *frame, r *Rng) {
	c.Hints, c.Gm = nil, nil
	for k := 0; k < 7; k++ {
		c.Hints = append(c.Hints, r.Intn(128))
		for j := 0; j < 6; j++ {
			c.Gm = append(c.Gm, r.Range(-100000, 100000))
		}
	}
	id, rw, rh, hint := r.Intn(1<<15), r.Range(1, 65536), r.Range(1, 65536), r.Intn(128)
	c.Meta = append([]int{id, c.UpW, c.W, c.H, rw, rh, c.MiCols, c.MiRows, c.Type, c.SubX, c.SubY, c.Depth, hint}, append(append([]int{}, c.Hints...), c.Gm...)...)
}

func picture(r *Rng, depth, subX, subY, mono int) frame {
	c := frame{Depth: depth, SubX: subX, SubY: subY, Mono: mono, UpW: r.Range(16, 22), H: r.Range(2, 17), Sharp: r.Intn(8), SegOn: r.Intn(2), UpdMap: r.Intn(2),
		Show: r.Pick(0, 1, 1), Flags: r.Pick(0, 255, 1<<uint(r.Intn(8)), r.Intn(256), r.Intn(256)), Type: r.Pick(0, 2, 2), Damping: r.Range(3, 6), Tag: r.Range(1, 30000), DeltaOn: r.Intn(2)}
	for k := range c.RefD {
		c.RefD[k] = r.Pick(0, r.Range(-63, 63))
	}
	c.ModeD = [2]int{r.Range(-63, 63), r.Range(-63, 63)}
	c.W = c.UpW
	if r.Chance(1, 3) {
		c.Super = 1
		denom := r.Range(9, 16)
		c.W = (c.UpW*8 + denom/2) / denom
	}
	c.MiCols, c.MiRows = 2*((c.W+7)/8), 2*((c.H+7)/8)
	if r.Chance(3, 4) {
		for k := range c.Level {
			c.Level[k] = r.Pick(0, 63, r.Intn(64), r.Range(20, 63))
		}
	} else {
		c.Level[2], c.Level[3] = r.Intn(64), r.Intn(64)
	}
	for k := range c.FOn {
		for f := range c.FOn[k] {
			c.FOn[k][f], c.FData[k][f] = r.Intn(2), r.Range(-63, 63)
		}
	}
	n := r.Intn(2) // blocks of 8 or 16
	for y := 0; y < c.MiRows; y++ {
		own, prev, skips, mf := []int{}, []int{}, []int{}, [][]int{}
		for x := 0; x < c.MiCols; x++ {
			own = append(own, (y>>uint(n+1))*((c.MiCols+1)>>uint(n+1)+1)+x>>uint(n+1))
			prev = append(prev, r.Intn(8))
			mf = append(mf, []int{r.Range(0, 7), r.Range(-999, 999), r.Range(-999, 999)})
		}
		c.Own, c.Prev, c.Mf, c.Skips = append(c.Own, own), append(c.Prev, prev), append(c.Mf, mf), append(c.Skips, skips)
	}
	last := 0
	for y := range c.Own {
		for _, o := range c.Own[y] {
			if o > last {
				last = o
			}
		}
	}
	for k := 0; k <= last; k++ {
		b := tilegroup.XBlk{Size: 3 + 3*n, Tx: r.Range(0, 1+n), Skip: r.Intn(2), Seg: r.Intn(8), Mode: r.Intn(13)}
		b.UvTx = 0 // 4x4 or what is left of the block
		switch {
		case c.SubX == 0 && c.SubY == 0:
			b.UvTx = 1 + n
		case c.SubX == 1 && c.SubY == 1:
			b.UvTx = n
		case c.SubX == 1:
			b.UvTx = 5 + 2*n
		}
		c.Blk = append(c.Blk, b)
	}
	for y := range c.Own {
		for x := range c.Own[y] {
			c.Skips[y] = append(c.Skips[y], c.Blk[c.Own[y][x]].Skip)
		}
	}
	for k := range c.YPri {
		c.YPri[k], c.UvPri[k] = r.Pick(0, r.Intn(16), r.Intn(16)), r.Pick(0, r.Intn(16), r.Intn(16))
		c.YSec[k], c.UvSec[k] = r.Pick(0, 1, 2, 4), r.Pick(0, 1, 2, 4)
	}
	c.CdefIdx = [][]int{{r.Pick(-1, r.Intn(8), r.Intn(8), r.Intn(8))}}
	top, sc := 1<<uint(c.Depth)-1, 1<<uint(c.Depth-8)
	lr := r.Chance(1, 2)
	for p := 0; p < 3-2*c.Mono; p++ {
		sx, sy := c.SubX, c.SubY
		if p == 0 {
			sx, sy = 0, 0
		}
		c.Unit[p] = 64
		u := tilegroup.XUnit{Set: r.Intn(10), Xqd: [2]int{r.Range(-96, 31), r.Range(-32, 95)}}
		for k := range u.Coef {
			u.Coef[k] = [3]int{r.Range(-5, 10) * (1 - (p+1)/2), r.Range(-23, 8), r.Range(-17, 46)}
		}
		if lr {
			c.Types[p] = r.Pick(0, 1, 2)
			u.Type = c.Types[p]
		}
		c.Units = append(c.Units, [][]tilegroup.XUnit{{u}})
		base, noise, step := r.Intn(top+1), r.Pick(1, 2, 4*sc, 20*sc), sc*r.Pick(0, 2, 6, 20)
		m := [][]int{}
		for y := 0; y < c.MiRows*4>>uint(sy); y++ {
			row := []int{}
			for x := 0; x < c.MiCols*4>>uint(sx); x++ {
				v := base + r.Intn(noise) + step*((x>>3)+(y>>3))
				if v > top {
					v = top
				}
				row = append(row, v)
			}
			m = append(m, row)
		}
		c.Px = append(c.Px, m)
	}
	meta(&c, r)
	return c
}

type seq struct {
	Frames []frame
}

func gen(r *Rng, i int) seq {
	depth, subX, subY, mono := r.Pick(8, 8, 10, 12), r.Intn(2), 0, 0
	if subX == 1 {
		subY = 1 - r.Intn(3)/2
		mono = r.Intn(8) / 7
	}
	var c seq
	kind := [8]int{-1, -1, -1, -1, -1, -1, -1, -1} // of the frame in each slot
	for n := r.Range(2, 4); n > 0; n-- {
		f := picture(r, depth, subX, subY, mono)
		again := []int{}
		for k, v := range kind {
			if v >= 0 {
				again = append(again, k)
			}
		}
		if len(again) > 0 && r.Chance(1, 3) {
			k := r.Pick(again...)
			c.Frames = append(c.Frames, frame{Show: 2, Idx: k})
			if kind[k] == 0 { // it is all that is left
				kind = [8]int{}
			}
		}
		if n < 4 && r.Chance(1, 3) {
			back := []int{}
			for k, v := range kind {
				if v >= 0 {
					back = append(back, k)
				}
			}
			if len(back) > 0 {
				c.Frames = append(c.Frames, frame{Show: 3, Idx: r.Pick(back...)})
			}
		}
		for k := range kind {
			if f.Flags>>uint(k)&1 == 1 {
				kind[k] = f.Type
			}
		}
		c.Frames = append(c.Frames, f)
	}
	for k, v := range kind {
		if v >= 0 && r.Chance(1, 3) {
			c.Frames = append(c.Frames, frame{Show: 2, Idx: k})
			break
		}
	}
	return c
}

func crop(px [][]int, w, h int) [][]int {
	m := [][]int{}
	for y := 0; y < h; y++ {
		m = append(m, append([]int{}, px[y][:w]...))
	}
	return m
}

func half(v, p, s int) int {
	if p == 0 {
		return v
	}
	return (v + s) >> uint(s)
}

func metas(s *state.State) [][]int {
	all := [][]int{}
	for k := 0; k < 8; k++ {
		m := []int{}
		if s.RefValid[k] == 1 {
			m = []int{s.RefFrameId[k], s.RefUpscaledWidth[k], s.RefFrameWidth[k], s.RefFrameHeight[k], s.RefRenderWidth[k], s.RefRenderHeight[k], s.RefMiCols[k], s.RefMiRows[k],
				s.RefFrameType[k], s.RefSubsamplingX[k], s.RefSubsamplingY[k], s.RefBitDepth[k], s.RefOrderHint[k]}
			m = append(m, s.SavedOrderHints[k][1:8]...)
			for j := 1; j < 8; j++ {
				m = append(m, s.SavedGmParams[k][j][:]...)
			}
		}
		all = append(all, m)
	}
	return all
}

func run(q seq) map[string]any {
	s := new(state.State)
	steps := []map[string]any{}
	var last frame
	for i := range q.Frames {
		c := q.Frames[i]
		var sh sequenceheader.SequenceHeader
		var uh uncompressedheader.UncompressedHeader
		d := c
		if c.Show >= 2 {
			d = last
		}
		cc := &sh.ColorConfig
		cc.BitDepth, cc.SubsamplingX, cc.SubsamplingY, cc.NumPlanes = d.Depth, d.SubX == 1, d.SubY == 1, 3
		if d.Mono == 1 {
			cc.MonoChrome, cc.NumPlanes = true, 1
		}
		uh.ShowFrame, uh.ShowExistingFrame, uh.FrameToShowMapIdx, uh.RefreshFrameFlags, uh.FrameType = c.Show == 1, c.Show == 2, c.Idx, c.Flags, c.Type
		if c.Show >= 2 {
			uh.FrameType = s.RefFrameType[c.Idx]
			if uh.FrameType == 0 && c.Show == 2 {
				uh.RefreshFrameFlags = 255
			}
		} else {
			last = c
			s.MiRows, s.MiCols = c.MiRows, c.MiCols
			uh.UpscaledWidth, uh.FrameWidth, uh.FrameHeight, uh.UseSuperRes = c.UpW, c.W, c.H, c.Super == 1
			uh.CurrentFrameId, uh.RenderWidth, uh.RenderHeight, uh.OrderHint = c.Meta[0], c.Meta[4], c.Meta[5], c.Meta[12]
			s.CurrentFrameId = c.Meta[0]
			for k := 0; k < 7; k++ {
				uh.OrderHints[k+1] = c.Hints[k]
				for j := 0; j < 6; j++ {
					uh.GmParams[k+1][j] = c.Gm[6*k+j]
				}
			}
			uh.LoopFilterLevel, uh.LoopFilterSharpness, uh.SegmentationEnabled, uh.SegmentationUpdateMap = c.Level, c.Sharp, c.SegOn == 1, c.UpdMap
			for k := range c.FOn {
				for f := range c.FOn[k] {
					s.FeatureEnabled[k][f+1], s.FeatureData[k][f+1] = c.FOn[k][f], c.FData[k][f]
				}
			}
			uh.LoopFilterDeltaEnabled, uh.LoopFilterRefDeltas, uh.LoopFilterModeDeltas = c.DeltaOn == 1, c.RefD, c.ModeD
			uh.CdefDampening = c.Damping
			for k := range c.YPri {
				uh.CdefYPriStrength = append(uh.CdefYPriStrength, c.YPri[k])
				uh.CdefYSecStrength = append(uh.CdefYSecStrength, c.YSec[k])
				uh.CdefUVPriStrength = append(uh.CdefUVPriStrength, c.UvPri[k])
				uh.CdefUVSecStrength = append(uh.CdefUVSecStrength, c.UvSec[k])
			}
			s.Cdef.CdefIdx, s.PrevSegmentIds = nil, c.Prev
			s.BlockMaps = s.NewBlockMaps(c.UpW)
			for y := 0; y < c.MiRows; y++ {
				row := make([]int, c.MiCols)
				for x := range row {
					row[x] = c.CdefIdx[0][0]
					s.MfRefFrames[y][x], s.MfMvs[y][x] = c.Mf[y][x][0], [2]int{c.Mf[y][x][1], c.Mf[y][x][2]}
				}
				s.Cdef.CdefIdx = append(s.Cdef.CdefIdx, row)
			}
			uh.FrameRestorationType, uh.UsesLr = c.Types, c.Types != [3]int{}
			s.FrameRestorationType, s.LoopRestorationSize = append([]int{}, c.Types[:]...), c.Unit
			s.SkipCdf = [][]int{{c.Tag, 32768, 0}}
			s.CurrFrame = state.NewFrame(c.MiRows*4+24, c.MiCols*4+24)
			for p := range c.Px {
				for y := range c.Px[p] {
					copy(s.CurrFrame[p][y], c.Px[p][y])
				}
			}
		}
		if c.Show == 3 {
			seg, px, mf := [][]int{}, [][][]int{}, [][][]int{}
			s.SkipCdf, s.MiCols, s.MiRows = [][]int{{0, 32768, 0}}, 0, 0
			s.FeatureEnabled, s.FeatureData = [8][8]int{}, [8][8]int{}
			st, msg := TryHere(func() { tilegroup.XLoad(s, &uh, &sh, &seg) })
			m := []int{uh.CurrentFrameId, uh.UpscaledWidth, uh.FrameWidth, uh.FrameHeight, uh.RenderWidth, uh.RenderHeight, s.MiCols, s.MiRows, sh.ColorConfig.BitDepth, uh.OrderHint}
			m = append(m, uh.OrderHints[1:8]...)
			for j := 1; j < 8; j++ {
				m = append(m, uh.GmParams[j][:]...)
			}
			for p := 0; p < 3-2*d.Mono && len(s.LrFrame[0]) >= uh.FrameHeight; p++ {
				px = append(px, crop(s.LrFrame[p], half(uh.UpscaledWidth, p, d.SubX), half(uh.FrameHeight, p, d.SubY)))
			}
			for y := 0; y < s.MiRows; y++ {
				row := [][]int{}
				for x := 0; x < s.MiCols; x++ {
					row = append(row, []int{s.MfRefFrames[y][x], s.MfMvs[y][x][0], s.MfMvs[y][x][1]})
				}
				mf = append(mf, row)
			}
			on, data := [8][4]int{}, [8][4]int{}
			for k := range on {
				copy(on[k][:], s.FeatureEnabled[k][1:5])
				copy(data[k][:], s.FeatureData[k][1:5])
			}
			steps = append(steps, map[string]any{"st": st, "msg": msg, "Out": px, "Meta": m, "Seg": seg, "Mf": mf, "Tag": s.SkipCdf[0][0], "Metas": metas(s),
				"RefD": uh.LoopFilterRefDeltas, "ModeD": uh.LoopFilterModeDeltas, "FOn": on, "FData": data})
			continue
		}
		var out [3][][]int
		st, msg := TryHere(func() { out = tilegroup.XFinish(c.Own, c.Blk, c.Units, d.SubX, d.SubY, s, uh, sh) })
		o := [][][]int{}
		if st == "ok" && c.Show != 0 {
			w, h := c.UpW, c.H
			if c.Show == 2 {
				w, h = s.RefUpscaledWidth[c.Idx], s.RefFrameHeight[c.Idx]
			}
			for p := 0; p < 3-2*d.Mono; p++ {
				if w == 0 || h == 0 {
					break
				}
				o = append(o, crop(out[p], half(w, p, d.SubX), half(h, p, d.SubY)))
			}
		} else if len(out[0]) > 0 {
			o = append(o, out[0])
		}
		steps = append(steps, map[string]any{"st": st, "msg": msg, "Out": o, "Metas": metas(s)})
		// what follows reuses all of this
		for p := range s.CurrFrame {
			for y := range s.CurrFrame[p] {
				for x := range s.CurrFrame[p][y] {
					s.CurrFrame[p][y][x] = 1
				}
			}
		}
	}
	slots := []map[string]any{}
	for k := 0; k < 8; k++ {
		if s.RefValid[k] != 1 {
			slots = append(slots, map[string]any{"Tag": -1, "Px": 0, "Seg": 0, "Mf": 0})
			continue
		}
		px, seg, mf := [][][]int{}, [][]int{}, [][][]int{}
		for p := 0; p < 3-2*last.Mono; p++ {
			px = append(px, crop(s.FrameStore[k][p], half(s.RefUpscaledWidth[k], p, last.SubX), half(s.RefFrameHeight[k], p, last.SubY)))
		}
		for y := 0; y < s.RefMiRows[k]; y++ {
			seg = append(seg, append([]int{}, s.SavedSegmentIds[k][y][:s.RefMiCols[k]]...))
			row := [][]int{}
			for x := 0; x < s.RefMiCols[k]; x++ {
				row = append(row, []int{s.SavedRefFrames[k][y][x], s.SavedMvs[k][y][x][0], s.SavedMvs[k][y][x][1]})
			}
			mf = append(mf, row)
		}
		uncompressedheader.LoadCdfs(k, s)
		slots = append(slots, map[string]any{"Tag": s.SkipCdf[0][0], "Px": px, "Seg": seg, "Mf": mf})
	}
	return map[string]any{"Steps": steps, "Slots": slots}
}

func main() { Main(gen, run) }
