// Whole intra streams: a sequence header, then frames whose headers and tiles
// the real parser decodes from bits to pictures. Nothing is stood in for.
package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
	"go.uber.org/zap"
)

type tile struct {
	Data           []int
	R0, R1, C0, C1 int
}

// again: the frame Of (from 1) is shown again from Slot
type again struct {
	Slot, Of int
}

type frame struct {
	Again                                  []again // after this frame
	Type, Show, Flags, ErrRes              int     // Type: 0 key, 2 intra only
	Override, W, UpW, H, Rows, Cols        int
	Sr, SrDenom                            int
	ColsLog2, TileCols, RowsLog2, TileRows int
	Tiles                                  []tile
	Uniform, CtxTile, SizeBytes            int
	Widths, Heights                        []int    // of the tiles, in superblocks
	Groups                                 [][2]int // first and last tile of every tile group
	Split, NoAdapt, EndOff                 int
	BaseQ, YDc, UDc, UAc, VDc, VAc         int
	Qm, QmY, QmU, QmV                      int
	QmLevel                                [3][8]int
	Seg, Pre, LastSeg                      int
	Feat, Val                              [8][8]int
	FData                                  [8]int // data of the quantizer feature
	Lossless                               [8]int
	CodedLossless                          int
	Dq, DqRes, Dlf, DlfRes, DlfMulti       int
	Level                                  [4]int
	Sharp, DeltaOn, DeltaUpd               int
	RefD                                   [8]int
	ModeD                                  [2]int
	Damping, CdefBits                      int
	YPri, YSec, UvPri, UvSec               [8]int
	Lr, LrSize                             [3]int
	Sct, TxMode, Reduced, Bc               int
	Tail                                   int // unused bytes after the header OBU
}

type in struct {
	Still, Sb128, Fi, Edge, Mono, SubX, SubY, Depth int
	Profile, EnableSr, EnableCdef, EnableLr, SepUv  int
	MaxW, MaxH, SctMode, OhBits                     int
	Frames                                          []frame
	Own                                             [8]int // which frame each slot holds in the end, from 1

	tiles, square bool // when coding: many tiles; only what blocks see of tiles
}

func even(v int) int { return 2 * ((v + 7) >> 3) }

func log2(v int) int {
	k := 0
	for 1<<uint(k) < v {
		k++
	}
	return k
}

func sum(l []int) int {
	n := 0
	for _, v := range l {
		n += v
	}
	return n
}

// evenly: the tiles of n superblocks cut into at most 1 << k equal ones
func evenly(n, k int) []int {
	o, step := []int{}, (n+1<<uint(k)-1)>>uint(k)
	for at := 0; at < n; at += step {
		o = append(o, least(step, n-at))
	}
	return o
}

// pieces: n superblocks cut at random
func pieces(r *Rng, n int) []int {
	o := []int{}
	for n > 0 {
		v := r.Pick(1, 1, r.Range(1, n))
		o = append(o, v)
		n -= v
	}
	return o
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (c *in) frame(r *Rng, first bool) frame {
	f := frame{Type: r.Pick(0, 0, 2), Show: r.Pick(1, 1, 0), Flags: 255, SrDenom: 8}
	if first || c.Still == 1 {
		f.Type = 0
	}
	if c.Still == 1 {
		f.Show = 1
	}
	if f.Type == 2 || f.Show == 0 {
		f.Flags = r.Pick(r.Range(1, 254), 1<<uint(r.Intn(8)))
		if f.Type == 0 {
			f.Flags = r.Range(1, 255)
		}
		f.ErrRes = r.Intn(2)
	} else {
		f.ErrRes = 1
	}
	f.UpW, f.H = c.MaxW, c.MaxH
	if c.Still == 0 && r.Chance(1, 3) && !c.square {
		f.Override, f.UpW, f.H = 1, r.Range((c.MaxW+1)/2, c.MaxW), r.Range((c.MaxH+1)/2, c.MaxH)
	}
	f.W = f.UpW
	if c.EnableSr == 1 && f.UpW >= 18 && r.Chance(2, 3) {
		f.Sr, f.SrDenom = 1, r.Range(9, 16)
		f.W = (f.UpW*8 + f.SrDenom/2) / f.SrDenom
		if f.W < 16 { // the least the format allows
			f.Sr, f.SrDenom, f.W = 0, 8, f.UpW
		}
	}
	f.Rows, f.Cols = even(f.H), even(f.W)
	f.Sct, f.NoAdapt = r.Intn(2), r.Pick(0, 0, 0, 1)
	if c.SctMode < 2 {
		f.Sct = c.SctMode
	}
	if f.Sct == 1 && f.W == f.UpW && !c.tiles && r.Chance(1, 3) {
		f.Bc = 1 // allowed; no filter in such a frame
	}
	f.EndOff = 1
	if f.NoAdapt == 0 && c.Still == 0 {
		f.EndOff = r.Intn(2)
	}
	// tiles, evenly spaced
	n := 16 << uint(c.Sb128)
	nc, nr := (f.Cols+n-1)/n, (f.Rows+n-1)/n
	f.Uniform = r.Pick(0, 1)
	if c.tiles {
		f.Uniform = 1
	}
	if f.Uniform == 1 {
		cl, rl := r.Pick(log2(nc), r.Range(0, log2(nc))), r.Pick(log2(nr), r.Range(0, log2(nr)))
		if c.tiles {
			cl, rl = log2(nc), log2(nr)
			if c.square && r.Chance(1, 2) {
				rl = 0
			}
		}
		f.Widths, f.Heights = evenly(nc, cl), evenly(nr, rl)
		f.ColsLog2, f.RowsLog2 = cl, rl
	} else {
		f.Widths, f.Heights = pieces(r, nc), pieces(r, nr)
		f.ColsLog2, f.RowsLog2 = log2(len(f.Widths)), log2(len(f.Heights))
	}
	f.TileCols, f.TileRows = len(f.Widths), len(f.Heights)
	nt := f.TileCols * f.TileRows
	f.CtxTile, f.SizeBytes = r.Intn(nt), r.Pick(2, 2, 3, 4)
	for t := 0; t < nt; {
		e := nt - 1
		if r.Chance(2, 3) {
			e = r.Pick(t, r.Range(t, nt-1))
		}
		f.Groups = append(f.Groups, [2]int{t, e})
		t = e + 1
	}
	// quantizer
	f.BaseQ = r.Pick(0, 1, 12, 20, 21, 40, 60, 61, 120, 121, 255, r.Range(0, 255), r.Range(2, 80), r.Range(2, 80))
	if c.tiles {
		f.BaseQ = r.Range(30, 200)
	}
	if r.Chance(1, 2) {
		f.YDc, f.UDc, f.UAc = r.Pick(0, r.Range(-64, 63)), r.Pick(0, r.Range(-64, 63)), r.Pick(0, r.Range(-64, 63))
		f.VDc, f.VAc = f.UDc, f.UAc
		if c.Mono == 1 {
			f.UDc, f.UAc, f.VDc, f.VAc = 0, 0, 0, 0
		} else if c.SepUv == 1 && r.Chance(1, 2) {
			f.VDc, f.VAc = r.Pick(0, r.Range(-64, 63)), r.Pick(0, r.Range(-64, 63))
		}
	}
	f.Qm = r.Pick(0, 0, 1)
	f.QmY, f.QmU = r.Intn(16), r.Intn(16)
	f.QmV = f.QmU
	if c.SepUv == 1 && c.Mono == 0 {
		f.QmV = r.Intn(16)
	}
	if f.Qm == 0 {
		f.QmY, f.QmU, f.QmV = 15, 15, 15
	}
	if r.Chance(1, 3) {
		f.Seg = 1
		most := []int{255, 63, 63, 63, 63, 7, 0, 0}
		last := r.Intn(8)
		for s := 0; s <= last; s++ {
			for k := 0; k < 5; k++ {
				if r.Chance(1, 3) {
					f.Feat[s][k], f.Val[s][k] = 1, r.Pick(r.Range(-most[k], most[k]), r.Range(-10, 10))
				}
			}
			if f.Feat[s][0] == 1 && r.Chance(1, 4) {
				f.Val[s][0] = -f.BaseQ
			}
			if r.Chance(1, 8) {
				f.Feat[s][5], f.Val[s][5] = 1, r.Intn(8)
			}
			if r.Chance(1, 8) {
				f.Feat[s][r.Pick(6, 7)] = 1
			}
		}
		for s := range f.Feat {
			f.FData[s] = f.Val[s][0]
			for k, v := range f.Feat[s] {
				if v == 1 {
					f.LastSeg = s
					if k >= 5 {
						f.Pre = 1
					}
				}
			}
		}
	}
	f.CodedLossless = 1
	for s := 0; s < 8; s++ {
		q := f.BaseQ
		if f.Feat[s][0] == 1 {
			q += f.FData[s]
		}
		if q <= 0 && f.YDc == 0 && f.UDc == 0 && f.UAc == 0 && f.VDc == 0 && f.VAc == 0 {
			f.Lossless[s] = 1
		} else {
			f.CodedLossless = 0
		}
		f.QmLevel[0][s], f.QmLevel[1][s], f.QmLevel[2][s] = f.QmY, f.QmU, f.QmV
		if f.Lossless[s] == 1 {
			f.QmLevel[0][s], f.QmLevel[1][s], f.QmLevel[2][s] = 15, 15, 15
		}
	}
	if (c.tiles || r.Chance(1, 2)) && f.BaseQ > 0 {
		f.Dq, f.DqRes = 1, r.Intn(4)
		if f.Bc == 0 && (c.tiles || r.Chance(2, 3)) {
			f.Dlf, f.DlfRes, f.DlfMulti = 1, r.Intn(4), r.Intn(2)
		}
	}
	f.RefD = [8]int{1, 0, 0, 0, -1, 0, -1, -1}
	f.DeltaOn = 1
	if f.CodedLossless == 0 && f.Bc == 0 {
		f.Level = [4]int{r.Pick(0, 63, r.Intn(64), r.Intn(64)), r.Pick(0, 63, r.Intn(64), r.Intn(64)), r.Intn(64), r.Intn(64)}
		if c.tiles {
			f.Level[0], f.Level[1] = r.Range(10, 63), r.Range(10, 63)
		}
		if c.Mono == 1 || f.Level[0] == 0 && f.Level[1] == 0 {
			f.Level[2], f.Level[3] = 0, 0
		}
		f.Sharp, f.DeltaOn = r.Pick(0, r.Intn(8)), r.Intn(2)
		if f.DeltaOn == 1 && r.Chance(1, 2) {
			f.DeltaUpd = 1
			for k := range f.RefD {
				if r.Chance(1, 2) {
					f.RefD[k] = r.Range(-64, 63)
				}
			}
			f.ModeD = [2]int{r.Range(-64, 63), 0}
		}
	}
	f.Damping = 3
	if f.CodedLossless == 0 && f.Bc == 0 && c.EnableCdef == 1 {
		f.Damping, f.CdefBits = r.Range(3, 6), r.Intn(4)
		for k := 0; k < 1<<uint(f.CdefBits); k++ {
			f.YPri[k], f.YSec[k] = r.Intn(16), r.Pick(0, 1, 2, 4)
			if c.Mono == 0 {
				f.UvPri[k], f.UvSec[k] = r.Intn(16), r.Pick(0, 1, 2, 4)
			}
		}
	}
	f.LrSize = [3]int{64, 64, 64}
	if !(f.CodedLossless == 1 && f.W == f.UpW) && f.Bc == 0 && c.EnableLr == 1 {
		for p := 0; p < 3-2*c.Mono; p++ {
			f.Lr[p] = r.Intn(4)
		}
		if f.Lr != [3]int{} {
			f.LrSize[0] = r.Pick(64, 64, 128, 256)
			if c.Sb128 == 1 {
				f.LrSize[0] = r.Pick(128, 256)
			}
			uv := f.LrSize[0]
			if c.SubX == 1 && c.SubY == 1 && (f.Lr[1] > 0 || f.Lr[2] > 0) && r.Chance(1, 2) {
				uv /= 2
			}
			f.LrSize[1], f.LrSize[2] = uv, uv
		}
	}
	f.TxMode = r.Pick(1, 2, 2)
	if f.CodedLossless == 1 {
		f.TxMode = 0
	}
	f.Reduced, f.Split, f.Tail = r.Pick(0, 0, 1), r.Intn(2), r.Pick(0, 0, 0, r.Intn(3))
	for y, h := range f.Heights {
		for x, w := range f.Widths {
			t := tile{R0: sum(f.Heights[:y]) * n, C0: sum(f.Widths[:x]) * n}
			t.R1, t.C1 = least(t.R0+h*n, f.Rows), least(t.C0+w*n, f.Cols)
			f.Tiles = append(f.Tiles, t)
		}
	}
	return f
}

// variety counts what a stream's blocks show between them; 0 if it cannot be decoded.
func variety(c in) int {
	seen := map[[3]int]bool{}
	lastQ := 0
	flag := func(k, a, b int) { seen[[3]int{k, a, b}] = true }
	b := bitstream.NewBitStream(Bytes(c.stream()))
	p := parser.NewParser(&b)
	logger.Logger = zap.NewNop()
	tilegroup.HookResidual = func(t *tilegroup.TileGroup, _ *bitstream.BitStream, s *state.State, _ sequenceheader.SequenceHeader, _ uncompressedheader.UncompressedHeader) bool {
		flag(0, s.MiSize, 0)
		flag(1, t.YMode, t.AngleDeltaY)
		flag(2, t.TxSize, t.Skip)
		flag(3, s.MiRow, s.MiCol)
		flag(4, t.PaletteSizeY, 0)
		flag(5, t.SegmentId, 0)
		flag(9, s.CurrentQIndex, 0)
		flag(10, s.DeltaLF[0], s.TileNum)
		often := func(k, n int) {
			for j := 0; j < n; j++ {
				flag(k, j, 0)
			}
		}
		// rare ones: a palette between palettes, a large step of the quantizer
		if r, c := s.MiRow, s.MiCol; t.PaletteSizeY > 0 && s.AvailU && s.AvailL && r%16 > 0 && t.PaletteSizes[0][r-1][c] > 0 && t.PaletteSizes[0][r][c-1] > 0 {
			often(12, 20)
		}
		if d := s.CurrentQIndex - lastQ; lastQ > 0 && (d > 24 || d < -24) {
			often(13, 20)
		}
		lastQ = s.CurrentQIndex
		// a block that looks for samples of the next tile, or of the superblock below
		if end := s.MiCol + shared.NUM_4X4_BLOCKS_WIDE[s.MiSize]; end == s.MiColEnd && end < s.MiCols && s.MiRow > 0 && s.MiRow%16 == 0 && (t.YMode == 3 || t.YMode == 8) {
			often(11, 40)
		}
		if t.HasChroma {
			flag(6, t.UVMode, 0)
			flag(7, t.PaletteSizeUV, 0)
		}
		if t.UseFilterIntra {
			flag(8, t.FilterIntraMode, 0)
		}
		return false
	}
	st, _ := Try(func() { p.VRun() })
	tilegroup.HookResidual = nil
	if st != "ok" {
		return 0
	}
	return len(seen)
}

// gen keeps the most varied of a few streams with the same headers
func gen(r *Rng, i int) in {
	c := headers(r, i)
	most := -1
	tries := r.Pick(1, 6, 20)
	if c.square {
		tries = 40
	}
	for k := tries; k > 0; k-- {
		d := c
		d.Frames = append([]frame{}, c.Frames...)
		for j := range d.Frames {
			f := &d.Frames[j]
			f.Tiles = append([]tile{}, f.Tiles...)
			dense := r.Pick(3, 5, 7, 8, 8, 8, 8, 10, 13)
			for q := range f.Tiles {
				t := &f.Tiles[q]
				t.Data = r.Bytes((t.R1-t.R0)*(t.C1-t.C0)*r.Pick(32, 64)+100, dense)
			}
		}
		if v := variety(d); v > most {
			most, c = v, d
		}
	}
	return c
}

func headers(r *Rng, i int) in {
	c := in{Still: r.Pick(0, 0, 0, 1), Sb128: r.Intn(2), Fi: r.Intn(2), Edge: r.Pick(0, 1, 1), EnableSr: r.Pick(0, 0, 1), EnableCdef: r.Pick(0, 1, 1),
		EnableLr: r.Intn(2), SctMode: r.Pick(0, 1, 2, 2), Depth: r.Pick(8, 8, 10, 12)}
	if c.Still == 0 && r.Chance(1, 2) {
		c.OhBits = r.Range(1, 8)
	}
	switch r.Intn(8) {
	case 0:
		c.Mono, c.SubX, c.SubY = 1, 1, 1
	case 1:
		c.SubX = 1
	case 2, 3:
	default:
		c.SubX, c.SubY = 1, 1
	}
	switch {
	case c.Depth == 12 || c.SubX == 1 && c.SubY == 0:
		c.Profile = 2
	case c.SubX == 0:
		c.Profile = 1
	case c.Mono == 1 && r.Chance(1, 4):
		c.Profile = 2
	}
	if c.Mono == 0 {
		c.SepUv = r.Intn(2)
	}
	c.MaxW, c.MaxH = r.Range(8, 34), r.Range(8, 34)
	switch i % 8 {
	case 0:
		c.MaxW, c.MaxH = r.Range(65, 72), r.Range(8, 20)
	case 1:
		c.MaxW, c.MaxH = r.Range(8, 20), r.Range(65, 72)
	case 2:
		c.MaxW, c.MaxH = r.Range(1, 9), r.Range(1, 9)
	}
	switch i % 24 { // two superblocks of 128
	case 7:
		c.Sb128, c.MaxW, c.MaxH = 1, r.Range(129, 136), r.Range(4, 12)
	case 15:
		c.Sb128, c.MaxW, c.MaxH = 1, r.Range(4, 12), r.Range(129, 136)
	}
	switch i % 24 { // more than 256 samples
	case 19:
		c.MaxW, c.MaxH = r.Range(257, 300), r.Range(2, 6)
	case 22:
		c.MaxW, c.MaxH = r.Range(2, 6), r.Range(257, 300)
		c.EnableSr = 0
	}
	switch i % 24 { // tiles that must not see one another
	case 3, 10:
		c.tiles, c.square, c.Sb128, c.EnableCdef, c.EnableLr, c.EnableSr = true, true, 0, 0, 0, 0
		c.MaxW, c.MaxH = r.Range(66, 76), r.Range(66, 76)
		if r.Chance(3, 4) {
			c.Mono, c.SubX, c.SubY, c.SepUv, c.Depth, c.Profile = 1, 1, 1, 0, r.Pick(8, 10), 0
		}
	case 13:
		c.tiles, c.Sb128, c.MaxW, c.MaxH = true, 0, r.Range(129, 140), r.Range(4, 12)
	case 21:
		c.tiles, c.Sb128, c.MaxW, c.MaxH = true, 0, r.Range(4, 12), r.Range(129, 140)
	case 16, 17:
		c.tiles = true
	}
	if c.EnableSr == 1 && c.MaxW < 18 {
		c.MaxW += 16
	}
	n := r.Range(1, 3)
	if c.MaxW > 200 || c.MaxH > 200 {
		n = least(n, 2)
	}
	if c.Still == 1 || c.square {
		n = 1
	}
	for k := 0; k < n; k++ {
		c.Frames = append(c.Frames, c.frame(r, k == 0))
		for s := range c.Own {
			if c.Frames[k].Flags>>uint(s)&1 == 1 {
				c.Own[s] = k + 1
			}
		}
		for c.Still == 0 && r.Chance(1, 2) {
			s := 0
			for j := 0; j < 30; j++ { // one that may be shown
				s = r.Intn(8)
				if of := c.Own[s]; of > 0 && (c.Frames[of-1].Show == 0 || c.Frames[of-1].Type == 2) {
					break
				}
			}
			if of := c.Own[s]; of > 0 && (c.Frames[of-1].Show == 0 || c.Frames[of-1].Type == 2) {
				c.Frames[k].Again = append(c.Frames[k].Again, again{s, of})
				if c.Frames[of-1].Type == 0 { // a key frame is all that is left
					for j := range c.Own {
						c.Own[j] = of
					}
				}
			}
		}
	}
	return c
}

// ------------------------------------------------------------- coding

func bitsFor(n int) int {
	k := 1
	for 1<<uint(k) <= n {
		k++
	}
	return k
}

func su(w *W, v, n int) { w.Put(v&(1<<uint(n)-1), n) }

func ns(w *W, v, n int) {
	k := 0
	for n>>uint(k) > 0 {
		k++
	}
	if m := 1<<uint(k) - n; v < m {
		w.Put(v, k-1)
	} else {
		w.Put((v+m)>>1, k-1)
		w.Put((v+m)&1, 1)
	}
}

func delta(w *W, v int) {
	if v == 0 {
		w.Put(0, 1)
		return
	}
	w.Put(1, 1)
	su(w, v, 7)
}

func (c in) sequence() *W {
	w := &W{}
	w.Put(c.Profile, 3)
	w.Put(c.Still, 1)
	w.Put(c.Still, 1)
	if c.Still == 1 {
		w.Put(4, 5)
	} else {
		w.Put(0, 1)
		w.Put(0, 1)
		w.Put(0, 5)
		w.Put(0, 12)
		w.Put(4, 5)
	}
	wb, hb := bitsFor(c.MaxW-1), bitsFor(c.MaxH-1)
	w.Put(wb-1, 4)
	w.Put(hb-1, 4)
	w.Put(c.MaxW-1, wb)
	w.Put(c.MaxH-1, hb)
	if c.Still == 0 {
		w.Put(0, 1)
	}
	w.Put(c.Sb128, 1)
	w.Put(c.Fi, 1)
	w.Put(c.Edge, 1)
	if c.Still == 0 {
		w.Put(0, 4)
		if c.OhBits > 0 {
			w.Put(1, 1)
			w.Put(0, 2)
		} else {
			w.Put(0, 1)
		}
		if c.SctMode == 2 {
			w.Put(1, 1)
		} else {
			w.Put(0, 1)
			w.Put(c.SctMode, 1)
		}
		if c.SctMode > 0 {
			w.Put(1, 1)
		}
		if c.OhBits > 0 {
			w.Put(c.OhBits-1, 3)
		}
	}
	w.Put(c.EnableSr, 1)
	w.Put(c.EnableCdef, 1)
	w.Put(c.EnableLr, 1)
	// color_config
	w.Put(min1(c.Depth-8), 1)
	if c.Profile == 2 && c.Depth > 8 {
		w.Put(min1(c.Depth-10), 1)
	}
	if c.Profile != 1 {
		w.Put(c.Mono, 1)
	}
	w.Put(0, 1)
	w.Put(0, 1)
	if c.Mono == 0 {
		if c.Profile == 2 && c.Depth == 12 {
			w.Put(c.SubX, 1)
			if c.SubX == 1 {
				w.Put(c.SubY, 1)
			}
		}
		if c.SubX == 1 && c.SubY == 1 {
			w.Put(0, 2)
		}
		w.Put(c.SepUv, 1)
	}
	w.Put(0, 1)
	return w
}

func min1(v int) int { return least(v, 1) }

func (c in) header(f frame) *W {
	w := &W{}
	if c.Still == 0 {
		w.Put(0, 1)
		w.Put(f.Type, 2)
		w.Put(f.Show, 1)
		if f.Show == 0 {
			w.Put(1, 1)
		}
		if !(f.Type == 0 && f.Show == 1) {
			w.Put(f.ErrRes, 1)
		}
	}
	w.Put(f.NoAdapt, 1)
	if c.SctMode == 2 || c.Still == 1 {
		w.Put(f.Sct, 1)
	}
	if f.Sct == 1 {
		w.Put(1, 1) // integer vectors, not used by intra frames
	}
	if c.Still == 0 {
		w.Put(f.Override, 1)
		w.Put(1, c.OhBits)
		if !(f.Type == 0 && f.Show == 1) {
			w.Put(f.Flags, 8)
		}
		if f.Flags != 255 && f.ErrRes == 1 && c.OhBits > 0 {
			for i := 0; i < 8; i++ {
				w.Put(1, c.OhBits)
			}
		}
	}
	if f.Override == 1 {
		w.Put(f.UpW-1, bitsFor(c.MaxW-1))
		w.Put(f.H-1, bitsFor(c.MaxH-1))
	}
	if c.EnableSr == 1 {
		w.Put(f.Sr, 1)
		if f.Sr == 1 {
			w.Put(f.SrDenom-9, 3)
		}
	}
	w.Put(0, 1)
	if f.Sct == 1 && f.W == f.UpW {
		w.Put(f.Bc, 1)
	}
	if c.Still == 0 && f.NoAdapt == 0 {
		w.Put(f.EndOff, 1)
	}
	// tile_info
	w.Put(f.Uniform, 1)
	for k, l := range [][]int{f.Widths, f.Heights} {
		units := sum(l)
		if f.Uniform == 0 {
			for _, v := range l {
				ns(w, v-1, units)
				units -= v
			}
			continue
		}
		v := []int{f.ColsLog2, f.RowsLog2}[k]
		for j := 0; j < v; j++ {
			w.Put(1, 1)
		}
		if v < log2(units) {
			w.Put(0, 1)
		}
	}
	if f.ColsLog2+f.RowsLog2 > 0 {
		w.Put(f.CtxTile, f.ColsLog2+f.RowsLog2)
		w.Put(f.SizeBytes-1, 2)
	}
	// quantizer
	w.Put(f.BaseQ, 8)
	delta(w, f.YDc)
	if c.Mono == 0 {
		diff := 0
		if c.SepUv == 1 {
			if f.VDc != f.UDc || f.VAc != f.UAc {
				diff = 1
			}
			w.Put(diff, 1)
		}
		delta(w, f.UDc)
		delta(w, f.UAc)
		if diff == 1 {
			delta(w, f.VDc)
			delta(w, f.VAc)
		}
	}
	w.Put(f.Qm, 1)
	if f.Qm == 1 {
		w.Put(f.QmY, 4)
		w.Put(f.QmU, 4)
		if c.SepUv == 1 {
			w.Put(f.QmV, 4)
		}
	}
	w.Put(f.Seg, 1)
	if f.Seg == 1 {
		size := []int{8, 6, 6, 6, 6, 3, 0, 0}
		for s := range f.Feat {
			for k, v := range f.Feat[s] {
				w.Put(v, 1)
				if v == 1 && k < 5 {
					su(w, f.Val[s][k], size[k]+1)
				} else if v == 1 {
					w.Put(f.Val[s][k], size[k])
				}
			}
		}
	}
	if f.BaseQ > 0 {
		w.Put(f.Dq, 1)
		if f.Dq == 1 {
			w.Put(f.DqRes, 2)
			if f.Bc == 0 {
				w.Put(f.Dlf, 1)
			}
			if f.Dlf == 1 {
				w.Put(f.DlfRes, 2)
				w.Put(f.DlfMulti, 1)
			}
		}
	}
	if f.CodedLossless == 0 && f.Bc == 0 {
		w.Put(f.Level[0], 6)
		w.Put(f.Level[1], 6)
		if c.Mono == 0 && f.Level[0]+f.Level[1] > 0 {
			w.Put(f.Level[2], 6)
			w.Put(f.Level[3], 6)
		}
		w.Put(f.Sharp, 3)
		w.Put(f.DeltaOn, 1)
		if f.DeltaOn == 1 {
			w.Put(f.DeltaUpd, 1)
			if f.DeltaUpd == 1 {
				for k, v := range f.RefD {
					if v == []int{1, 0, 0, 0, -1, 0, -1, -1}[k] {
						w.Put(0, 1)
					} else {
						w.Put(1, 1)
						su(w, v, 7)
					}
				}
				for _, v := range f.ModeD {
					delta(w, v)
				}
			}
		}
		if c.EnableCdef == 1 {
			w.Put(f.Damping-3, 2)
			w.Put(f.CdefBits, 2)
			for k := 0; k < 1<<uint(f.CdefBits); k++ {
				w.Put(f.YPri[k], 4)
				w.Put(least(f.YSec[k], 3), 2)
				if c.Mono == 0 {
					w.Put(f.UvPri[k], 4)
					w.Put(least(f.UvSec[k], 3), 2)
				}
			}
		}
	}
	if !(f.CodedLossless == 1 && f.W == f.UpW) && f.Bc == 0 && c.EnableLr == 1 {
		for p := 0; p < 3-2*c.Mono; p++ {
			w.Put([]int{0, 2, 3, 1}[f.Lr[p]], 2)
		}
		if f.Lr != [3]int{} {
			sz := f.LrSize[0] / 64 // 1, 2, 4
			w.Put(min1((sz-1)>>uint(c.Sb128)), 1)
			if c.Sb128 == 0 && sz > 1 {
				w.Put((sz-1)>>1, 1)
			}
			if c.SubX == 1 && c.SubY == 1 && (f.Lr[1] > 0 || f.Lr[2] > 0) {
				w.Put(min1(f.LrSize[0]-f.LrSize[1]), 1)
			}
		}
	}
	if f.CodedLossless == 0 {
		w.Put(f.TxMode-1, 1)
	}
	w.Put(f.Reduced, 1)
	return w
}

func leb(v int) []int {
	out := []int{}
	for ; v > 127; v >>= 7 {
		out = append(out, v&127|128)
	}
	return append(out, v)
}

func obu(ty int, payload []int) []int {
	o := append([]int{ty<<3 | 2}, leb(len(payload))...)
	o = append(o, payload...)
	return append(leb(len(o)), o...)
}

func closed(w *W) []int {
	w.Put(1, 1)
	return w.Bytes()
}

// group codes the tiles from a to b
func (f frame) group(a, b int) *W {
	g := &W{}
	if len(f.Tiles) > 1 {
		if a > 0 || b < len(f.Tiles)-1 {
			g.Put(1, 1)
			g.Put(a, f.ColsLog2+f.RowsLog2)
			g.Put(b, f.ColsLog2+f.RowsLog2)
		} else {
			g.Put(0, 1)
		}
		for len(g.Bits)%8 != 0 {
			g.Put(0, 1)
		}
	}
	for i := a; i <= b; i++ {
		t := f.Tiles[i]
		if i < b {
			for k := 0; k < f.SizeBytes; k++ {
				g.Put((len(t.Data)-1)>>uint(8*k)&255, 8)
			}
		}
		for _, v := range t.Data {
			g.Put(v, 8)
		}
	}
	return g
}

func (c in) stream() []int {
	data := []int{}
	for k, f := range c.Frames {
		unit := []int{}
		if k == 0 || f.Show == 1 {
			unit = append(unit, obu(2, nil)...)
		}
		if k == 0 {
			unit = append(unit, obu(1, closed(c.sequence()))...)
		}
		h := c.header(f)
		if f.Split == 1 {
			p := closed(h)
			for i := 0; i < f.Tail; i++ {
				p = append(p, 0)
			}
			unit = append(unit, obu(3, p)...)
		}
		for j, q := range f.Groups {
			g := f.group(q[0], q[1])
			if f.Split == 1 || j > 0 {
				unit = append(unit, obu(4, g.Bytes())...)
				continue
			}
			for len(h.Bits)%8 != 0 {
				h.Put(0, 1)
			}
			h.Bits = append(h.Bits, g.Bits...)
			unit = append(unit, obu(6, h.Bytes())...)
		}
		unit = append(leb(len(unit)), unit...)
		data = append(append(data, leb(len(unit))...), unit...)
		for _, a := range f.Again {
			w := &W{}
			w.Put(1, 1)
			w.Put(a.Slot, 3)
			unit := append(obu(2, nil), obu(3, closed(w))...)
			unit = append(leb(len(unit)), unit...)
			data = append(append(data, leb(len(unit))...), unit...)
		}
	}
	return data
}

// ------------------------------------------------------------- execution

func crop(m [][]int, w, h int) [][]int {
	o := [][]int{}
	for y := 0; y < h; y++ {
		o = append(o, append([]int{}, m[y][:w]...))
	}
	return o
}

func half(v, p, s int) int {
	if p == 0 {
		return v
	}
	return (v + s) >> uint(s)
}

// cropped: the visible part of a picture of frame f; nothing if it is not that large
func (c in) cropped(f frame, p [][][]int) [][][]int {
	pic := [][][]int{}
	for q, m := range p[:3-2*c.Mono] {
		w, h := half(f.UpW, q, c.SubX), half(f.H, q, c.SubY)
		if len(m) < h || len(m[0]) < w {
			return [][][]int{}
		}
		pic = append(pic, crop(m, w, h))
	}
	return pic
}

func run(c in) map[string]any {
	data := c.stream()
	b := bitstream.NewBitStream(Bytes(data))
	p := parser.NewParser(&b)
	logger.Logger = zap.NewNop()
	st, msg := Try(func() { p.VRun() })
	if st == "hang" {
		return map[string]any{"st": st, "msg": msg, "p": 0, "n": 8 * len(data), "Shown": []int{}, "Slots": []int{}, "Again": []int{}, "Early": 0}
	}
	shown, slots := [][][][]int{}, [][][][]int{}
	k, part, early := 0, 0, 0
	asked := []again{}
	for _, f := range c.Frames {
		asked = append(asked, f.Again...)
	}
	shownAgain := [][][][]int{}
	for _, o := range p.VObus() {
		if o.Header.Type == 3 && len(o.TileGroup.OutY) > 0 {
			if len(shownAgain) < len(asked) {
				f := c.Frames[asked[len(shownAgain)].Of-1]
				shownAgain = append(shownAgain, c.cropped(f, [][][]int{o.TileGroup.OutY, o.TileGroup.OutU, o.TileGroup.OutV}))
			} else {
				early++
			}
		}
		if o.Header.Type != 4 && o.Header.Type != 6 {
			continue
		}
		if k < len(c.Frames) && part < len(c.Frames[k].Groups)-1 { // more tiles to come: no picture yet
			part++
			if o.TileGroup.OutY != nil {
				early++
			}
			continue
		}
		part = 0
		pic := [][][]int{}
		if k < len(c.Frames) && o.TileGroup.OutY != nil {
			f := c.Frames[k]
			pic = c.cropped(f, [][][]int{o.TileGroup.OutY, o.TileGroup.OutU, o.TileGroup.OutV})
		}
		k++
		shown = append(shown, pic)
	}
	s := p.VState()
	for i, o := range c.Own {
		pic := [][][]int{}
		if o > 0 && s.RefValid[i] == 1 && st == "ok" {
			f := c.Frames[o-1]
			pic = c.cropped(f, s.FrameStore[i][:])
		}
		slots = append(slots, pic)
	}
	return map[string]any{"st": st, "msg": msg, "p": b.Position, "n": 8 * len(data), "Shown": shown, "Slots": slots, "Again": shownAgain, "Early": early}
}

func main() { Main(gen, run) }
