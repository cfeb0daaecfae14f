// The loop filter over a small frame of generated blocks.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Depth, SubX, SubY, Mono, W, H, MiRows, MiCols int
	Level                                         [4]int
	Sharp, DeltaOn                                int
	RefD                                          [8]int
	ModeD                                         [2]int
	SegOn                                         int
	FOn, FData                                    [8][4]int // features 1..4
	Multi                                         int
	B, D, P, Q, M                                 int     // samples: B + 3 plane + D (7 own mod 5) + (P y + Q x) mod M + PatX + PatY, clipped
	PatX, PatY                                    [64]int // added by column and by row (modulo 64)
	Own                                           [][]int
	Blk                                           []tilegroup.XBlk
}

var blocks = map[[2]int]int{{4, 4}: 0, {4, 8}: 1, {8, 4}: 2, {8, 8}: 3, {8, 16}: 4, {16, 8}: 5, {16, 16}: 6, {16, 32}: 7, {32, 16}: 8, {32, 32}: 9,
	{32, 64}: 10, {64, 32}: 11, {64, 64}: 12, {4, 16}: 16, {16, 4}: 17, {8, 32}: 18, {32, 8}: 19, {16, 64}: 20, {64, 16}: 21}
var txs = map[[2]int]int{{4, 4}: 0, {8, 8}: 1, {16, 16}: 2, {32, 32}: 3, {64, 64}: 4, {4, 8}: 5, {8, 4}: 6, {8, 16}: 7, {16, 8}: 8, {16, 32}: 9, {32, 16}: 10,
	{32, 64}: 11, {64, 32}: 12, {4, 16}: 13, {16, 4}: 14, {8, 32}: 15, {32, 8}: 16, {16, 64}: 17, {64, 16}: 18}

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func greater(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (c *in) block(r *Rng, x, y, w, h int) {
	if x >= c.MiCols*4 || y >= c.MiRows*4 {
		return
	}
	tw, th := w, h
	for k := r.Pick(0, 0, 0, 1, 1, 2); k > 0; k-- {
		switch {
		case tw > th:
			tw /= 2
		case th > tw:
			th /= 2
		case tw > 4:
			tw, th = tw/2, th/2
		}
	}
	uw, uh := lesser(32, greater(4, w>>uint(c.SubX))), lesser(32, greater(4, h>>uint(c.SubY)))
	b := tilegroup.XBlk{Row: y / 4, Col: x / 4, Size: blocks[[2]int{w, h}], Tx: txs[[2]int{tw, th}], UvTx: txs[[2]int{uw, uh}],
		Skip: r.Intn(2), Seg: r.Intn(8)}
	if r.Chance(1, 2) {
		b.Ref, b.Mode = r.Range(1, 7), 100+r.Intn(12)
	} else {
		b.Mode = r.Intn(13)
	}
	for k := range b.Dlf {
		b.Dlf[k] = r.Range(-20, 20)
		if r.Chance(1, 4) {
			b.Dlf[k] = r.Range(-63, 63)
		}
	}
	for i := y / 4; i < lesser((y+h)/4, c.MiRows); i++ {
		for j := x / 4; j < lesser((x+w)/4, c.MiCols); j++ {
			c.Own[i][j] = len(c.Blk)
		}
	}
	c.Blk = append(c.Blk, b)
}

func (c *in) split(r *Rng, x, y, n int) {
	if x >= c.MiCols*4 || y >= c.MiRows*4 {
		return
	}
	tall := !(c.SubX == 1 && c.SubY == 0) // upright blocks have no chroma size in 4:2:2
	k := r.Intn(7)
	if n <= 32 && r.Chance(1, 3) {
		k = 6
	}
	switch {
	case n > 8 && (k < 3 || n == 64 && k < 4), n == 8 && k == 0:
		if n == 8 {
			c.block(r, x, y, 4, 4)
			c.block(r, x+4, y, 4, 4)
			c.block(r, x, y+4, 4, 4)
			c.block(r, x+4, y+4, 4, 4)
			return
		}
		for q := 0; q < 4; q++ {
			c.split(r, x+n/2*(q%2), y+n/2*(q/2), n/2)
		}
	case k == 3 && tall:
		c.block(r, x, y, n/2, n)
		c.block(r, x+n/2, y, n/2, n)
	case k == 4:
		c.block(r, x, y, n, n/2)
		c.block(r, x, y+n/2, n, n/2)
	case k == 5 && n >= 16:
		for q := 0; q < 4; q++ {
			if q%2 == 0 && tall {
				c.block(r, x+n/4*q, y, n/4, n)
				c.block(r, x+n/4*(q+1), y, n/4, n)
			} else if !tall {
				c.block(r, x, y+n/4*q, n, n/4)
			}
		}
	default:
		c.block(r, x, y, n, n)
	}
}

func gen(r *Rng, i int) in {
	c := in{Depth: r.Pick(8, 8, 10, 12), SubX: r.Intn(2), W: r.Range(9, 40), H: r.Range(9, 40), Sharp: r.Intn(8), DeltaOn: r.Intn(2), SegOn: r.Intn(2), Multi: r.Intn(2)}
	if c.SubX == 1 {
		c.SubY = 1 - r.Intn(3)/2
		c.Mono = r.Intn(6) / 5
	}
	if r.Chance(1, 8) {
		c.W, c.H = r.Range(60, 72), r.Range(8, 24)
	} else if r.Chance(1, 8) {
		c.W, c.H = r.Range(8, 24), r.Range(60, 72)
	}
	if r.Chance(1, 2) {
		c.Sharp = 0
	}
	low := r.Chance(1, 5)
	c.MiCols, c.MiRows = 2*((c.W+7)/8), 2*((c.H+7)/8)
	for k := range c.Level {
		c.Level[k] = r.Pick(0, 63, r.Intn(64), r.Range(10, 40), r.Range(20, 63), r.Range(30, 63))
		if low {
			c.Level[k] = r.Range(0, 6)
		}
	}
	for k := range c.RefD {
		c.RefD[k] = r.Range(-20, 20)
	}
	c.ModeD = [2]int{r.Range(-20, 20), r.Range(-20, 20)}
	for k := range c.FOn {
		for f := range c.FOn[k] {
			c.FOn[k][f], c.FData[k][f] = r.Intn(2), r.Range(-63, 63)
		}
	}
	sc := 1 << uint(c.Depth-8)
	c.B, c.D, c.P, c.Q, c.M = r.Intn(256*sc), sc*r.Pick(0, 1, 2, 3, 5, 9, 20), r.Intn(9), r.Intn(9), r.Pick(1, 2, 2, 3, sc, 2*sc, 6*sc)
	if r.Chance(1, 6) {
		c.B = r.Pick(0, 256*sc-1)
	}
	if c.M < 1 {
		c.M = 1
	}
	if r.Chance(1, 3) {
		c.M = 1
	}
	for k := r.Pick(0, 1, 1, 2, 3, 5, 8); k > 0; k-- { // lone samples that stand out, and steps
		pat := &c.PatX
		if r.Chance(1, 2) {
			pat = &c.PatY
		}
		a := r.Intn(64)
		if r.Chance(2, 3) { // near an edge of the larger sizes
			a = (16*r.Intn(4) + r.Pick(-7, -6, -5, -4, 3, 4, 5, 6) + 64) % 64
		}
		v := r.Pick(1, sc, sc+1, 2*sc, 2*sc+1, 4*sc, 8*sc)
		for n := a + r.Pick(1, 1, 2, 3, 8); a < n; a++ {
			pat[a%64] = v
		}
	}
	for k := 0; k < c.MiRows; k++ {
		c.Own = append(c.Own, make([]int, c.MiCols))
	}
	for y := 0; y < c.H; y += 64 {
		for x := 0; x < c.W; x += 64 {
			c.split(r, x, y, 64)
		}
	}
	return c
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	s := new(state.State)
	cc := &sh.ColorConfig
	cc.BitDepth, cc.SubsamplingX, cc.SubsamplingY, cc.NumPlanes = c.Depth, c.SubX == 1, c.SubY == 1, 3
	if c.Mono == 1 {
		cc.MonoChrome, cc.NumPlanes = true, 1
	}
	s.MiRows, s.MiCols = c.MiRows, c.MiCols
	uh.FrameWidth, uh.FrameHeight = c.W, c.H
	uh.LoopFilterLevel, uh.LoopFilterSharpness, uh.LoopFilterDeltaEnabled = c.Level, c.Sharp, c.DeltaOn == 1
	uh.LoopFilterRefDeltas, uh.LoopFilterModeDeltas, uh.DeltaLfMulti, uh.SegmentationEnabled = c.RefD, c.ModeD, c.Multi, c.SegOn == 1
	for k := range c.FOn {
		for f := range c.FOn[k] {
			s.FeatureEnabled[k][f+1], s.FeatureData[k][f+1] = c.FOn[k][f], c.FData[k][f]
		}
	}
	const pad = 24
	base := func(p, y, x int) int {
		sx, sy := uint(c.SubX), uint(c.SubY)
		if p == 0 {
			sx, sy = 0, 0
		}
		r, k := y<<sy>>2, x<<sx>>2
		if r >= c.MiRows || k >= c.MiCols {
			return 1
		}
		v := c.B + 3*p + c.D*(7*c.Own[r][k]%5) + (c.P*y+c.Q*x)%c.M + c.PatX[x%64] + c.PatY[y%64]
		if v >= 1<<uint(c.Depth) {
			v = 1<<uint(c.Depth) - 1
		}
		return v
	}
	s.CurrFrame = state.NewFrame(c.MiRows*4+pad, c.MiCols*4+pad)
	for p := range s.CurrFrame {
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				s.CurrFrame[p][y][x] = base(p, y, x)
			}
		}
	}
	t := &tilegroup.TileGroup{}
	st, msg := TryHere(func() { t.XDeblock(c.Own, c.Blk, c.SubX, c.SubY, s, uh, sh) })
	other := 0
	px := [][][]int{}
	for p := range s.CurrFrame {
		w, h := c.MiCols*4, c.MiRows*4
		if p > 0 {
			w, h = w>>uint(c.SubX), h>>uint(c.SubY)
		}
		m := [][]int{}
		for y := range s.CurrFrame[p] {
			for x := range s.CurrFrame[p][y] {
				if (x >= w || y >= h) && s.CurrFrame[p][y][x] != base(p, y, x) {
					other++
				}
			}
			if y < h {
				m = append(m, append([]int{}, s.CurrFrame[p][y][:w]...))
			}
		}
		px = append(px, m)
	}
	return map[string]any{"st": st, "msg": msg, "px": px, "other": other}
}

func main() { Main(gen, run) }
