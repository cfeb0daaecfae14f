// CDEF over a small frame.
package main

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Depth, SubX, SubY, MiRows, MiCols, Damping int
	YPri, YSec, UvPri, UvSec                   [8]int
	CdefIdx                                    [][]int // of each 64x64
	Skips                                      [][]int
	Px                                         [][][]int // planes
}

func gen(r *Rng, i int) in {
	c := in{Depth: r.Pick(8, 8, 10, 12), SubX: r.Intn(2), MiRows: 2 * r.Range(1, 3), MiCols: 2 * r.Range(1, 3), Damping: r.Range(3, 6)}
	if c.SubX == 1 {
		c.SubY = 1 - r.Intn(3)/2
	}
	wide := r.Chance(1, 6)
	if wide {
		if r.Chance(1, 2) {
			c.MiCols, c.MiRows = 18, 2
		} else {
			c.MiCols, c.MiRows = 2, 18
		}
	}
	for k := range c.YPri {
		c.YPri[k], c.UvPri[k] = r.Pick(0, r.Intn(16), r.Intn(16), r.Intn(16)), r.Pick(0, r.Intn(16), r.Intn(16), r.Intn(16))
		c.YSec[k], c.UvSec[k] = r.Pick(0, 1, 2, 4), r.Pick(0, 1, 2, 4)
	}
	for y := 0; y < (c.MiRows+15)/16; y++ {
		row := []int{}
		for x := 0; x < (c.MiCols+15)/16; x++ {
			row = append(row, r.Pick(-1, r.Intn(8), r.Intn(8), r.Intn(8), r.Intn(8), r.Intn(8)))
		}
		c.CdefIdx = append(c.CdefIdx, row)
	}
	like := r.Pick(1, 2, 4, 12)
	for y := 0; y < c.MiRows; y++ {
		row := []int{}
		for x := 0; x < c.MiCols; x++ {
			k := 1
			if wide && x > 3 && x < 14 || wide && y > 3 && y < 14 {
				k = 1 // left alone, to save time
			} else if !r.Chance(like, 12) {
				k = 0
			}
			row = append(row, k)
		}
		c.Skips = append(c.Skips, row)
	}
	planes := 3
	if r.Chance(1, 8) {
		planes = 1
	}
	top := 1<<uint(c.Depth) - 1
	sc := 1 << uint(c.Depth-8)
	for p := 0; p < planes; p++ {
		w, h := c.MiCols*4, c.MiRows*4
		if p > 0 {
			w, h = w>>uint(c.SubX), h>>uint(c.SubY)
		}
		base, amp, noise := r.Intn(top+1), sc*r.Pick(0, 4, 10, 30, 90, 255), r.Pick(1, 1, 2, 4*sc, 20*sc, top+1)
		a, b, n := r.Range(-2, 2), r.Range(-2, 2), r.Range(2, 16) // stripes
		m := [][]int{}
		for y := 0; y < h; y++ {
			row := []int{}
			for x := 0; x < w; x++ {
				v := base + r.Intn(noise)
				if ((a*x+b*y)%n+n)%n < n/2 {
					v -= amp
				}
				if v < 0 {
					v = 0
				}
				if v > top {
					v = top
				}
				row = append(row, v)
			}
			m = append(m, row)
		}
		c.Px = append(c.Px, m)
	}
	return c
}

func run(c in) map[string]any {
	var sh sequenceheader.SequenceHeader
	var uh uncompressedheader.UncompressedHeader
	s := new(state.State)
	cc := &sh.ColorConfig
	cc.BitDepth, cc.SubsamplingX, cc.SubsamplingY, cc.NumPlanes, cc.MonoChrome = c.Depth, c.SubX == 1, c.SubY == 1, len(c.Px), len(c.Px) == 1
	s.MiRows, s.MiCols = c.MiRows, c.MiCols
	uh.FrameWidth, uh.FrameHeight, uh.UpscaledWidth = c.MiCols*4, c.MiRows*4, c.MiCols*4
	uh.CdefDampening = c.Damping
	for k := range c.YPri {
		uh.CdefYPriStrength = append(uh.CdefYPriStrength, c.YPri[k])
		uh.CdefYSecStrength = append(uh.CdefYSecStrength, c.YSec[k])
		uh.CdefUVPriStrength = append(uh.CdefUVPriStrength, c.UvPri[k])
		uh.CdefUVSecStrength = append(uh.CdefUVSecStrength, c.UvSec[k])
	}
	s.Cdef.CdefIdx = nil
	for y := 0; y < c.MiRows; y++ {
		row := make([]int, c.MiCols)
		for x := range row {
			row[x] = c.CdefIdx[y/16][x/16]
		}
		s.Cdef.CdefIdx = append(s.Cdef.CdefIdx, row)
	}
	s.CurrFrame = state.NewFrame(c.MiRows*4, c.MiCols*4)
	for p := range c.Px {
		for y := range c.Px[p] {
			copy(s.CurrFrame[p][y], c.Px[p][y])
		}
	}
	t := &tilegroup.TileGroup{}
	st, msg := TryHere(func() { t.XCdef(c.Skips, s, sh, uh) })
	same := true // the frame CDEF reads from stays as it is
	px := [][][]int{}
	for p := range c.Px {
		m := [][]int{}
		for y := range c.Px[p] {
			for x, v := range c.Px[p][y] {
				same = same && s.CurrFrame[p][y][x] == v
			}
			if st == "ok" {
				m = append(m, append([]int{}, s.CdefFrame[p][y][:len(c.Px[p][y])]...))
			}
		}
		px = append(px, m)
	}
	return map[string]any{"st": st, "msg": msg, "px": px, "same": same}
}

func main() { Main(gen, run) }
