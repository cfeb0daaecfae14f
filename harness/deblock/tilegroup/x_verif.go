package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XBlk is a block as the loop filter sees it.
type XBlk struct {
	Row, Col, Size, Tx, UvTx int
	Skip, Ref, Mode, Seg     int // Mode: intra modes as they are, 100 for the first inter mode, 101 for the next, ...
	Dlf                      [4]int
}

// XDeblock runs the loop filter over the current frame.
func (t *TileGroup) XDeblock(own [][]int, blk []XBlk, subX, subY int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	t.BlockMaps = s.NewBlockMaps(uh.UpscaledWidth)
	for r := range own {
		for c := range own[r] {
			b := blk[own[r][c]]
			s.MiSizes[r][c] = b.Size
			t.Skips[r][c] = b.Skip
			t.SegmentIds[r][c] = b.Seg
			s.RefFrames[r][c][0] = b.Ref
			t.YModes[r][c] = b.Mode
			if b.Mode >= 100 {
				t.YModes[r][c] = shared.NEARESTMV + b.Mode - 100
			}
			s.DeltaLFs[r][c] = b.Dlf
			t.LoopFilterTxSizes[0][r][c] = b.Tx
			for p := 1; p < 3; p++ {
				if r&subY == subY && c&subX == subX {
					t.LoopFilterTxSizes[p][r>>uint(subY)][c>>uint(subX)] = b.UvTx
				}
			}
		}
	}
	t.loopFilter(s, uh, sh)
}
