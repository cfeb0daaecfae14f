package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XBlk is a block as the filters see it.
type XBlk struct {
	Size, Tx, UvTx       int
	Skip, Ref, Mode, Seg int
	Dlf                  [4]int
}

// XUnit says how one restoration unit is filtered.
type XUnit struct {
	Type int // 0 none, 1 Wiener, 2 self guided
	Coef [2][3]int
	Set  int
	Xqd  [2]int
}

// XFinish ends a frame whose blocks and samples are in place and returns what is shown.
func XFinish(own [][]int, blk []XBlk, units [][][]XUnit, subX, subY int, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [3][][]int {
	t := &TileGroup{BlockMaps: s.BlockMaps}
	for r := range own {
		for c := range own[r] {
			b := blk[own[r][c]]
			s.MiSizes[r][c] = b.Size
			t.Skips[r][c] = b.Skip
			t.SegmentIds[r][c] = b.Seg
			s.RefFrames[r][c][0] = b.Ref
			t.YModes[r][c] = b.Mode
			s.DeltaLFs[r][c] = b.Dlf
			t.LoopFilterTxSizes[0][r][c] = b.Tx
			for p := 1; p < 3; p++ {
				if r&subY == subY && c&subX == subX {
					t.LoopFilterTxSizes[p][r>>uint(subY)][c>>uint(subX)] = b.UvTx
				}
			}
		}
	}
	for p := range units {
		for r := range units[p] {
			for c, u := range units[p][r] {
				t.LrType[p][r][c], t.LrSgrSet[p][r][c] = u.Type, u.Set
				t.LrWiener[p][r][c], t.LrSgrXqd[p][r][c] = u.Coef, u.Xqd
			}
		}
	}
	t.decodeFrameWrapup(s, uh, sh)
	return [3][][]int{t.OutY, t.OutU, t.OutV}
}

// XLoad makes a kept frame the current one again and returns its segments.
func XLoad(s *state.State, uh *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader, seg *[][]int) {
	t := &TileGroup{}
	defer func() {
		for r := 0; r < s.MiRows; r++ {
			*seg = append(*seg, append([]int{}, t.SegmentIds[r][:s.MiCols]...))
		}
	}()
	t.referenceFrameLoadingProcess(s, uh, sh)
}
