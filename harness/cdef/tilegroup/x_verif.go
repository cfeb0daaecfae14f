package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XCdef runs CDEF over the current frame.
func (t *TileGroup) XCdef(skips [][]int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.BlockMaps = s.NewBlockMaps(uh.UpscaledWidth)
	for r := range skips {
		for c := range skips[r] {
			t.Skips[r][c] = skips[r][c]
		}
	}
	t.cdefProcess(s, sh, uh)
}
