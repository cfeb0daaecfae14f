package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// VRefUpdate stores a frame that no tile has drawn: every sample of it is its mark
func (t *TileGroup) VRefUpdate(s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader, mark int) {
	s.LrFrame = state.NewFrame(uh.FrameHeight+8, uh.UpscaledWidth+8)
	for _, p := range s.LrFrame {
		for y := range p {
			for x := range p[y] {
				p[y][x] = mark
			}
		}
	}
	t.referenceFrameUpdate(s, uh, sh)
}
