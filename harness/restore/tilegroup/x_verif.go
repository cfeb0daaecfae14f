package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

// XUnit says how one restoration unit is filtered.
type XUnit struct {
	Type int // 0 none, 1 Wiener, 2 self guided
	Coef [2][3]int
	Set  int
	Xqd  [2]int
}

// XUpscale is super-resolution of one frame.
func (t *TileGroup) XUpscale(f state.Frame, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) state.Frame {
	return t.upscalingProcess(f, s, sh, uh)
}

// XRestore runs loop restoration.
func (t *TileGroup) XRestore(units [][][]XUnit, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.BlockMaps = s.NewBlockMaps(uh.UpscaledWidth)
	for p := range units {
		for r := range units[p] {
			for c, u := range units[p][r] {
				t.LrType[p][r][c], t.LrSgrSet[p][r][c] = u.Type, u.Set
				t.LrWiener[p][r][c], t.LrSgrXqd[p][r][c] = u.Coef, u.Xqd
			}
		}
	}
	t.loopRestoration(s, uh, sh)
}
