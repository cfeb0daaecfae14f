package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

// XIntra predicts one transform block.
type XIntra struct {
	Plane, X, Y, LogW, LogH int
	Hl, Ha, Har, Hbl        int
	Mode, Fi, AdY, AdUV     int
	Row, Col                int       // of the block in 4x4 units
	YM, UM, Rf              [4][4]int // modes and references around it, from Row-2, Col-2 on
	Au, Al, Auc, Alc        int
}

// XPredictIntra calls the prediction of the block after setting what it looks at.
func (t *TileGroup) XPredictIntra(c XIntra, s *state.State, sh sequenceheader.SequenceHeader) {
	t.UseFilterIntra = c.Fi >= 0
	if c.Fi >= 0 {
		t.FilterIntraMode = c.Fi
	}
	t.AngleDeltaY, t.AngleDeltaUV = c.AdY, c.AdUV
	s.MiRow, s.MiCol = c.Row, c.Col
	s.AvailU, s.AvailL, s.AvailUChroma, s.AvailLChroma = c.Au == 1, c.Al == 1, c.Auc == 1, c.Alc == 1
	t.BlockMaps = s.NewBlockMaps(4 * s.MiCols)
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			r, k := c.Row-2+i, c.Col-2+j
			t.YModes[r][k], t.UVModes[r][k], s.RefFrames[r][k][0] = c.YM[i][j], c.UM[i][j], c.Rf[i][j]
		}
	}
	t.predictIntra(c.Plane, c.X, c.Y, c.Hl == 1, c.Ha == 1, c.Har == 1, c.Hbl == 1, c.Mode, c.LogW, c.LogH, s, sh)
}
