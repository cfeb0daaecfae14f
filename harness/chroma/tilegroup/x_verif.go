package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

// XCfl predicts a chroma block from luma.
func (t *TileGroup) XCfl(plane, x, y, sz, au, av, maxW, maxH int, sh sequenceheader.SequenceHeader, s *state.State) {
	t.CflAlphaU, t.CflAlphaV, t.MaxLumaW, t.MaxLumaH = au, av, maxW, maxH
	t.predictChromaFromLuma(plane, x, y, sz, sh, s)
}

// XPalette predicts a transform block from colours.
func (t *TileGroup) XPalette(plane, startX, startY, x, y, sz int, colors [3][]int, mapY, mapUV [][]int, s *state.State) {
	t.PaletteColorsY, t.PaletteColorsU, t.PaletteColorsV = colors[0], colors[1], colors[2]
	t.ColorMapY, t.ColorMapUV = mapY, mapUV
	t.palettePrediction(plane, startX, startY, x, y, sz, s)
}
