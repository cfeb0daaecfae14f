package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tileinfo"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Data   []int
	Skip   int
	MiCols int
	MiRows int
	SB128  int
	Stale  int // state left by an earlier frame
}

func gen(r *Rng, i int) in {
	dim := func() int {
		switch r.Intn(6) {
		case 0:
			return 2 * r.Range(1, 20)
		case 1, 2:
			return 2 * r.Range(1, 150)
		case 3:
			return 2 * r.Range(1, 700)
		case 4:
			return r.Pick(32, 64, 128, 1024, 1026, 2048, 30, 34, 62, 66)
		}
		return 2 * r.Range(1, 3000)
	}
	c := in{Skip: r.Intn(8), MiCols: dim(), MiRows: dim(), SB128: r.Intn(2), Stale: r.Intn(2)}
	n := 40
	if r.Chance(1, 12) {
		n = r.Range(1, 6)
	}
	c.Data = r.Bytes(n, r.Pick(1, 3, 5, 8, 8, 11, 13, 15))
	return c
}

func run(c in) map[string]any {
	b := bitstream.NewBitStream(Bytes(c.Data))
	b.Position = c.Skip
	s := state.State{MiCols: c.MiCols, MiRows: c.MiRows}
	if c.Stale == 1 {
		s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2 = 3, 5, 2, 3
		s.MiColStarts, s.MiRowStarts = []int{7, 7, 7}, []int{9, 9}
	}
	sh := sequenceheader.SequenceHeader{Use128x128SuperBlock: c.SB128 == 1}
	var ti tileinfo.TileInfo
	st, msg := Try(func() { ti = tileinfo.NewTileInfo(sh, &s, &b) })
	out := map[string]any{"st": st, "msg": msg}
	if st != "ok" {
		return out
	}
	out["p"] = b.Position
	out["TileCols"], out["TileRows"] = s.TileCols, s.TileRows
	out["ColsLog2"], out["RowsLog2"] = s.TileColsLog2, s.TileRowsLog2
	out["ColStarts"], out["RowStarts"] = s.MiColStarts, s.MiRowStarts
	out["CtxTile"], out["TileSizeBytes"] = ti.ContextUpdateTileId, s.TileSizeBytes
	return out
}

func main() { Main(gen, run) }
