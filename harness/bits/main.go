package main

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type op struct {
	Op string
	N  int
}
type in struct {
	Data []int
	Ops  []op
}

func gen(r *Rng, i int) in {
	c := in{Data: r.Bytes(r.Range(0, 24), r.Pick(1, 4, 8, 8, 8, 12, 15))}
	switch i % 8 {
	case 0: // long zero runs for uvlc
		w := &W{}
		for k := 0; k < 2; k++ {
			w.Put(0, r.Pick(3, 17, 29, 30, 31, 31, 32, 33, 40))
			w.Put(1, 1)
			w.Put(int(r.U64()&0xffffffff), 32)
		}
		c.Data = w.Bytes()
	case 1: // long leb128 runs
		w := &W{}
		n := r.Range(1, 9)
		for k := 0; k < n; k++ {
			w.Put(128|r.Intn(128), 8)
		}
		w.Put(r.Intn(128), 8)
		w.Put(r.Intn(256), 8)
		c.Data = w.Bytes()
	}
	n := r.Range(1, 10)
	for k := 0; k < n; k++ {
		var o op
		switch r.Intn(12) {
		case 0, 1:
			o = op{"f", r.Range(0, 16)}
		case 2:
			o = op{"f", r.Range(17, 40)}
		case 3, 4:
			o = op{"uvlc", 0}
		case 5, 6:
			o = op{"leb", 0}
		case 7:
			o = op{"su", r.Range(1, 32)}
		case 8:
			o = op{"ns", r.Pick(1, 2, 3, 4, 5, 6, 7, 9, 16, 17, 31, 63, 64, 65, 100, 255, 257, 1000, 4096, 70000)}
		case 9:
			o = op{"le", r.Range(1, 7)}
		case 10:
			o = op{"trail", r.Range(1, 20)}
		case 11:
			o = op{"align", 0}
		}
		if k == 0 && i%8 == 0 {
			o = op{"uvlc", 0}
		}
		if k == 0 && i%8 == 1 {
			o = op{"leb", 0}
		}
		c.Ops = append(c.Ops, o)
		if r.Chance(1, 4) {
			c.Ops = append(c.Ops, op{"align", 0}, op{"more", 0})
		}
	}
	return c
}

func run(c in) map[string]any {
	b := bitstream.NewBitStream(Bytes(c.Data))
	ev := []map[string]any{}
	all := "ok"
	for _, o := range c.Ops {
		v, noval, more := 0, false, false
		st, _ := Try(func() {
			switch o.Op {
			case "f":
				v = b.F(o.N)
			case "su":
				v = b.Su(o.N)
			case "ns":
				v = b.Ns(o.N)
			case "le":
				v = b.Le(o.N)
			case "uvlc":
				v = b.Uvlc()
			case "leb":
				v = b.Leb128()
			case "trail":
				b.TrailingBits(o.N)
				noval = true
			case "align":
				b.ByteAlignment()
				noval = true
			case "more":
				more = b.MoreDataInBistream()
			}
		})
		e := map[string]any{"o": st, "p": b.Position, "x": b.Leb128Bytes, "r": Limbs(v)}
		if noval {
			e["r"] = []int{}
		}
		if o.Op == "more" {
			e["r"] = []bool{more}
		}
		ev = append(ev, e)
		if st != "ok" {
			all = st
			break
		}
	}
	return map[string]any{"st": all, "ev": ev}
}

func main() { Main(gen, run) }
