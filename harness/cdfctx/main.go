// Life of the probability contexts: defaults, frame, tile, saved and the eight
// reference copies, each seen as one content id per CDF table.
package main

import (
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

const (
	opNonCoeff = iota
	opCoeff
	opLoad
	opSave
	opTile
	opAdapt
	opExit
	opFrameEnd
	opAdaptAll
)

type in struct {
	Data []int
	Ops  [][4]int
}

var names = func() []string {
	out := []string{}
	t := reflect.TypeOf(state.MemoryArea{})
	for i := 0; i < t.NumField(); i++ {
		if n := t.Field(i).Name; strings.HasSuffix(n, "Cdf") {
			out = append(out, n)
		}
	}
	return out
}()

var qsets = []int{0, 30, 100, 200}

func gen(r *Rng, i int) in {
	c := in{Data: r.Bytes(600, 8)}
	add := func(o, a, b, d int) { c.Ops = append(c.Ops, [4]int{o, a, b, d}) }
	stored := []int{}
	used := []int{}
	for fr := r.Range(1, 3); fr > 0; fr-- {
		if len(stored) == 0 || r.Chance(1, 2) {
			add(opNonCoeff, 0, 0, 0)
			add(opCoeff, r.Pick(0, 20, 21, 60, 61, 120, 121, 255), 0, 0)
		} else {
			add(opLoad, stored[r.Intn(len(stored))], 0, 0)
		}
		tiles := r.Range(1, 3)
		ctx := r.Intn(tiles)
		off := r.Pick(0, 0, 0, 1)
		noUpdate := r.Pick(0, 0, 0, 1)
		for t := 0; t < tiles; t++ {
			add(opTile, 0, 0, 0)
			if i%2 == 0 {
				add(opAdaptAll, 0, r.Intn(1000), noUpdate)
			}
			for k := r.Range(0, 3); k > 0; k-- {
				f := r.Intn(len(names))
				if len(used) > 0 && r.Chance(1, 2) {
					f = used[r.Intn(len(used))] // several tiles and frames adapt the same table
				}
				used = append(used, f)
				add(opAdapt, f, r.Intn(1000), noUpdate)
			}
			add(opExit, t, ctx, off)
		}
		if off == 0 {
			add(opFrameEnd, 0, 0, 0)
		}
		for k := r.Pick(0, 1, 1, 2, 3); k > 0; k-- {
			s := r.Intn(8)
			stored = append(stored, s)
			add(opSave, s, 0, 0)
		}
	}
	return c
}

// ---- content ids ----

type table struct {
	ids  map[uint64]int
	zero []int
}

func mix(h uint64, x int) uint64 { return (h ^ uint64(uint32(x))) * 0x100000001b3 }

func hash(x any, z bool, h uint64) uint64 {
	switch c := x.(type) {
	case *[]int:
		return hash(*c, z, h)
	case *[][]int:
		return hash(*c, z, h)
	case *[][][]int:
		return hash(*c, z, h)
	case []int:
		for i, e := range c {
			if z && i == len(c)-1 {
				e = 0
			}
			h = mix(h, e)
		}
		return mix(h, -7)
	case [][]int:
		for _, e := range c {
			h = hash(e, z, h)
		}
		return mix(h, -6)
	case [][][]int:
		for _, e := range c {
			h = hash(e, z, h)
		}
		return mix(h, -5)
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for i := 0; i < v.Len(); i++ {
		h = hash(v.Index(i).Addr().Interface(), z, h)
	}
	return mix(h, -4)
}

func (t *table) id(x any) int {
	h := hash(x, false, 14695981039346656037)
	if k, ok := t.ids[h]; ok {
		return k
	}
	t.zero = append(t.zero, 0)
	k := len(t.zero)
	t.ids[h] = k
	zh := hash(x, true, 14695981039346656037)
	zk, ok := t.ids[zh]
	if !ok {
		t.zero = append(t.zero, 0)
		zk = len(t.zero)
		t.ids[zh] = zk
		t.zero[zk-1] = zk
	}
	t.zero[k-1] = zk
	return k
}

var index = map[string][]int{}

func fieldsOf(t reflect.Type, kind string) []int {
	key := t.Name() + kind
	if index[key] == nil {
		for _, n := range names {
			f, ok := t.FieldByName(kind + n)
			if !ok {
				panic("no field " + kind + n)
			}
			index[key] = append(index[key], f.Index[0])
		}
	}
	return index[key]
}

func (t *table) all(v reflect.Value, kind string) []int {
	out := make([]int, len(names))
	for i, k := range fieldsOf(v.Type(), kind) {
		out[i] = t.id(v.Field(k).Addr().Interface())
	}
	return out
}

func (t *table) ctx(s *state.State, kind string) []int { return t.all(reflect.ValueOf(s).Elem(), kind) }
func (t *table) mem(s *state.State, m int) []int {
	return t.all(reflect.ValueOf(&s.Memory[m]).Elem(), "")
}

var fresh = new(state.State)

func (t *table) snap(s *state.State) [][]int {
	out := [][]int{t.ctx(s, ""), t.ctx(s, "Tile"), t.ctx(s, "Saved")}
	for m := 0; m < 8; m++ {
		out = append(out, t.mem(s, m))
	}
	for _, q := range qsets {
		uncompressedheader.XInitNonCoeffCdfs(fresh)
		uncompressedheader.XInitCoeffCdfs(fresh, q)
		out = append(out, t.ctx(fresh, ""))
	}
	return out
}

// leaf picks one CDF of a table.
func leaf(v reflect.Value, k int) []int {
	for v.Type().Elem().Kind() != reflect.Int {
		n := v.Len()
		v, k = v.Index(k%n), k/n
	}
	return v.Interface().([]int)
}

func run(c in) map[string]any {
	s := new(state.State)
	t := &tilegroup.TileGroup{}
	tab := &table{ids: map[uint64]int{}}
	last := tab.snap(s)
	init := last
	steps := []any{}
	b := bitstream.NewBitStream(Bytes(c.Data))
	st, msg := TryHere(func() {
		for _, o := range c.Ops {
			switch o[0] {
			case opNonCoeff:
				uncompressedheader.XInitNonCoeffCdfs(s)
			case opCoeff:
				uncompressedheader.XInitCoeffCdfs(s, o[1])
			case opLoad:
				uncompressedheader.LoadCdfs(o[1], s)
			case opSave:
				uncompressedheader.SaveCdfs(o[1], s)
			case opTile:
				b.Position = 0
				tilegroup.XInitSymbol(t, len(c.Data), &b, s)
			case opAdapt, opAdaptAll:
				uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: o[3] == 1}
				tables := names[o[1] : o[1]+1]
				if o[0] == opAdaptAll {
					tables = names
				}
				for _, n := range tables {
					cdf := leaf(reflect.ValueOf(s).Elem().FieldByName("Tile"+n), o[2])
					for k := 0; k < 3; k++ {
						symbol.ReadSymbol(cdf, s, &b, uh)
					}
				}
			case opExit:
				uh := uncompressedheader.UncompressedHeader{DisableFrameEndUpdateCdf: o[3] == 1}
				s.TileNum = o[1]
				uh.TileInfo.ContextUpdateTileId = o[2]
				tilegroup.XExitSymbol(t, &b, s, uh)
			case opFrameEnd:
				tilegroup.XFrameEnd(t, s)
			}
			now := tab.snap(s)
			ch := []any{}
			for i := range now {
				if !reflect.DeepEqual(now[i], last[i]) {
					ch = append(ch, map[string]any{"c": i + 1, "v": now[i]})
				}
			}
			steps = append(steps, ch)
			last = now
		}
	})
	coeff := []int{}
	for _, n := range names {
		k := 0
		for _, p := range []string{"TxbSkipCdf", "Eob", "DcSignCdf", "CoeffB"} {
			if strings.HasPrefix(n, p) {
				k = 1
			}
		}
		coeff = append(coeff, k)
	}
	return map[string]any{"st": st, "msg": msg, "init": init, "steps": steps, "zero": tab.zero, "coeff": coeff}
}

func main() { Main(gen, run) }
