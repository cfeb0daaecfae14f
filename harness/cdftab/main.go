// Default probability tables, as the decoder initialises them.
package main

import (
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct {
	Field string
	Q     int
}

func fields() []string {
	out := []string{}
	t := reflect.TypeOf(state.State{})
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Name
		if strings.HasSuffix(n, "Cdf") && !strings.HasPrefix(n, "Tile") && !strings.HasPrefix(n, "Saved") {
			out = append(out, n)
		}
	}
	return out
}

var qs = []int{0, 20, 21, 60, 61, 120, 121, 255}

func gen(r *Rng, i int) in {
	f := fields()
	i %= len(f) * len(qs)
	return in{f[i%len(f)], qs[i/len(f)]}
}

func flat(v reflect.Value, path []int, out *[][]int, paths *[][]int) {
	if v.Type().Elem().Kind() == reflect.Int {
		x := make([]int, v.Len())
		for i := range x {
			x[i] = int(v.Index(i).Int())
		}
		*out = append(*out, x)
		*paths = append(*paths, append([]int{}, path...))
		return
	}
	for i := 0; i < v.Len(); i++ {
		flat(v.Index(i), append(path, i), out, paths)
	}
}

func run(c in) map[string]any {
	s := new(state.State)
	tab, paths := [][]int{}, [][]int{}
	st, msg := TryHere(func() {
		uncompressedheader.XInitCdfs(s, c.Q)
		flat(reflect.ValueOf(s).Elem().FieldByName(c.Field), nil, &tab, &paths)
	})
	return map[string]any{"st": st, "msg": msg, "tab": tab, "paths": paths}
}

func main() { Main(gen, run) }
