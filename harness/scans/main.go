// The scan of every transform size and type.
package main

import (
	"github.com/m4tthewde/gov1/internal/tilegroup"
	. "github.com/m4tthewde/gov1/internal/verifdrv/drvlib"
)

type in struct{ Sz, Ty int }

func gen(r *Rng, i int) in { return in{i % 19, (i / 19) % 16} }

func run(c in) map[string]any {
	out := map[string]any{"scan": []int{}}
	st, msg := TryHere(func() { out["scan"] = append([]int{}, tilegroup.XScan(c.Sz, c.Ty)...) })
	out["st"], out["msg"] = st, msg
	return out
}

func main() { Main(gen, run) }
