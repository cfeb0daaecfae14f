// Package drvlib is the common part of the conformance drivers: a seeded
// generator, outcome capture, and the NDJSON recording that TLC judges.
package drvlib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
)

// ---- deterministic random source (splitmix64) ----

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int           { return int(r.U64()>>33) % n }
func (r *Rng) Range(lo, hi int) int     { return lo + r.Intn(hi-lo+1) }
func (r *Rng) Chance(num, den int) bool { return r.Intn(den) < num }
func (r *Rng) Pick(xs ...int) int       { return xs[r.Intn(len(xs))] }

// Bytes returns n bytes whose bits are one with probability p/16.
func (r *Rng) Bytes(n, p int) []int {
	out := make([]int, n)
	for i := range out {
		v := 0
		for k := 0; k < 8; k++ {
			v <<= 1
			if r.Intn(16) < p {
				v |= 1
			}
		}
		out[i] = v
	}
	return out
}

// ---- bit writer ----

type W struct{ Bits []byte }

func (w *W) Put(v, n int) {
	for i := n - 1; i >= 0; i-- {
		w.Bits = append(w.Bits, byte((v>>uint(i))&1))
	}
}
func (w *W) Pos() int { return len(w.Bits) }
func (w *W) Bytes() []int {
	n := (len(w.Bits) + 7) / 8
	out := make([]int, n)
	for i, b := range w.Bits {
		out[i/8] |= int(b) << uint(7-i%8)
	}
	return out
}

// ---- values TLC can read ----

const Lim = 2000000000

func Clamp(v int64) int {
	if v > Lim {
		return Lim
	}
	if v < -Lim {
		return -Lim
	}
	return int(v)
}

// Limbs is the 64-bit two's complement of v as four 16-bit limbs.
func Limbs(v int) []int {
	u := uint64(int64(v))
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

// Norm turns a Go value into JSON data with only ints (within 32 bits),
// strings, arrays and objects: booleans become 0/1, nil slices become [].
func Norm(v any) any {
	if v == nil {
		return []any{}
	}
	return norm(reflect.ValueOf(v))
}

func norm(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Clamp(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := v.Uint()
		if u > Lim {
			return Lim
		}
		return int(u)
	case reflect.String:
		return v.String()
	case reflect.Slice, reflect.Array:
		out := make([]any, v.Len())
		for i := range out {
			out[i] = norm(v.Index(i))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			out[k.String()] = norm(v.MapIndex(k))
		}
		return out
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			out[v.Type().Field(i).Name] = norm(v.Field(i))
		}
		return out
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return []any{}
		}
		return norm(v.Elem())
	}
	return fmt.Sprintf("?%s", v.Kind())
}

// ---- running one piece of the code under test ----

// Try runs f; "ok", "refused" (an explicit "not implemented" panic),
// "panic" (any other panic) or "hang".
func Try(f func()) (st string, msg string) {
	done := make(chan [2]string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				m := fmt.Sprint(e)
				if strings.HasPrefix(m, "not implemented") {
					done <- [2]string{"refused", m}
				} else {
					done <- [2]string{"panic", m}
				}
			}
		}()
		f()
		done <- [2]string{"ok", ""}
	}()
	t := time.NewTimer(30 * time.Second)
	defer t.Stop()
	select {
	case r := <-done:
		return r[0], r[1]
	case <-t.C:
		Hung = true
		return "hang", ""
	}
}

// TryHere is Try without the watchdog goroutine, for many short calls.
func TryHere(f func()) (st string, msg string) {
	st = "ok"
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if strings.HasPrefix(msg, "not implemented") {
				st = "refused"
			} else {
				st = "panic"
			}
		}
	}()
	f()
	return
}

// Hung is set once a case did not come back; the driver then stops generating.
var Hung bool

// Bytes converts a recorded byte list.
func Bytes(v []int) []byte {
	out := make([]byte, len(v))
	for i, x := range v {
		out[i] = byte(x)
	}
	return out
}

// ---- main ----

type line struct {
	ID  int             `json:"id"`
	In  json.RawMessage `json:"in"`
	Out any             `json:"out"`
}

// Main generates n cases from the seed (or re-runs the recorded inputs of
// -replay) and records input and observation of each, one JSON object a line.
// In is the case type; run receives a fresh copy decoded from JSON.
func Main[In any](gen func(r *Rng, i int) In, run func(in In) map[string]any) {
	seed := flag.Uint64("seed", 1, "seed")
	n := flag.Int("n", 100, "cases")
	from := flag.Int("from", 0, "first case")
	out := flag.String("out", "", "output file")
	replay := flag.String("replay", "", "recorded cases to run again")
	prog := flag.String("progress", "", "file that receives the input of the case being run")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	emit := func(id int, raw json.RawMessage) {
		var in In
		if err := json.Unmarshal(raw, &in); err != nil {
			panic(err)
		}
		if *prog != "" {
			b, _ := json.Marshal(line{id, raw, map[string]any{}})
			os.WriteFile(*prog, append(b, '\n'), 0o644)
		}
		res := run(in)
		b, err := json.Marshal(line{id, raw, Norm(res)})
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	if *replay != "" {
		rf, err := os.Open(*replay)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(rf)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var l struct {
				ID int             `json:"id"`
				In json.RawMessage `json:"in"`
			}
			if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
				panic(err)
			}
			emit(l.ID, l.In)
		}
	} else {
		for i := *from; i < *from+*n && !Hung; i++ {
			r := NewRng(*seed*1000003 + uint64(i)*7919)
			raw, err := json.Marshal(Norm(gen(r, i)))
			if err != nil {
				panic(err)
			}
			emit(i, raw)
		}
	}
	w.Flush()
	f.Close()
}
