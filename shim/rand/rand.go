// Package rand is the controlled stand-in for math/rand: with a Hook, every draw is a choice of the explorer; a
// stream of draws is determined by the seed it was started with, as in the real package.
package rand

import (
	real "math/rand"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

// Hook, when set, draws a value below n (0: any 63 bits) from stream s at position pos.
var Hook func(s Stream, pos int, n uint64) uint64

// Stream identifies a sequence of draws: sequences of equal seeds are equal.
type Stream struct {
	Seed   int64
	Seeded bool
}

type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf

type src struct {
	real.Source64
	st Stream
}

// NewSource starts a seeded stream.
func NewSource(seed int64) Source {
	return &src{real.NewSource(seed).(real.Source64), Stream{seed, true}}
}

// Rand draws from one stream.
type Rand struct {
	r   *real.Rand
	st  Stream
	pos int
}

var global = &Rand{r: real.New(real.NewSource(1))}

// New draws from s.
func New(s Source) *Rand {
	x := &Rand{r: real.New(s)}
	if c, ok := s.(*src); ok {
		x.st = c.st
	}
	return x
}

// Reset forgets the seed of the global stream (a new execution).
func Reset() { global.st, global.pos = Stream{}, 0 }

// Restart keeps the seed but starts the stream over, as a new process with the same start would.
func Restart(seed int64) { global.st, global.pos = Stream{seed, true}, 0 }

// use marks an own stream as written: unlike the global one it is not safe for concurrent use.
func (r *Rand) use() {
	if r != global {
		rt.W(&r.pos)
	}
}

func (r *Rand) draw(n uint64) uint64 {
	v := Hook(r.st, r.pos, n)
	r.pos++
	return v
}

func (r *Rand) Seed(s int64) { r.use(); r.r.Seed(s); r.st, r.pos = Stream{s, true}, 0 }

func (r *Rand) Intn(n int) int {
	r.use()
	rt.Tick()
	if Hook == nil || n <= 0 {
		return r.r.Intn(n)
	}
	return int(r.draw(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	r.use()
	rt.Tick()
	if Hook == nil || n <= 0 {
		return r.r.Int31n(n)
	}
	return int32(r.draw(uint64(n)))
}
func (r *Rand) Int63n(n int64) int64 {
	r.use()
	rt.Tick()
	if Hook == nil || n <= 0 {
		return r.r.Int63n(n)
	}
	return int64(r.draw(uint64(n)))
}
func (r *Rand) Int() int {
	r.use()
	if Hook == nil {
		return r.r.Int()
	}
	return int(r.draw(0))
}
func (r *Rand) Int31() int32 {
	r.use()
	if Hook == nil {
		return r.r.Int31()
	}
	return int32(r.draw(0))
}
func (r *Rand) Int63() int64 {
	r.use()
	if Hook == nil {
		return r.r.Int63()
	}
	return int64(r.draw(0))
}
func (r *Rand) Uint32() uint32 {
	r.use()
	if Hook == nil {
		return r.r.Uint32()
	}
	return uint32(r.draw(0))
}
func (r *Rand) Uint64() uint64 {
	r.use()
	if Hook == nil {
		return r.r.Uint64()
	}
	return r.draw(0)
}
func (r *Rand) Float64() float64 {
	r.use()
	if Hook == nil {
		return r.r.Float64()
	}
	return (float64(r.draw(1040)) + 0.5) / 1040
}
func (r *Rand) Float32() float32     { return float32(r.Float64()) }
func (r *Rand) ExpFloat64() float64  { r.use(); return r.r.ExpFloat64() }
func (r *Rand) NormFloat64() float64 { r.use(); return r.r.NormFloat64() }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.Intn(256))
	}
	return len(p), nil
}

func Seed(s int64)                       { global.Seed(s) }
func Intn(n int) int                     { return global.Intn(n) }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int() int                           { return global.Int() }
func Int31() int32                       { return global.Int31() }
func Int63() int64                       { return global.Int63() }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func ExpFloat64() float64                { return global.ExpFloat64() }
func NormFloat64() float64               { return global.NormFloat64() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return global.Read(p) }
