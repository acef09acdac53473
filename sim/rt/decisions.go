package rt

import (
	"math"
	"math/bits"
	"sort"
)

// PRNG is splitmix64.
type PRNG struct{ x uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{x: seed} }

func (p *PRNG) Uint64() uint64 {
	p.x += 0x9e3779b97f4a7c15
	z := p.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *PRNG) Uint64n(n uint64) uint64 {
	hi, _ := bits.Mul64(p.Uint64(), n)
	return hi
}

func (p *PRNG) Float64() float64 { return float64(p.Uint64()>>11) / (1 << 53) }

// Geom draws the number of trials until the first success, at least 1.
func (p *PRNG) Geom(prob float64) uint64 {
	u := p.Float64()
	n := math.Log(1-u) / math.Log(1-prob)
	if n > 1e15 {
		n = 1e15
	}
	return 1 + uint64(n)
}

// Mix derives a seed from parts.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range parts {
		p := PRNG{x: h ^ v}
		h = p.Uint64() ^ bits.RotateLeft64(h, 17)
	}
	return h
}

// Stream indices.
const (
	StWork   = iota // what the workload does
	StNet           // network timing and faults
	StBroker        // broker behaviour and response content
	StSelect        // select and wake-up choices
	StFault         // fault plan
	NStreams
)

var StreamNames = [NStreams]string{"work", "net", "broker", "select", "fault"}

// SchedDec is one scheduling decision: at step Step pick V.
type SchedDec struct {
	Step uint64
	V    uint32
}

// DataDec is one non-default data decision: the Idx-th draw of a stream is V.
type DataDec struct {
	Idx int
	V   uint32
}

// Decisions is the source of every choice of a run. When exploring, choices come
// from PRNGs derived from one seed and are recorded; when replaying they come
// from the recorded sparse lists, with 0 (the default) where nothing is listed.
type Decisions struct {
	Seed   uint64
	replay bool
	sched  *PRNG
	rng    [NStreams]*PRNG
	pos    [NStreams]int
	Data   [NStreams][]DataDec
	Sched  []SchedDec
	rsched map[uint64]uint32
	rsteps []uint64
	rdata  [NStreams]map[int]uint32
}

// Explore returns decisions drawn from seed.
func Explore(seed uint64) *Decisions {
	d := &Decisions{Seed: seed, sched: NewPRNG(Mix(seed, 99))}
	for i := range d.rng {
		d.rng[i] = NewPRNG(Mix(seed, uint64(i)))
	}
	return d
}

// Replay returns decisions read from recorded lists.
func Replay(sched []SchedDec, data [NStreams][]DataDec) *Decisions {
	d := &Decisions{replay: true, rsched: map[uint64]uint32{}, sched: NewPRNG(1)}
	for _, x := range sched {
		d.rsched[x.Step] = x.V
		d.rsteps = append(d.rsteps, x.Step)
	}
	sort.Slice(d.rsteps, func(i, j int) bool { return d.rsteps[i] < d.rsteps[j] })
	for i := range data {
		d.rdata[i] = map[int]uint32{}
		for _, x := range data[i] {
			d.rdata[i][x.Idx] = x.V
		}
	}
	return d
}

func (d *Decisions) Replaying() bool { return d.replay }

func (d *Decisions) schedAt(step uint64) (uint32, bool) {
	v, ok := d.rsched[step]
	return v, ok
}

func (d *Decisions) nextSched(after uint64) uint64 {
	i := sort.Search(len(d.rsteps), func(i int) bool { return d.rsteps[i] > after })
	if i == len(d.rsteps) {
		return ^uint64(0)
	}
	return d.rsteps[i]
}

func (d *Decisions) recordSched(step uint64, v uint32) {
	d.Sched = append(d.Sched, SchedDec{step, v})
}

// draw returns the next value of a stream; gen produces it when exploring.
func (d *Decisions) draw(st int, gen func(p *PRNG) uint32) uint32 {
	i := d.pos[st]
	d.pos[st]++
	if d.replay {
		return d.rdata[st][i]
	}
	v := gen(d.rng[st])
	if v != 0 {
		d.Data[st] = append(d.Data[st], DataDec{i, v})
	}
	return v
}

// Choose draws from 0..n-1; 0 is the default.
func Choose(st, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(S.Dec.draw(st, func(p *PRNG) uint32 { return uint32(p.Uint64n(uint64(n))) }))
	if v >= n {
		v %= n
	}
	return v
}

// Chance is true with probability p; false is the default.
func Chance(st int, p float64) bool {
	return S.Dec.draw(st, func(r *PRNG) uint32 {
		if r.Float64() < p {
			return 1
		}
		return 0
	}) != 0
}

// Bits draws 32 raw bits; 0 is the default.
func Bits(st int) uint32 {
	return S.Dec.draw(st, func(p *PRNG) uint32 { return uint32(p.Uint64()) })
}

// Range draws from lo..hi; lo is the default.
func Range(st, lo, hi int) int { return lo + Choose(st, hi-lo+1) }

// Weighted draws an index with the given weights; index 0 is the default.
func Weighted(st int, w ...float64) int {
	var sum float64
	for _, x := range w {
		sum += x
	}
	v := int(S.Dec.draw(st, func(p *PRNG) uint32 {
		f := p.Float64() * sum
		for i, x := range w {
			if f < x {
				return uint32(i)
			}
			f -= x
		}
		return 0
	}))
	if v >= len(w) {
		v = 0
	}
	return v
}
