package vsim

import (
	"math/rand"
	randv2 "math/rand/v2"
)

// Randomness of the code under test comes from the seed of the run.

var randState struct {
	s  *Sim
	r1 *rand.Rand
	r2 *randv2.Rand
}

func randOf() {
	s := S
	if randState.r1 != nil && (randState.s == s || s == nil) {
		return
	}
	seed := uint64(1)
	if s != nil {
		seed = Mix(s.cfg.Seed, 3)
	}
	randState.s = s
	randState.r1 = rand.New(rand.NewSource(int64(seed)))
	randState.r2 = randv2.New(randv2.NewPCG(seed, 1))
}

func rand1() *rand.Rand   { randOf(); return randState.r1 }
func rand2() *randv2.Rand { randOf(); return randState.r2 }

func RandSeed(int64)                 {}
func RandRead(p []byte) (int, error) { return rand1().Read(p) }

func RandN[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(rand2().Uint64N(uint64(n)))
}

func RandExpFloat64() float64                { return rand1().ExpFloat64() }
func RandFloat32() float32                   { return rand1().Float32() }
func RandFloat64() float64                   { return rand1().Float64() }
func RandInt() int                           { return rand1().Int() }
func RandInt31() int32                       { return rand1().Int31() }
func RandInt31n(n int32) int32               { return rand1().Int31n(n) }
func RandInt63() int64                       { return rand1().Int63() }
func RandInt63n(n int64) int64               { return rand1().Int63n(n) }
func RandIntn(n int) int                     { return rand1().Intn(n) }
func RandNormFloat64() float64               { return rand1().NormFloat64() }
func RandPerm(n int) []int                   { return rand1().Perm(n) }
func RandShuffle(n int, swap func(i, j int)) { rand1().Shuffle(n, swap) }
func RandUint32() uint32                     { return rand1().Uint32() }
func RandUint64() uint64                     { return rand1().Uint64() }

func RandV2ExpFloat64() float64                { return rand2().ExpFloat64() }
func RandV2Float32() float32                   { return rand2().Float32() }
func RandV2Float64() float64                   { return rand2().Float64() }
func RandV2Int() int                           { return rand2().Int() }
func RandV2Int32() int32                       { return rand2().Int32() }
func RandV2Int32N(n int32) int32               { return rand2().Int32N(n) }
func RandV2Int64() int64                       { return rand2().Int64() }
func RandV2Int64N(n int64) int64               { return rand2().Int64N(n) }
func RandV2IntN(n int) int                     { return rand2().IntN(n) }
func RandV2NormFloat64() float64               { return rand2().NormFloat64() }
func RandV2Perm(n int) []int                   { return rand2().Perm(n) }
func RandV2Shuffle(n int, swap func(i, j int)) { rand2().Shuffle(n, swap) }
func RandV2Uint() uint                         { return rand2().Uint() }
func RandV2Uint32() uint32                     { return rand2().Uint32() }
func RandV2Uint32N(n uint32) uint32            { return rand2().Uint32N(n) }
func RandV2Uint64() uint64                     { return rand2().Uint64() }
func RandV2Uint64N(n uint64) uint64            { return rand2().Uint64N(n) }
func RandV2UintN(n uint) uint                  { return rand2().UintN(n) }
