// Package srand2 gives math/rand/v2's package-level functions a per-run seeded source.
package srand2

import "math/rand/v2"

var R = rand.New(rand.NewPCG(1, 2))

// Seed is called by the harness before every run.
func Seed(s uint64) { R = rand.New(rand.NewPCG(s, s^0x9E3779B97F4A7C15)) }

func Int() int                        { return R.Int() }
func IntN(n int) int                  { return R.IntN(n) }
func Int64() int64                    { return R.Int64() }
func Int64N(n int64) int64            { return R.Int64N(n) }
func Int32() int32                    { return R.Int32() }
func Int32N(n int32) int32            { return R.Int32N(n) }
func Uint32() uint32                  { return R.Uint32() }
func Uint64() uint64                  { return R.Uint64() }
func Uint64N(n uint64) uint64         { return R.Uint64N(n) }
func Uint32N(n uint32) uint32         { return R.Uint32N(n) }
func Float64() float64                { return R.Float64() }
func Float32() float32                { return R.Float32() }
func Perm(n int) []int                { return R.Perm(n) }
func Shuffle(n int, f func(i, j int)) { R.Shuffle(n, f) }
