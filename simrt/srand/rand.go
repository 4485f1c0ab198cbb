// Package srand gives math/rand's package-level functions the per-run seeded source.
package srand

import "gRedis/verifsim/srand2"

func Seed(int64)                      {}
func Int() int                        { return srand2.R.Int() }
func Intn(n int) int                  { return srand2.R.IntN(n) }
func Int31() int32                    { return srand2.R.Int32() }
func Int31n(n int32) int32            { return srand2.R.Int32N(n) }
func Int63() int64                    { return srand2.R.Int64() }
func Int63n(n int64) int64            { return srand2.R.Int64N(n) }
func Uint32() uint32                  { return srand2.R.Uint32() }
func Uint64() uint64                  { return srand2.R.Uint64() }
func Float64() float64                { return srand2.R.Float64() }
func Float32() float32                { return srand2.R.Float32() }
func Perm(n int) []int                { return srand2.R.Perm(n) }
func Shuffle(n int, f func(i, j int)) { srand2.R.Shuffle(n, f) }
