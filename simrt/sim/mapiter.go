package sim

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter gives `range m` a seeded, replayable order. Entries deleted before they are reached are not
// produced, entries added meanwhile are not produced: both allowed by the Go specification.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	st   *raceIter
}

// MapSeed perturbs iteration order per run (set by the harness from the plan).
var MapSeed uint64

func MapRange[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var zk K
	var zv V
	it := &Iter[K, V]{m: m}
	RMap(m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		r := NewRand(MapSeed + uint64(len(keys)))
		for i := len(keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
		MapSeed = r.Uint64()
	}
	it.keys = keys
	return it, zk, zv
}

func (it *Iter[K, V]) Next(k *K, v *V) bool {
	Y()
	RMap(it.m)
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := it.m[kk]
		if !ok {
			continue
		}
		*k, *v = kk, vv
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])
		switch a.Kind() {
		case reflect.String:
			return a.String() < b.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return a.Int() < b.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return a.Uint() < b.Uint()
		case reflect.Float32, reflect.Float64:
			return a.Float() < b.Float()
		}
		return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
	})
}
