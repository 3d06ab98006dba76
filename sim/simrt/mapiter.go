package simrt

import (
	"fmt"
	"sort"
)

// MapIterator walks a map in the order chosen by the simulator.
type MapIterator[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIterator[K, V] {
	it := &MapIterator[K, V]{m: MapR(m)}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(m) == 1 {
		return it
	}
	type named struct {
		name string
		k    K
	}
	n := make([]named, len(it.keys))
	for i, k := range it.keys {
		switch x := any(k).(type) {
		case string:
			n[i] = named{x, k}
		default:
			n[i] = named{fmt.Sprintf("%T %v", x, x), k}
		}
	}
	sort.SliceStable(n, func(i, j int) bool { return n[i].name < n[j].name })
	for i := range n {
		it.keys[i] = n[i].k
	}
	if w := W; w != nil {
		switch w.MapOrder {
		case 1:
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		case 2:
			p := w.MapRand.Perm(len(it.keys))
			k2 := make([]K, len(p))
			for i, j := range p {
				k2[i] = it.keys[j]
			}
			it.keys = k2
			w.Probes["map walk in permuted order"]++
		}
	}
	return it
}

func (it *MapIterator[K, V]) Next(k *K, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func MapIterKV[M ~map[K]V, K comparable, V any](m M) (it *MapIterator[K, V], k K, v V) {
	return MapIter(m), k, v
}
func MapIterK[M ~map[K]V, K comparable, V any](m M) (it *MapIterator[K, V], k K) {
	return MapIter(m), k
}
func MapIterV[M ~map[K]V, K comparable, V any](m M) (it *MapIterator[K, V], v V) {
	return MapIter(m), v
}
