package rt

import (
	"fmt"
	"sort"
)

// MapOrders: 0 canonical order only; k>0: the explorer deviates among iteration orders of maps with at most k keys
// (larger maps: canonical or reversed).
var MapOrders int

// MapIt iterates a map in an order the explorer decides.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	left []K
	K    K
	rev  bool
	pick bool
}

// MapIter starts an iteration.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	MR(m)
	it := &MapIt[K, V]{m: m, left: sortedKeys(m)}
	if MapOrders > 0 && len(m) > 1 {
		if len(m) <= MapOrders {
			it.pick = true
		} else if Deviate(2) == 1 {
			for i, j := 0, len(it.left)-1; i < j; i, j = i+1, j-1 {
				it.left[i], it.left[j] = it.left[j], it.left[i]
			}
		}
	}
	return it
}

func sortedKeys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	var zero K
	switch any(zero).(type) { // nil for interface types
	case int64:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(int64) < any(ks[j]).(int64) })
	case string:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(string) < any(ks[j]).(string) })
	case int:
		sort.Slice(ks, func(i, j int) bool { return any(ks[i]).(int) < any(ks[j]).(int) })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%T %v", ks[i], ks[i]) < fmt.Sprintf("%T %v", ks[j], ks[j]) })
	}
	return ks
}

// Next moves to the next live key.
func (it *MapIt[K, V]) Next() bool {
	for len(it.left) > 0 {
		i := 0
		if it.pick && len(it.left) > 1 {
			i = Deviate(len(it.left))
		}
		k := it.left[i]
		if i == 0 {
			it.left = it.left[1:]
		} else {
			it.left = append(append([]K{}, it.left[:i]...), it.left[i+1:]...)
		}
		if _, ok := it.m[k]; ok {
			it.K = k
			return true
		}
	}
	return false
}

// V is the current value.
func (it *MapIt[K, V]) V() V { return MR(it.m)[it.K] }
