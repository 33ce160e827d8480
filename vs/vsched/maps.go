package vsched

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

var mapReverse bool

// MapRange iterates over a map in a deterministic order (sorted by the printed
// key, or the reverse of that), with the semantics of range otherwise.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		names := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			for _, k := range keys {
				names = append(names, fmt.Sprint(k))
			}
			sort.Sort(&byName[K]{keys, names})
			if mapReverse {
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

type byName[K any] struct {
	keys  []K
	names []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// SortValues puts the result of reflect's MapKeys into a deterministic order.
func SortValues(keys []reflect.Value) []reflect.Value {
	names := make([]string, 0, len(keys))
	for _, k := range keys {
		names = append(names, fmt.Sprint(k.Interface()))
	}
	sort.Sort(&byName[reflect.Value]{keys, names})
	if mapReverse {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}
