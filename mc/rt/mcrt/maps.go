//go:build go1.21

package mcrt

import (
	"fmt"
	"sort"
)

// MapKeys returns the keys of m in a deterministic order; with
// Opts.MapOrder the order is a scheduling-class choice.
func MapKeys[K comparable, V any](m map[K]V) []K {
	n := len(m)
	if n == 0 {
		return nil
	}
	keys := make([]K, 0, n)
	for k := range m {
		keys = append(keys, k)
	}
	if n == 1 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
	if mapOrder() {
		switch SchedChoice("maporder", 3) {
		case 1:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		case 2:
			keys = append(keys[1:], keys[0])
		}
	}
	return keys
}

func mapOrder() bool { return X != nil && !X.ending && X.opts.MapOrder }

// Zero resets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
