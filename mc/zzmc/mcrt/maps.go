package mcrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapKeys returns the keys of a map in the iteration order that the explorer chooses.
func MapKeys[K comparable, V any](m map[K]V) []K {
	n := len(m)
	if n == 0 {
		return nil
	}
	keys := make([]K, 0, n)
	for k := range m {
		keys = append(keys, k)
	}
	if n == 1 {
		return keys
	}
	sort.Slice(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
	if inert() || s.cfg.MapOrder == 0 {
		return keys
	}
	if n <= s.cfg.MapOrder {
		// every permutation: choose the next key among the remaining ones
		for i := 0; i < n-1; i++ {
			k := i + Choose(n-i, "map order")
			x := keys[k]
			for x := k; x > i; x-- {
				keys[x] = keys[x-1]
			}
			keys[i] = x
		}
		return keys
	}
	// larger maps: sorted, reversed, rotated by one, rotated by half
	switch Choose(4, "map order") {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 2:
		keys = append(append([]K(nil), keys[1:]...), keys[:1]...)
	case 3:
		keys = append(append([]K(nil), keys[n/2:]...), keys[:n/2]...)
	}
	return keys
}

func lessKey[K comparable](a, b K) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return x.Uint() < y.Uint()
	case reflect.String:
		return x.String() < y.String()
	case reflect.Float32, reflect.Float64:
		return x.Float() < y.Float()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
