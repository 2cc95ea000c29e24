// Package simmaps replaces functions whose result depends on map iteration order.
package simmaps

import "verif.local/sim/simrt"

func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	var r []K = make([]K, 0, len(m))
	for _, e := range simrt.MapRange(m) {
		r = append(r, e.Key)
	}
	return r
}

func Values[M ~map[K]V, K comparable, V any](m M) []V {
	r := make([]V, 0, len(m))
	for _, e := range simrt.MapRange(m) {
		r = append(r, m[e.Key])
	}
	return r
}
