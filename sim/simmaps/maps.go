// Package simmaps stands in for the functions of package maps whose order is
// random: it is drawn from the run's seed. The others are the real ones.
package simmaps

import (
	"iter"

	"verifsim/sim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range sim.MapEntries(m) {
			if v, ok := e.Get(); ok && !yield(e.K, v) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range sim.MapEntries(m) {
			if _, ok := e.Get(); ok && !yield(e.K) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range sim.MapEntries(m) {
			if v, ok := e.Get(); ok && !yield(v) {
				return
			}
		}
	}
}
