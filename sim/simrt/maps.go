package simrt

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// mapState models the overlap detection of Go's runtime: a map operation that
// overlaps a write of the same map kills the process.
type mapState struct {
	readers int
	writers int
	ref     any
}

func mapPtr(m unsafe.Pointer) uintptr { return uintptr(*(*unsafe.Pointer)(m)) }

func mapEnter(p uintptr, ref any, write bool) {
	s := active
	if s == nil || p == 0 || cur.killed {
		return
	}
	ms := s.maps[p]
	if ms == nil {
		ms = &mapState{ref: ref}
		s.maps[p] = ms
	}
	if write {
		if ms.writers > 0 {
			fatal("concurrent map writes")
		}
		if ms.readers > 0 {
			fatal("concurrent map read and map write")
		}
		ms.writers++
		Y(8)
		ms.writers--
	} else {
		if ms.writers > 0 {
			fatal("concurrent map read and map write")
		}
		ms.readers++
		Y(8)
		ms.readers--
	}
}

type fatalError string

// fatal models a Go "fatal error": the whole process dies and nothing can recover it.
func fatal(msg string) {
	s := active
	if s == nil || cur.killed {
		return
	}
	s.out0("panic", "fatal error: "+msg, callers(3))
	s.endRun(cur)
}

// MR marks a read of m and returns it.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if active != nil && m != nil {
		mapEnter(mapPtr(unsafe.Pointer(&m)), m, false)
	}
	return m
}

// MW marks a write of m and returns it.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if active != nil && m != nil {
		mapEnter(mapPtr(unsafe.Pointer(&m)), m, true)
	}
	return m
}

// MapEntry is one step of a simulated map iteration.
type MapEntry[K comparable, V any] struct {
	Key K
	m   map[K]V
}

// Live returns the current value and whether the key is still present.
func (e *MapEntry[K, V]) Live() (V, bool) {
	if active != nil {
		mapEnter(mapPtr(unsafe.Pointer(&e.m)), e.m, false)
	}
	v, ok := e.m[e.Key]
	return v, ok
}

// MapRange returns the entries of m in an order chosen by the decision source.
// Keys deleted during the iteration are skipped by the caller through Live.
func MapRange[M ~map[K]V, K comparable, V any](m M) []*MapEntry[K, V] {
	out := make([]*MapEntry[K, V], 0, len(m))
	if len(m) == 0 {
		return out
	}
	if active != nil {
		mapEnter(mapPtr(unsafe.Pointer(&m)), m, false)
	}
	for k := range m {
		out = append(out, &MapEntry[K, V]{Key: k, m: m})
	}
	sortKeys(out)
	if active != nil && len(out) > 1 {
		seed := active.dec.draw("maprange", 0)
		if seed != 0 {
			r := rng{uint64(seed)}
			for i := len(out) - 1; i > 0; i-- {
				j := int(r.intn(int64(i + 1)))
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func sortKeys[K comparable, V any](es []*MapEntry[K, V]) {
	if len(es) < 2 {
		return
	}
	switch any(es[0].Key).(type) {
	case string:
		sort.Slice(es, func(i, j int) bool { return any(es[i].Key).(string) < any(es[j].Key).(string) })
		return
	case int:
		sort.Slice(es, func(i, j int) bool { return any(es[i].Key).(int) < any(es[j].Key).(int) })
		return
	case int64:
		sort.Slice(es, func(i, j int) bool { return any(es[i].Key).(int64) < any(es[j].Key).(int64) })
		return
	}
	keys := make([]string, len(es))
	idx := make(map[K]string, len(es))
	for i, e := range es {
		keys[i] = keyString(e.Key)
		idx[e.Key] = keys[i]
	}
	sort.SliceStable(es, func(i, j int) bool { return cmp.Less(idx[es[i].Key], idx[es[j].Key]) })
}

func keyString(k any) string {
	defer func() { recover() }()
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Pointer, reflect.UnsafePointer, reflect.Chan, reflect.Func:
		if n, ok := k.(interface{ Name() string }); ok {
			return "n:" + n.Name()
		}
		if n, ok := k.(fmt.Stringer); ok {
			return "s:" + n.String()
		}
		return fmt.Sprintf("p%012d", objectID(v.Pointer(), k))
	}
	return fmt.Sprintf("%T %+v", k, k)
}

// objectID numbers pointer keys by first sight within a run.
func objectID(p uintptr, ref any) int {
	s := active
	if s == nil {
		return 0
	}
	if s.mapName == nil {
		s.mapName = map[uintptr]int{}
	}
	n, ok := s.mapName[p]
	if !ok {
		n = len(s.mapName) + 1
		s.mapName[p] = n
		s.keep = append(s.keep, ref)
	}
	return n
}
