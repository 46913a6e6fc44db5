package zz

import (
	"iter"
	"maps"
	"unsafe"
)

// A map that one goroutine writes while another one uses it ends a Go program
// with a fatal error that nothing can recover from, if the two meet at the same
// instant. The simulator runs one statement at a time, so it tells such
// accesses by vector clocks: two accesses that no synchronisation orders can
// meet in another schedule. Every operation of the operating system, every
// cancellation and every timer counts as synchronisation between all
// goroutines, as they do for Go's own race detector or more so.

// NoRaces is set for programs that use atomics, whose order is not followed.
var NoRaces bool

type vclock []uint32

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) clone() vclock { return append(vclock(nil), a...) }

func (t *Task) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// give returns what others may learn from the current task.
func give() vclock {
	if w == nil || cur == nil {
		return nil
	}
	v := cur.vc.clone()
	cur.tick()
	return v
}

func take(v vclock) {
	if w != nil && cur != nil && len(v) > 0 {
		cur.vc.join(v)
	}
}

func release(to *vclock) {
	if w != nil && cur != nil {
		to.join(cur.vc)
		cur.tick()
	}
}

// osPoint is a scheduling point before an operation of the operating system.
func (w *World) osPoint() {
	release(&w.osVC)
	w.point()
	take(w.osVC)
}

type mapState struct {
	keep  any
	wTask int
	wAt   uint32
	r     map[int]uint32
}

func touchMap(p unsafe.Pointer, keep any, write bool) {
	if p == nil || NoRaces || cur.proc.spawned < 2 || cur.proc.dead {
		return
	}
	take(w.osVCall)
	s := w.maps[p]
	if s == nil {
		s = &mapState{keep: keep, wTask: -1}
		if w.maps == nil {
			w.maps = map[unsafe.Pointer]*mapState{}
		}
		w.maps[p] = s
	}
	me := cur.vc.at(cur.id)
	if s.wTask >= 0 && s.wAt > cur.vc.at(s.wTask) {
		if write {
			panic(plainError("fatal error: concurrent map writes"))
		}
		panic(plainError("fatal error: concurrent map read and map write"))
	}
	if write {
		for t, c := range s.r {
			if c > cur.vc.at(t) {
				panic(plainError("fatal error: concurrent map read and map write"))
			}
		}
		s.wTask, s.wAt = cur.id, me
		clear(s.r)
		return
	}
	if s.r == nil {
		s.r = map[int]uint32{}
	}
	s.r[cur.id] = me
}

func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if w != nil && cur != nil {
		touchMap(ptrOf(m), m, false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if w != nil && cur != nil {
		touchMap(ptrOf(m), m, true)
	}
	return m
}

func Maps_Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	maps.Copy(MapW(dst), MapR(src))
}

func Maps_Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(MapR(m)) }

func Maps_DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range RangeMap(MapW(m)) {
		if del(k, v) {
			delete(m, k)
		}
	}
}

func Maps_Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		MapW(m)[k] = v
	}
}
