package zz

import (
	"cmp"
	"fmt"
	"iter"
	"maps"
	"reflect"
	"slices"
	"unsafe"
)

type simChan struct {
	cap    int
	buf    []msg
	vr     vclock // of those who received
	vclose vclock
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	keep   any
}

type msg struct {
	v  any
	vc vclock
}

// chanOp is one pending send, receive or select.
type chanOp struct {
	t      *Task
	done   bool
	idx    int
	val    any
	ok     bool
	closed bool // a sender that found the channel closed
	vc     vclock
}

type waiter struct {
	op  *chanOp
	idx int
	val any
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// MakeChan registers a channel made by instrumented code.
func MakeChan[T any](ch chan T) chan T {
	if w != nil && cur != nil {
		w.chans[ptrOf(ch)] = &simChan{cap: cap(ch), keep: ch}
	}
	return ch
}

func (w *World) lookup(p unsafe.Pointer) *simChan { return w.chans[p] }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.op.done || x.op.t.proc.dead {
			continue
		}
		return x
	}
	return nil
}

func hasWaiter(q *[]*waiter, not *chanOp) bool {
	for len(*q) > 0 {
		x := (*q)[0]
		if x.op.done || x.op.t.proc.dead {
			*q = (*q)[1:]
			continue
		}
		break
	}
	for _, x := range *q {
		if !x.op.done && x.op != not {
			return true
		}
	}
	return false
}

func (c *simChan) canSend() bool {
	return c.closed || hasWaiter(&c.recvq, nil) || len(c.buf) < c.cap
}

func (c *simChan) canRecv() bool {
	return len(c.buf) > 0 || hasWaiter(&c.sendq, nil) || c.closed
}

// doSend completes a send that canSend.
func (c *simChan) doSend(v any) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if x := popWaiter(&c.recvq); x != nil {
		x.op.done, x.op.idx, x.op.val, x.op.ok = true, x.idx, v, true
		x.op.vc = give()
		if c.cap == 0 {
			take(x.op.t.vc)
			x.op.t.tick()
		} else {
			take(c.vr)
		}
		return
	}
	take(c.vr)
	c.buf = append(c.buf, msg{v, give()})
}

// doRecv completes a receive that canRecv.
func (c *simChan) doRecv() (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		take(v.vc)
		release(&c.vr)
		if x := popWaiter(&c.sendq); x != nil {
			c.buf = append(c.buf, msg{x.val, x.op.t.vc.clone()})
			x.op.done, x.op.idx = true, x.idx
			x.op.t.tick()
			x.op.vc = c.vr.clone()
		}
		return v.v, true
	}
	if x := popWaiter(&c.sendq); x != nil {
		x.op.done, x.op.idx = true, x.idx
		x.op.vc = give()
		take(x.op.t.vc)
		x.op.t.tick()
		return x.val, true
	}
	take(c.vclose)
	return nil, false // closed
}

func blockForever(why string) {
	w.block(why, func() bool { return false })
	panic("unreachable")
}

type SendCh[T any] struct {
	ch chan<- T
}

func ChanOf[T any](ch chan<- T) SendCh[T] { return SendCh[T]{ch} }

func (s SendCh[T]) Send(v T) {
	if w == nil || cur == nil {
		s.ch <- v
		return
	}
	w.point()
	if s.ch == nil {
		blockForever("send on nil channel")
	}
	c := w.lookup(ptrOf(s.ch))
	if c == nil {
		w.block("send to external channel", func() bool { return len(s.ch) < cap(s.ch) })
		s.ch <- v
		return
	}
	if c.canSend() {
		c.doSend(v)
		return
	}
	op := &chanOp{t: cur}
	c.sendq = append(c.sendq, &waiter{op, 0, v})
	w.block("chan send", func() bool { return op.done })
	take(op.vc)
	if op.closed {
		panic(plainError("send on closed channel"))
	}
}

func recvAny[T any](ch <-chan T) (T, bool) {
	var zero T
	if w == nil || cur == nil {
		v, ok := <-ch
		return v, ok
	}
	w.point()
	if ch == nil {
		blockForever("receive from nil channel")
	}
	c := w.lookup(ptrOf(ch))
	if c == nil {
		var v T
		var ok, got bool
		w.block("external channel", func() bool {
			if got {
				return true
			}
			select {
			case v, ok = <-ch:
				got = true
			default:
			}
			return got
		})
		return v, ok
	}
	if c.canRecv() {
		v, ok := c.doRecv()
		if !ok {
			return zero, false
		}
		return as[T](v), true
	}
	op := &chanOp{t: cur}
	c.recvq = append(c.recvq, &waiter{op, 0, nil})
	w.block("chan receive", func() bool { return op.done })
	take(op.vc)
	if !op.ok {
		return zero, false
	}
	return as[T](op.val), true
}

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Recv[T any](ch <-chan T) T { v, _ := recvAny(ch); return v }

func Recv2[T any](ch <-chan T) (T, bool) { return recvAny(ch) }

func Close[T any](ch chan<- T) {
	if w == nil || cur == nil {
		close(ch)
		return
	}
	w.point()
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	c := w.lookup(ptrOf(ch))
	if c == nil {
		close(ch)
		return
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	c.vclose = give()
	for {
		x := popWaiter(&c.recvq)
		if x == nil {
			break
		}
		x.op.vc = c.vclose
		x.op.done, x.op.idx, x.op.ok, x.op.val = true, x.idx, false, nil
	}
	for {
		x := popWaiter(&c.sendq)
		if x == nil {
			break
		}
		x.op.done, x.op.idx, x.op.closed = true, x.idx, true
	}
}

func ChanLen[C any](ch C) int {
	if w != nil && cur != nil {
		if c := w.lookup(ptrOf(ch)); c != nil {
			return len(c.buf)
		}
	}
	return reflect.ValueOf(ch).Len()
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := recvAny(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- select

type Sel struct {
	hasDefault bool
	cases      []selCase
	op         chanOp
}

type selCase struct {
	c    *simChan
	send bool
	val  any
	ext  func() (any, bool, bool) // external channel: value, ok, ready
	nilc bool
}

func NewSelect(hasDefault bool) *Sel { return &Sel{hasDefault: hasDefault} }

func (s SendCh[T]) SelSend(sel *Sel, v T) {
	k := selCase{send: true, val: v}
	if s.ch == nil {
		k.nilc = true
	} else if k.c = w.lookup(ptrOf(s.ch)); k.c == nil {
		ch := s.ch
		k.ext = func() (any, bool, bool) {
			select {
			case ch <- v:
				return nil, false, true
			default:
				return nil, false, false
			}
		}
	}
	sel.cases = append(sel.cases, k)
}

type SelRes[T any] struct{ s *Sel }

func SelRecv[T any](sel *Sel, ch <-chan T) SelRes[T] {
	k := selCase{}
	if ch == nil {
		k.nilc = true
	} else if k.c = w.lookup(ptrOf(ch)); k.c == nil {
		k.ext = func() (any, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}
	}
	sel.cases = append(sel.cases, k)
	return SelRes[T]{sel}
}

func (r SelRes[T]) Get() T { v, _ := r.Get2(); return v }

func (r SelRes[T]) Get2() (T, bool) {
	if !r.s.op.ok {
		var z T
		return z, false
	}
	return as[T](r.s.op.val), true
}

func (s *Sel) Do() int {
	w.point()
	s.op.t = cur
	var ready []int
	for i, k := range s.cases {
		switch {
		case k.nilc:
		case k.ext != nil:
			// close-only channels: polling does not consume anything
			if !k.send {
				if v, ok, r := k.ext(); r {
					if ok {
						s.op.val, s.op.ok = v, ok
						return i
					}
					ready = append(ready, i)
				}
			}
		case k.send && k.c.canSend():
			ready = append(ready, i)
		case !k.send && k.c.canRecv():
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		if len(ready) > 1 {
			w.probe("select with several ready cases")
		}
		i := ready[w.choose(kSelect, len(ready))]
		k := s.cases[i]
		switch {
		case k.ext != nil:
			s.op.ok = false
		case k.send:
			k.c.doSend(k.val)
		default:
			s.op.val, s.op.ok = k.c.doRecv()
		}
		return i
	}
	if s.hasDefault {
		return -1
	}
	for i, k := range s.cases {
		if k.c == nil {
			continue
		}
		if k.send {
			k.c.sendq = append(k.c.sendq, &waiter{&s.op, i, k.val})
		} else {
			k.c.recvq = append(k.c.recvq, &waiter{&s.op, i, nil})
		}
	}
	w.block("select", func() bool {
		if s.op.done {
			return true
		}
		for i, k := range s.cases {
			if k.ext != nil {
				if v, ok, r := k.ext(); r {
					s.op.done, s.op.idx, s.op.val, s.op.ok = true, i, v, ok
					return true
				}
			}
		}
		return false
	})
	take(s.op.vc)
	if s.op.closed {
		panic(plainError("send on closed channel"))
	}
	return s.op.idx
}

// ---------------------------------------------------------------- maps

func sortedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []int64:
		slices.Sort(ks)
	case []uint64:
		slices.Sort(ks)
	default:
		type sk struct {
			s string
			k K
		}
		l := make([]sk, 0, len(keys))
		for _, k := range keys {
			l = append(l, sk{keyString(k), k})
		}
		slices.SortStableFunc(l, func(a, b sk) int { return cmp.Compare(a.s, b.s) })
		for i := range l {
			keys[i] = l[i].k
		}
	}
	return keys
}

func keyString(k any) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return ""
	}
	return fmt.Sprintf("%#v", k)
}

// mapOrder gives the keys in the order the decider wants.
func mapOrder[K comparable, V any](m map[K]V) []K {
	keys := sortedKeys(m)
	if w == nil || cur == nil || len(keys) < 2 || cur.proc.dead {
		return keys
	}
	s := w.choose(kMap, 1<<16)
	if s != 0 {
		r := NewRng(uint64(s))
		for i := len(keys) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mapOrder(MapR(m)) {
			v, ok := MapR(m)[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func Maps_Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range mapOrder(MapR(m)) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

func Maps_Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range mapOrder(MapR(m)) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

func Maps_All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return RangeMap(m) }

var _ = maps.Keys[map[int]int]
