package zz

import (
	"sync"
	"syscall"
)

// The state of every primitive lives behind a pointer, so that it stays with
// the process it belongs to when package variables are swapped.

type muState struct {
	w  bool
	r  int
	ww int
	vw vclock // of writers
	vr vclock // of readers
}

type Sync_Mutex struct{ s *muState }

func (m *Sync_Mutex) st() *muState {
	if m.s == nil {
		m.s = &muState{}
	}
	return m.s
}

func (m *Sync_Mutex) Lock() {
	s := m.st()
	if w == nil || cur == nil {
		s.w = true
		return
	}
	w.point()
	if s.w {
		w.block("mutex", func() bool { return !s.w })
	}
	s.w = true
	take(s.vw)
}

func (m *Sync_Mutex) TryLock() bool {
	s := m.st()
	if s.w {
		return false
	}
	s.w = true
	take(s.vw)
	take(s.vr)
	return true
}

func (m *Sync_Mutex) Unlock() {
	s := m.st()
	if !s.w {
		if cur != nil && cur.proc.dead {
			return
		}
		panic(plainError("sync: unlock of unlocked mutex"))
	}
	release(&s.vw)
	s.w = false
	if w != nil && cur != nil && !cur.proc.dead {
		w.point()
	}
}

type Sync_RWMutex struct{ s *muState }

func (m *Sync_RWMutex) st() *muState {
	if m.s == nil {
		m.s = &muState{}
	}
	return m.s
}

func (m *Sync_RWMutex) Lock() {
	s := m.st()
	if w == nil || cur == nil {
		s.w = true
		return
	}
	w.point()
	if s.w || s.r > 0 {
		s.ww++
		defer func() { s.ww-- }()
		w.block("rwmutex", func() bool { return !s.w && s.r == 0 })
	}
	s.w = true
	take(s.vw)
	take(s.vr)
}

func (m *Sync_RWMutex) Unlock() {
	s := m.st()
	if !s.w {
		if cur != nil && cur.proc.dead {
			return
		}
		panic(plainError("sync: Unlock of unlocked RWMutex"))
	}
	release(&s.vw)
	s.w = false
}

func (m *Sync_RWMutex) RLock() {
	s := m.st()
	if w == nil || cur == nil {
		s.r++
		return
	}
	w.point()
	if s.w || s.ww > 0 {
		w.block("rwmutex", func() bool { return !s.w && s.ww == 0 })
	}
	s.r++
	take(s.vw)
}

func (m *Sync_RWMutex) RUnlock() {
	s := m.st()
	if s.r <= 0 {
		if cur != nil && cur.proc.dead {
			return
		}
		panic(plainError("sync: RUnlock of unlocked RWMutex"))
	}
	release(&s.vr)
	s.r--
}

func (m *Sync_RWMutex) TryLock() bool {
	s := m.st()
	if s.w || s.r > 0 {
		return false
	}
	s.w = true
	take(s.vw)
	take(s.vr)
	return true
}

func (m *Sync_RWMutex) TryRLock() bool {
	s := m.st()
	if s.w {
		return false
	}
	s.r++
	take(s.vw)
	return true
}

type rlocker struct{ m *Sync_RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *Sync_RWMutex) RLocker() sync.Locker { return rlocker{m} }

type wgState struct {
	n  int
	vc vclock
}

type Sync_WaitGroup struct{ s *wgState }

func (g *Sync_WaitGroup) st() *wgState {
	if g.s == nil {
		g.s = &wgState{}
	}
	return g.s
}

func (g *Sync_WaitGroup) Add(d int) {
	s := g.st()
	if d < 0 {
		release(&s.vc)
	}
	s.n += d
	if s.n < 0 {
		if cur != nil && cur.proc.dead {
			return
		}
		panic(plainError("sync: negative WaitGroup counter"))
	}
}

func (g *Sync_WaitGroup) Done() { g.Add(-1) }

func (g *Sync_WaitGroup) Wait() {
	s := g.st()
	if w == nil || cur == nil {
		return
	}
	w.point()
	if s.n > 0 {
		w.block("waitgroup", func() bool { return s.n == 0 })
	}
	take(s.vc)
}

func (g *Sync_WaitGroup) Go(fn func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		fn()
	})
}

type onceState struct {
	done, running bool
	vc            vclock
}

type Sync_Once struct{ s *onceState }

func (o *Sync_Once) Do(fn func()) {
	if o.s == nil {
		o.s = &onceState{}
	}
	s := o.s
	if s.done {
		take(s.vc)
		return
	}
	if s.running {
		w.block("once", func() bool { return s.done })
		take(s.vc)
		return
	}
	s.running = true
	defer func() { s.done = true; release(&s.vc) }()
	fn()
}

func Sync_OnceFunc(fn func()) func() {
	var o Sync_Once
	return func() { o.Do(fn) }
}

func Sync_OnceValue[T any](fn func() T) func() T {
	var o Sync_Once
	var v T
	return func() T { o.Do(func() { v = fn() }); return v }
}

func Sync_OnceValues[A, B any](fn func() (A, B)) func() (A, B) {
	var o Sync_Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = fn() }); return a, b }
}

type condState struct {
	q  []*bool
	vc vclock
}

type Sync_Cond struct {
	L sync.Locker
	s *condState
}

func Sync_NewCond(l sync.Locker) *Sync_Cond { return &Sync_Cond{L: l, s: &condState{}} }

func (c *Sync_Cond) st() *condState {
	if c.s == nil {
		c.s = &condState{}
	}
	return c.s
}

func (c *Sync_Cond) Wait() {
	f := new(bool)
	s := c.st()
	s.q = append(s.q, f)
	c.L.Unlock()
	w.block("cond", func() bool { return *f })
	take(s.vc)
	c.L.Lock()
}

func (c *Sync_Cond) Signal() {
	s := c.st()
	release(&s.vc)
	if len(s.q) > 0 {
		*s.q[0] = true
		s.q = s.q[1:]
	}
}

func (c *Sync_Cond) Broadcast() {
	s := c.st()
	release(&s.vc)
	for _, f := range s.q {
		*f = true
	}
	s.q = nil
}

// Sync_Pool keeps nothing: every Get is a fresh value, which is allowed.
type Sync_Pool struct {
	New func() any
	s   *[]any
	vc  *vclock
}

func (p *Sync_Pool) Get() any {
	if p.s != nil && len(*p.s) > 0 {
		take(*p.vc)
		v := (*p.s)[len(*p.s)-1]
		*p.s = (*p.s)[:len(*p.s)-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Sync_Pool) Put(v any) {
	if p.s == nil {
		p.s, p.vc = &[]any{}, &vclock{}
	}
	release(p.vc)
	*p.s = append(*p.s, v)
}

type Sync_Map struct{ m *smap }

type smap struct {
	m    map[any]any
	keys []any
	vc   vclock
}

func (m *Sync_Map) st() *smap {
	if m.m == nil {
		m.m = &smap{m: map[any]any{}}
	}
	take(m.m.vc)
	release(&m.m.vc)
	return m.m
}

func (m *Sync_Map) Load(k any) (any, bool) { v, ok := m.st().m[k]; return v, ok }
func (m *Sync_Map) Store(k, v any)         { m.Swap(k, v) }

func (m *Sync_Map) Swap(k, v any) (any, bool) {
	s := m.st()
	o, ok := s.m[k]
	if !ok {
		s.keys = append(s.keys, k)
	}
	s.m[k] = v
	return o, ok
}

func (m *Sync_Map) LoadOrStore(k, v any) (any, bool) {
	if o, ok := m.Load(k); ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}

func (m *Sync_Map) LoadAndDelete(k any) (any, bool) {
	s := m.st()
	o, ok := s.m[k]
	delete(s.m, k)
	for i, x := range s.keys {
		if x == k {
			s.keys = append(s.keys[:i:i], s.keys[i+1:]...)
			break
		}
	}
	return o, ok
}

func (m *Sync_Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Sync_Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.Load(k); ok && v == o {
		m.Store(k, n)
		return true
	}
	return false
}

func (m *Sync_Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.Load(k); ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}

func (m *Sync_Map) Clear() { m.m = nil }

func (m *Sync_Map) Range(f func(k, v any) bool) {
	s := m.st()
	keys := append([]any(nil), s.keys...)
	for i := range keys {
		if w != nil && cur != nil {
			if j := w.choose(kMap, len(keys)-i); j > 0 {
				keys[i], keys[i+j] = keys[i+j], keys[i]
			}
		}
	}
	for _, k := range keys {
		if v, ok := s.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- randomness

func (w *World) rnd() *Rng {
	if w.userRng == nil {
		w.userRng = NewRng(w.Sched.Seed ^ 0x5eed)
	}
	return w.userRng
}

func Rand_Int() int             { return int(w.rnd().U64() >> 1) }
func Rand_Intn(n int) int       { return w.rnd().Intn(n) }
func Rand_Int63() int64         { return int64(w.rnd().U64() >> 1) }
func Rand_Int63n(n int64) int64 { return int64(w.rnd().U64()>>1) % n }
func Rand_Int31() int32         { return int32(w.rnd().U64() >> 33) }
func Rand_Int31n(n int32) int32 { return int32(w.rnd().U64()>>33) % n }
func Rand_Uint32() uint32       { return uint32(w.rnd().U64() >> 32) }
func Rand_Uint64() uint64       { return w.rnd().U64() }
func Rand_Float64() float64     { return float64(w.rnd().U64()>>11) / (1 << 53) }
func Rand_Seed(int64)           {}
func Rand_Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := w.rnd().Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, w.rnd().Intn(i+1))
	}
}
func RandV2_Int() int                           { return Rand_Int() }
func RandV2_IntN(n int) int                     { return Rand_Intn(n) }
func RandV2_Int64() int64                       { return Rand_Int63() }
func RandV2_Int64N(n int64) int64               { return Rand_Int63n(n) }
func RandV2_Uint32() uint32                     { return Rand_Uint32() }
func RandV2_Uint64() uint64                     { return Rand_Uint64() }
func RandV2_Float64() float64                   { return Rand_Float64() }
func RandV2_Perm(n int) []int                   { return Rand_Perm(n) }
func RandV2_Shuffle(n int, swap func(i, j int)) { Rand_Shuffle(n, swap) }
func CRand_Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(w.rnd().U64())
	}
	return len(b), nil
}
func CRand_Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[w.rnd().Intn(32)]
	}
	return string(b)
}

var _ = syscall.EIO
