package vsched

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	w := W
	if w == nil {
		v, ok = <-ch
		return
	}
	g := enter()
	if g == nil {
		return
	}
	if w.Mask&CatChan != 0 {
		w.park(g, "recv", nil)
	}
	raceOn()
	select {
	case v, ok = <-ch:
		return
	default:
	}
	raceOff()
	w.setBlocked(g, "recv")
	raceOn()
	select {
	case v, ok = <-ch:
	case <-g.Proc.dead:
	}
	raceOff()
	w.park(g, "recvd", nil)
	raceOn()
	return
}

// SendTo replaces ch <- v (SendTo(ch)(v)).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		w := W
		if w == nil {
			ch <- v
			return
		}
		g := enter()
		if g == nil {
			return
		}
		if w.Mask&CatChan != 0 {
			w.park(g, "send", nil)
		}
		raceOn()
		select {
		case ch <- v:
			return
		default:
		}
		raceOff()
		w.setBlocked(g, "send")
		raceOn()
		select {
		case ch <- v:
		case <-g.Proc.dead:
		}
		raceOff()
		w.park(g, "sent", nil)
		raceOn()
	}
}

// Close replaces close(ch).
func Close[T any](ch chan<- T) {
	Point(CatChan, "close")
	close(ch)
}

// Case is one case of a select statement.
type Case interface {
	try() bool
	refl() reflect.SelectCase
	got(v reflect.Value, ok bool)
	maybe() bool
}

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
	timer    unsafe.Pointer
	elemtype unsafe.Pointer
	sendx    uint
	recvx    uint
	recvq    [2]unsafe.Pointer
	sendq    [2]unsafe.Pointer
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

// CR makes a receive case.
func CR[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) try() bool {
	select {
	case c.Val, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}

func (c *RecvCase[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) got(v reflect.Value, ok bool) {
	if ok {
		reflect.ValueOf(&c.Val).Elem().Set(v)
	}
	c.OK = ok
}

func (c *RecvCase[T]) maybe() bool {
	if c.ch == nil {
		return false
	}
	h := *(**hchan)(unsafe.Pointer(&c.ch))
	return h.qcount > 0 || h.closed != 0 || h.timer != nil || h.sendq[0] != nil
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// CS makes a send case.
func CS[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) try() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func (c *SendCase[T]) refl() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SendCase[T]) got(reflect.Value, bool) {}

func (c *SendCase[T]) maybe() bool {
	if c.ch == nil {
		return false
	}
	h := *(**hchan)(unsafe.Pointer(&c.ch))
	return h.qcount < h.dataqsiz || h.recvq[0] != nil || h.closed != 0
}

// Select replaces a select statement and returns the index of the case taken,
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil {
		for i, c := range cases {
			if c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("deadlock: select")
	}
	g := enter()
	if g == nil {
		return -1
	}
	if w.Mask&CatChan != 0 {
		w.park(g, "select", nil)
	}
	// Which cases may be ready?  If several, the runtime chooses randomly:
	// that is a choice of the explorer.
	n := 0
	for _, c := range cases {
		if c.maybe() {
			n++
		}
	}
	rev := false
	if n > 1 {
		rev = w.Choose(KSched, 2, func() string { return "select order" }) == 1
	}
	raceOn()
	for i := range cases {
		j := i
		if rev {
			j = len(cases) - 1 - i
		}
		if cases[j].try() {
			return j
		}
	}
	if hasDefault {
		return -1
	}
	raceOff()
	w.setBlocked(g, "select")
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		rc = append(rc, c.refl())
	}
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(g.Proc.dead)})
	raceOn()
	i, v, ok := reflect.Select(rc)
	raceOff()
	w.park(g, "selected", nil)
	raceOn()
	cases[i].got(v, ok)
	return i
}

// MapIt iterates over a map in a fixed order.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap starts an iteration; the zero key and value give the loop variables
// their types.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K, v V) {
	it = &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return lessKey(it.keys[i], it.keys[j]) })
	if W != nil && W.MapDesc {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return
}

func lessKey(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case int:
		return x < b.(int)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return va.Uint() < vb.Uint()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// Next advances; k and v may be nil.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct{ ch <-chan T }

// RangeChan starts an iteration.
func RangeChan[T any](ch <-chan T) (it *ChanIt[T], v T) { return &ChanIt[T]{ch}, v }

// Next receives the next value.
func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if !ok {
		return false
	}
	if v != nil {
		*v = x
	}
	return true
}
