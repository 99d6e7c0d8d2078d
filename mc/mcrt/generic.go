package mcrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Send is ch <- v.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		sendAny(ch, v)
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if !Active() {
		v, ok = <-ch
		return v, ok
	}
	r, ok := recvAny(ch)
	if ok {
		v, _ = r.(T)
	}
	return v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	closeAny(ch)
}

// Len is len(ch).
func Len(ch interface{}) int {
	if !Active() {
		return reflect.ValueOf(ch).Len()
	}
	return lenAny(ch)
}

// ChanIter iterates over a channel.
type ChanIter[T any] struct{ ch <-chan T }

// IterChan is used for v := range ch.
func IterChan[T any](ch <-chan T) (v T, it *ChanIter[T]) { return v, &ChanIter[T]{ch} }

// Next receives the next value.
func (it *ChanIter[T]) Next(v *T) bool {
	r, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = r
	}
	return ok
}

// Case is a case of a select statement.
type Case interface {
	sel() *selCase
	real() reflect.SelectCase
	set(v interface{}, ok bool, r reflect.Value)
}

// RecvCase is a receive within a select statement.
type RecvCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// CaseRecv is case <-ch.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) sel() *selCase { return &selCase{c: chanOf(c.ch)} }
func (c *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvCase[T]) set(v interface{}, ok bool, r reflect.Value) {
	if r.IsValid() {
		v = r.Interface()
	}
	c.ok = ok
	if ok {
		c.v, _ = v.(T)
	}
}

// Get is the received value.
func (c *RecvCase[T]) Get() T { return c.v }

// Get2 is the received value and whether there was one.
func (c *RecvCase[T]) Get2() (T, bool) { return c.v, c.ok }

// SendCase is a send within a select statement.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// CaseSend is case ch <- v.
func CaseSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) sel() *selCase { return &selCase{c: chanOf(c.ch), send: true, v: c.v} }
func (c *SendCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SendCase[T]) set(interface{}, bool, reflect.Value) {}

// Select is a select statement, the result is the index of the case or -1 for the default.
func Select(def bool, cases ...Case) int {
	if !Active() {
		rs := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rs = append(rs, c.real())
		}
		if def {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, r, ok := reflect.Select(rs)
		if i == len(cases) {
			return -1
		}
		cases[i].set(nil, ok, r)
		return i
	}
	o := &opSelect{def: def, name: "select"}
	for _, c := range cases {
		o.cases = append(o.cases, c.sel())
	}
	i, v, ok := doSelect(o)
	if i >= 0 {
		cases[i].set(v, ok, reflect.Value{})
	}
	return i
}

// MapOrders makes the order of the iteration over maps a decision. Otherwise the keys come in sorted order.
var MapOrders bool

// MapIter iterates over a map.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	n    int
}

// IterMap is used for k, v := range m.
func IterMap[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIter[K, V]) {
	it = &MapIter[K, V]{m: m}
	for key := range m {
		it.keys = append(it.keys, key)
	}
	if len(it.keys) > 1 {
		names := make([]string, len(it.keys))
		for i, key := range it.keys {
			names[i] = fmt.Sprint(key)
		}
		sort.Sort(&byName[K]{it.keys, names})
	}
	return k, v, it
}

type byName[K comparable] struct {
	keys  []K
	names []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

// Next gets the next entry.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		// entries which have been deleted in the meantime are not visited
		left := it.keys[:0:0]
		for _, key := range it.keys {
			if _, ok := it.m[key]; ok {
				left = append(left, key)
			}
		}
		if it.keys = left; len(left) == 0 {
			break
		}
		i := 0
		if MapOrders {
			i = Choose(len(left))
		}
		key := left[i]
		it.keys = append(left[:i:i], left[i+1:]...)
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = it.m[key]
		}
		return true
	}
	return false
}

// MapKeys is used for v.MapKeys() of package reflect.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	if MapOrders {
		for i := range keys {
			if n := len(keys) - i; n > 1 {
				j := i + Choose(n)
				key := keys[j]
				copy(keys[i+1:j+1], keys[i:j])
				keys[i] = key
			}
		}
	}
	return keys
}
