package expvar

import (
	"fmt"
	"sync"

	zzsync "github.com/siebenmann/sinksmtp/zz/sync"
)

type Var interface{ String() string }

var mu sync.Mutex

// point lets others run before a counter is read or set: a program doing one
// after the other may lose counts.
var point zzsync.Mutex

type Int struct{ i int64 }

func (v *Int) Add(d int64) {
	mu.Lock()
	v.i += d
	mu.Unlock()
}
func (v *Int) Set(d int64) {
	point.Lock()
	point.Unlock()
	mu.Lock()
	v.i = d
	mu.Unlock()
}
func (v *Int) Value() int64 {
	point.Lock()
	point.Unlock()
	mu.Lock()
	defer mu.Unlock()
	return v.i
}
func (v *Int) String() string { return fmt.Sprintf("%d", v.Value()) }

type String struct{ s string }

func (v *String) Set(s string) {
	mu.Lock()
	v.s = s
	mu.Unlock()
}
func (v *String) Value() string {
	mu.Lock()
	defer mu.Unlock()
	return v.s
}
func (v *String) String() string { return v.Value() }

type Func func() interface{}

func (f Func) Value() interface{} { return f() }
func (f Func) String() string     { return "func" }

type KeyValue struct {
	Key   string
	Value Var
}

type Map struct {
	keys []string
	vals []Var
}

func (m *Map) Init() *Map {
	mu.Lock()
	defer mu.Unlock()
	m.keys, m.vals = nil, nil
	return m
}
func (m *Map) find(k string) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}
func (m *Map) Get(k string) Var {
	mu.Lock()
	defer mu.Unlock()
	if i := m.find(k); i >= 0 {
		return m.vals[i]
	}
	return nil
}
func (m *Map) Set(k string, v Var) {
	mu.Lock()
	defer mu.Unlock()
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}
func (m *Map) Delete(k string) {
	mu.Lock()
	defer mu.Unlock()
	if i := m.find(k); i >= 0 {
		m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
		m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
	}
}
func (m *Map) Add(k string, d int64) {
	mu.Lock()
	defer mu.Unlock()
	i := m.find(k)
	if i < 0 {
		i = len(m.keys)
		m.keys = append(m.keys, k)
		m.vals = append(m.vals, new(Int))
	}
	if v, ok := m.vals[i].(*Int); ok {
		v.i += d
	}
}
func (m *Map) Do(f func(KeyValue)) {
	for i := range m.keys {
		f(KeyValue{m.keys[i], m.vals[i]})
	}
}
func (m *Map) String() string { return "map" }

var published Map

func NewMap(name string) *Map {
	m := new(Map).Init()
	Publish(name, m)
	return m
}

func NewInt(name string) *Int {
	m := new(Int)
	Publish(name, m)
	return m
}

func NewString(name string) *String {
	m := new(String)
	Publish(name, m)
	return m
}

func Publish(name string, v Var) { published.Set(name, v) }
func Get(name string) Var        { return published.Get(name) }
func Do(f func(KeyValue))        { published.Do(f) }
