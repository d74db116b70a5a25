//go:build !vreplay
// +build !vreplay

package vm

import "sync"

type smap struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

var smaps = map[*sync.Map]*smap{}

func smapOf(m *sync.Map) *smap {
	x := smaps[m]
	if x == nil {
		x = &smap{m: map[interface{}]interface{}{}}
		smaps[m] = x
	}
	return x
}

//verif:for (*sync.Map).Load
func smLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smapOf(m).m[k]
	return v, ok
}

//verif:for (*sync.Map).Store
func smStore(m *sync.Map, k, v interface{}) { smapOf(m).m[k] = v }

//verif:for (*sync.Map).Clear
func smClear(m *sync.Map) { smapOf(m).m = map[interface{}]interface{}{} }

//verif:for (*sync.Map).LoadOrStore
func smLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := smapOf(m)
	if o, ok := x.m[k]; ok {
		return o, true
	}
	x.m[k] = v
	return v, false
}

//verif:for (*sync.Map).LoadAndDelete
func smLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	x := smapOf(m)
	o, ok := x.m[k]
	delete(x.m, k)
	return o, ok
}

//verif:for (*sync.Map).Delete
func smDelete(m *sync.Map, k interface{}) { delete(smapOf(m).m, k) }

//verif:for (*sync.Map).Swap
func smSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	x := smapOf(m)
	o, ok := x.m[k]
	x.m[k] = v
	return o, ok
}

//verif:for (*sync.Map).Range
func smRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range smapOf(m).m {
		if !f(k, v) {
			return
		}
	}
}
