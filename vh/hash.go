package vh

import (
	"math"
	"reflect"
	"sort"
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

type hasher struct {
	h    uint64
	ptrs map[unsafe.Pointer]uint64
	n    int
}

func (h *hasher) u(x uint64) {
	h.h = (h.h ^ x) * 0x9E3779B97F4A7C15
	h.h ^= h.h >> 29
}

// DeepHash fingerprints a whole object graph, unexported fields included, up to pointer identity.
func DeepHash(vs ...interface{}) uint64 {
	h := &hasher{h: 1469598103934665603, ptrs: map[unsafe.Pointer]uint64{}}
	for _, v := range vs {
		h.val(reflect.ValueOf(v))
	}
	return h.h
}

// DeepSize counts the values reachable from v.
func DeepSize(v interface{}) int {
	h := &hasher{h: 1, ptrs: map[unsafe.Pointer]uint64{}}
	h.val(reflect.ValueOf(v))
	return h.n
}

func (h *hasher) ptr(p unsafe.Pointer) (seen bool) {
	if p == nil {
		h.u(3)
		return true
	}
	if id, ok := h.ptrs[p]; ok {
		h.u(id)
		return true
	}
	h.ptrs[p] = uint64(len(h.ptrs)) + 1000
	h.u(5)
	return false
}

var epType = reflect.TypeOf(rt.Ep{})

func (h *hasher) val(v reflect.Value) {
	h.n++
	if h.n > 200000 {
		panic("vh: object graph too large to fingerprint")
	}
	if !v.IsValid() {
		h.u(1)
		return
	}
	h.u(uint64(v.Kind()) + 17)
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.u(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.u(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.u(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.u(math.Float64bits(v.Float()))
	case reflect.String:
		h.u(FNV(v.String()))
	case reflect.Ptr:
		if h.ptr(v.UnsafePointer()) {
			return
		}
		h.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			h.u(1)
			return
		}
		h.u(FNV(v.Elem().Type().String()))
		h.val(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			h.u(1)
			return
		}
		h.u(uint64(v.Len()))
		h.u(uint64(v.Cap()))
		if v.Cap() > 0 {
			h.ptr(v.UnsafePointer())
		}
		v = v.Slice(0, v.Cap()) // elements beyond the length can come back by reslicing
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == epType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			h.val(v.Field(i))
		}
	case reflect.Map:
		var hs []uint64
		it := v.MapRange()
		for it.Next() {
			k := &hasher{h: 7, ptrs: h.ptrs}
			k.val(it.Key())
			k.val(it.Value())
			hs = append(hs, k.h)
			h.n += k.n
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, x := range hs {
			h.u(x)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		h.ptr(v.UnsafePointer())
	}
}
