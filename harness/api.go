package mls

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
)

// Harness API.  Under the symbolic engine these functions are intercepted;
// compiled natively they take their values from a recorded input vector.

type vfSkip struct{}

type vfFail struct{ msg string }

type vfObs struct {
	Name string
	Val  uint64
}

type vfState struct {
	inputs   []uint64
	pos      int
	obs      []vfObs
	thorough bool
	limit    uint64
	alloc0   uint64
}

var vfCur *vfState

func vfNext() uint64 {
	if vfCur.pos >= len(vfCur.inputs) {
		vfCur.pos++
		return 0
	}
	v := vfCur.inputs[vfCur.pos]
	vfCur.pos++
	return v
}

func vfU8(name string) uint8   { return uint8(vfNext()) }
func vfU16(name string) uint16 { return uint16(vfNext()) }
func vfU32(name string) uint32 { return uint32(vfNext()) }
func vfU64(name string) uint64 { return vfNext() }
func vfBool(name string) bool  { return vfNext() == 1 }

func vfBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vfNext())
	}
	return b
}

// vfInt returns a value in [lo,hi).
func vfInt(name string, lo, hi int) int {
	v := int(vfNext())
	vfAssume(lo <= v && v < hi)
	return v
}

// vfChoice returns a value in [0,n); every value is explored separately.
func vfChoice(name string, n int) int {
	v := int(vfNext())
	vfAssume(0 <= v && v < n)
	return v
}

// vfConcrete explores every value of n separately.
func vfConcrete(n int) int { return n }

func vfAssume(ok bool) {
	if !ok {
		panic(vfSkip{})
	}
}

func vfAssert(ok bool, msg string) {
	if !ok {
		panic(vfFail{msg})
	}
}

func vfReach(label string) {}

// vfObserve records a value that the engine and the compiled code must agree
// on.
func vfObserve(name string, v uint64) {
	vfCur.obs = append(vfCur.obs, vfObs{name, v})
}

// vfBound selects a bound by tier.
func vfBound(name string, quick, thorough int) int {
	if vfCur.thorough {
		return thorough
	}
	return quick
}

// vfSteps bounds the number of instructions of the path.
func vfSteps(n int) {}

// vfMapOrder chooses the order of iterations over maps: insertion, reverse or
// rotated.  The compiled code takes any order.
func vfMapOrder(n int) {}

// vfRareKeys makes the engine generate elliptic curve signature keys with a
// leading zero: 1 in the private key, 2 and 3 in the coordinates of the public
// key.  Compiled natively such keys are found by trying.
func vfRareKeys(n int) {}

func vfSymbolic() bool { return false }

// vfAllocLimit asserts that no allocation until vfAllocCheck is larger than n
// bytes.
func vfAllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	vfCur.limit = uint64(n)
	vfCur.alloc0 = ms.TotalAlloc
}

func vfAllocCheck() {
	if vfCur.limit == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.TotalAlloc-vfCur.alloc0 > vfCur.limit {
		panic(vfFail{fmt.Sprintf("allocation out of proportion to the input: %d bytes", ms.TotalAlloc-vfCur.alloc0)})
	}
	vfCur.limit = 0
}

func vfEqual(a, b []byte) bool { return bytes.Equal(a, b) }

func vfLog(name string, v any) {}

func vfAnd(a, b bool) bool     { return a && b }
func vfOr(a, b bool) bool      { return a || b }
func vfImplies(a, b bool) bool { return !a || b }

// vfNoPanic runs f and asserts that it returns.
func vfNoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vfSkip, vfFail:
				panic(r)
			}
			vfAssert(false, what+" must not panic")
		}
	}()
	f()
}

// vfDump serialises a value: two values have the same dump exactly if they
// are deeply equal, where nil and empty slices count as equal.
func vfDump(x any) []byte {
	var b []byte
	vfDumpValue(&b, reflect.ValueOf(x))
	return b
}

func vfDumpValue(b *[]byte, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			*b = append(*b, 1)
		} else {
			*b = append(*b, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*b = binary.BigEndian.AppendUint64(*b, uint64(v.Int()))
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		*b = binary.BigEndian.AppendUint64(*b, v.Uint())
	case reflect.Uint8:
		*b = append(*b, byte(v.Uint()))
	case reflect.String, reflect.Slice:
		*b = binary.BigEndian.AppendUint32(*b, uint32(v.Len()))
		for i := 0; i < v.Len(); i++ {
			vfDumpValue(b, v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vfDumpValue(b, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vfDumpValue(b, v.Field(i))
		}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			*b = append(*b, 0)
		} else {
			*b = append(*b, 1)
			vfDumpValue(b, v.Elem())
		}
	case reflect.Invalid, reflect.Func, reflect.Map:
		*b = append(*b, 0)
	default:
		panic("vfDump of " + v.Kind().String())
	}
}

// vfUnequal reports whether a and b differ; random bytes of different origin
// are taken to differ.
func vfUnequal(a, b []byte) bool { return !vfEqual(a, b) }
