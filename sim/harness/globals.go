//go:build go1.21

package harness

import (
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/zellyn/diskii/zverif/tick"
)

// Per-process package-level state. Simulated processes share one address
// space; the package-level variables of the repository are swapped at every
// context switch, and a new process starts from a deep copy of their initial
// values, as a freshly started program would.

func setSimNow(f func() (int64, bool)) { time.SimNow = f }

type savedVar struct{ v reflect.Value }

var pristine []reflect.Value // deep copies of the initial values

func initGlobals() {
	for _, v := range tick.Vars {
		e := reflect.ValueOf(v.Ptr).Elem()
		c := reflect.New(e.Type()).Elem()
		deepCopy(c, e, 0)
		pristine = append(pristine, c)
	}
}

// freshVars returns a set of initial values for a new process.
func freshVars() []savedVar {
	out := make([]savedVar, len(pristine))
	for i, v := range pristine {
		c := reflect.New(v.Type()).Elem()
		deepCopy(c, v, 0)
		out[i] = savedVar{c}
	}
	return out
}

func saveVars(into []savedVar) []savedVar {
	if into == nil {
		into = make([]savedVar, len(tick.Vars))
	}
	for i, v := range tick.Vars {
		e := reflect.ValueOf(v.Ptr).Elem()
		if !into[i].v.IsValid() {
			into[i].v = reflect.New(e.Type()).Elem()
		}
		into[i].v.Set(e)
	}
	return into
}

func restoreVars(from []savedVar) {
	if from == nil {
		return
	}
	for i, v := range tick.Vars {
		reflect.ValueOf(v.Ptr).Elem().Set(from[i].v)
	}
}

func deepType(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, "github.com/zellyn/diskii") || p == "main" || p == "bytes" || p == "strings" || p == "sync"
}

func deepCopy(dst, src reflect.Value, depth int) {
	if depth > 40 {
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		switch src.Type().Elem().Kind() {
		case reflect.Struct, reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Array:
			for i := 0; i < src.Len(); i++ {
				deepCopy(n.Index(i), open(src.Index(i)), depth+1)
			}
		default:
			reflect.Copy(n, src)
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			deepCopy(dst.Index(i), open(src.Index(i)), depth+1)
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMapWithSize(src.Type(), src.Len())
		it := src.MapRange()
		for it.Next() {
			v := reflect.New(src.Type().Elem()).Elem()
			deepCopy(v, it.Value(), depth+1)
			n.SetMapIndex(it.Key(), v)
		}
		dst.Set(n)
	case reflect.Struct:
		if !deepType(src.Type()) || !src.CanAddr() {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			deepCopy(open(dst.Field(i)), open(src.Field(i)), depth+1)
		}
	case reflect.Ptr:
		if src.IsNil() || !deepType(src.Type().Elem()) {
			dst.Set(src)
			return
		}
		n := reflect.New(src.Type().Elem())
		deepCopy(n.Elem(), src.Elem(), depth+1)
		dst.Set(n)
	default:
		dst.Set(src)
	}
}

// open makes an unexported field of an addressable value accessible.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanInterface() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}
