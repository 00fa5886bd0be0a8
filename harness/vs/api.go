//go:build go1.21

// Package vs is what harnesses use to name symbolic inputs, state assumptions and
// assertions, and drive the environment. The bodies below run natively, when a path's
// concrete inputs are replayed against the real code; the engine gives the same functions
// their symbolic meaning.
package vs

import (
	"fmt"
	"os"
	"reflect"
	"strings"
)

// Packet is a datagram the code under test wrote to its socket.
type Packet struct {
	IP   []byte
	Port int
	Data []byte
	At   int64 // virtual nanoseconds since the start
	Sock int
}

// Bind is a socket the code under test opened.
type Bind struct {
	IP   []byte
	Port int
}

var (
	vals   map[string]uint64
	seen   = map[string]int{}
	thoro  bool
	missed []string
)

func in(name string) uint64 {
	n := seen[name]
	seen[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n+1)
	}
	v, ok := vals[name]
	if !ok {
		missed = append(missed, name)
	}
	return v
}

func Bool(name string) bool  { return in(name) != 0 }
func U8(name string) uint8   { return uint8(in(name)) }
func U16(name string) uint16 { return uint16(in(name)) }
func U32(name string) uint32 { return uint32(in(name)) }
func U64(name string) uint64 { return in(name) }

// Int is an integer between lo and hi.
func Int(name string, lo, hi int) int { return lo + int(in(name)) }

// Choose is 0..n-1; the engine explores each value separately.
func Choose(name string, n int) int { return int(in(name)) }

// Conc makes the engine explore each feasible value of v separately.
func Conc(v int) int { return v }

// Bytes is a slice of min..max arbitrary bytes with no spare capacity.
func Bytes(name string, min, max int) []byte {
	n := min + int(in(name+".len"))
	b := make([]byte, n)
	for i := 0; i < max; i++ {
		v := byte(in(fmt.Sprintf("%s[%d]", name, i)))
		if i < n {
			b[i] = v
		}
	}
	return b
}

// BytesN is a slice of n arbitrary bytes.
func BytesN(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Fill gives every exported integer and bool field reachable from *ptr (through structs
// and arrays) an arbitrary value.
func Fill(name string, ptr interface{}) { fill(name, reflect.ValueOf(ptr).Elem()) }

func fill(name string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(in(name) != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := in(name)
		sh := 64 - v.Type().Bits()
		v.SetInt(int64(x<<uint(sh)) >> uint(sh))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(in(name))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			n := name + "." + f.Name
			if f.Anonymous {
				n = name
			}
			fill(n, v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(fmt.Sprintf("%s[%d]", name, i), v.Index(i))
		}
	}
}

func Assume(c bool) {
	if !c {
		finish(11, "ASSUME")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		finish(10, "FAIL "+msg)
	}
}

// Reach marks a place that must be reachable for the harness not to be vacuous.
func Reach(label string) {}

// Bound states a bound of the harness, for the evidence.
func Bound(text string) {}

// Observe records a value for comparison between the engine and the real code.
func Observe(name string, v interface{}) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		n := 0
		if rv.Bool() {
			n = 1
		}
		out("OBS %s=%d", name, n)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		out("OBS %s=%d", name, rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		out("OBS %s=%d", name, rv.Uint())
	case reflect.String:
		out("OBS %s=%d:%x", name, rv.Len(), rv.String())
	case reflect.Slice, reflect.Array:
		var sb strings.Builder
		for i := 0; i < rv.Len(); i++ {
			fmt.Fprintf(&sb, "%02x", rv.Index(i).Uint())
		}
		out("OBS %s=%d:%s", name, rv.Len(), sb.String())
	default:
		out("OBS %s=?", name)
	}
}

// Thorough says whether the deeper bounds are in force.
func Thorough() bool { return thoro }

// Tier returns q for quick checks and t for thorough ones.
func Tier(q, t int) int {
	if thoro {
		return t
	}
	return q
}

// And, Or, Imp and Not do not short-circuit: they build one formula instead of forking.
func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Same compares two comparable values without forking.
func Same(a, b interface{}) bool { return a == b }

// Peek is b[i], or 0 beyond the end, without forking.
func Peek(b []byte, i int) byte {
	if i < len(b) {
		return b[i]
	}
	return 0
}

func out(format string, a ...interface{}) {
	fmt.Fprintf(os.Stdout, "@@"+format+"\n", a...)
}
