package harness

import "unsafe"

// A caller that spreads a slice into a call keeps the slice: the library must not write into it, neither to its elements
// nor to the free space behind them, which belongs to the caller as well.

type guard struct {
	now    []byte // the memory of the slice
	before string
}

// arg copies the arguments of a call into a slice with free space behind it, and watches that slice.
func arg[T any](e *Env, xs []T) []T {
	r := make([]T, len(xs), len(xs)+2)
	copy(r, xs)
	if e != nil && e.guarded {
		var t T
		all := r[:cap(r)]
		now := unsafe.Slice((*byte)(unsafe.Pointer(&all[0])), len(all)*int(unsafe.Sizeof(t)))
		e.guards = append(e.guards, guard{now, string(now)})
	}
	return r
}

// intact tells whether no argument slice has been written to.
func (e *Env) intact() bool {
	for _, g := range e.guards {
		if string(g.now) != g.before {
			return false
		}
	}
	return true
}
