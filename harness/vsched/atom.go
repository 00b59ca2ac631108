package vsched

import "unsafe"

// atomObj is the happens-before hash of a plain memory word used atomically.
type atomObj struct {
	p   unsafe.Pointer
	obj Obj
}

// AtomPoint is a scheduling point before an atomic operation on *p; read tells whether it only
// reads.
//
//go:norace
func AtomPoint(p unsafe.Pointer, read bool, what string) {
	if x == nil || x.killing {
		return
	}
	Point(what)
	i := (uintptr(p) >> 2) % chanTab
	for k := 0; ; k++ {
		a := x.atom[i]
		if a == nil {
			a = &atomObj{p: p}
			x.atom[i] = a
			x.atUsed = append(x.atUsed, int32(i))
			x.natom++
		}
		if a.p == p {
			if read {
				a.obj.R(0xa7)
			} else {
				a.obj.W(0xa8)
			}
			return
		}
		if k > chanTab {
			panic("vsched: too many atomics")
		}
		i = (i + 1) % chanTab
	}
}
