package h

import (
	"testing"
	"testing/synctest"
)

// Bubble runs f with a fake clock that starts at 2000-01-01.  Panics of f
// (including the ones rapid uses) come out of Bubble.
func Bubble(t *testing.T, f func()) {
	var p any
	bad := true
	synctest.Test(t, func(*testing.T) {
		defer func() { p = recover() }()
		f()
		bad = false
	})
	if bad {
		panic(p)
	}
}
