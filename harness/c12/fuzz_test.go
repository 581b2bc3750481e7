package c12

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzDamaged(f *testing.F)  { h.Fuzz(f, TestDamaged) }
func FuzzLockstep(f *testing.F) { h.Fuzz(f, TestLockstep) }
