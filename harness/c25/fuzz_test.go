package c25

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzConnected(f *testing.F) { h.Fuzz(f, TestConnected) }
