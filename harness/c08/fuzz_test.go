package c08

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzPeer(f *testing.F) { h.Fuzz(f, TestPeer) }
func FuzzRaw(f *testing.F)  { h.Fuzz(f, TestRaw) }
