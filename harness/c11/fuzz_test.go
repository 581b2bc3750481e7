package c11

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzDecodeAnything(f *testing.F) { h.Fuzz(f, TestDecodeAnything) }
func FuzzRoundTrip(f *testing.F)      { h.Fuzz(f, TestRoundTrip) }
