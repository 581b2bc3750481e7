package c13

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzBad(f *testing.F) { h.Fuzz(f, TestBad) }
func FuzzMix(f *testing.F) { h.Fuzz(f, TestMix) }
