package c28

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzOffer(f *testing.F) { h.Fuzz(f, TestOffer) }
