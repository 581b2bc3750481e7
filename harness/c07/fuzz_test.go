package c07

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzHandshake(f *testing.F) { h.Fuzz(f, TestHandshake) }
func FuzzPost(f *testing.F)      { h.Fuzz(f, TestPost) }
