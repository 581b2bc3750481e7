package c10

import (
	"testing"

	"verif/h"
)

// The same cases, chosen by the coverage that they reach.
func FuzzMessages(f *testing.F)   { h.Fuzz(f, TestMessages) }
func FuzzExtensions(f *testing.F) { h.Fuzz(f, TestExtensions) }
func FuzzStream(f *testing.F)     { h.Fuzz(f, TestStream) }
