package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"testing/cryptotest"
	"time"

	"pgregory.net/rapid"
)

// Tier and seed come from the environment.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func Seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// Ev counts what a run covered.
type Ev struct {
	mu       sync.Mutex
	Evals    int               `json:"evaluations"`
	Distinct map[uint64]bool   `json:"-"`
	Keys     []uint64          `json:"keys"`
	Classes  map[string]int    `json:"classes"`
	Samples  []string          `json:"samples"`
	Known    map[string]int    `json:"known"`
	Notes    map[string]string `json:"notes"`
}

var E = &Ev{Distinct: map[uint64]bool{}, Classes: map[string]int{}, Known: map[string]int{}, Notes: map[string]string{}}

// Case records one evaluated case.  key describes it; nontrivial follows the
// check's stated rule.
func Case(nontrivial bool, format string, args ...any) {
	E.mu.Lock()
	defer E.mu.Unlock()
	E.Evals++
	if !nontrivial {
		E.Classes["trivial"]++
		return
	}
	key := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	f.Write([]byte(key))
	k := f.Sum64()
	if !E.Distinct[k] {
		E.Distinct[k] = true
		if len(E.Samples) < 4 || (len(E.Distinct)%97 == 0 && len(E.Samples) < 10) {
			if len(key) > 600 {
				key = key[:600] + "..."
			}
			E.Samples = append(E.Samples, key)
		}
	}
}

// Label counts a class of cases.
func Label(format string, args ...any) {
	E.mu.Lock()
	E.Classes[fmt.Sprintf(format, args...)]++
	E.mu.Unlock()
}

// KnownFinding records that a listed finding was met.
func KnownFinding(id string) {
	E.mu.Lock()
	E.Known[id]++
	E.mu.Unlock()
}

func writeEv() {
	p := os.Getenv("VERIF_EV")
	if p == "" {
		return
	}
	for k := range E.Distinct {
		E.Keys = append(E.Keys, k)
	}
	b, err := json.Marshal(E)
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

// Main is every check's TestMain.
func Main(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard) // what the code logs, if MINT_LOG tells it to
	code := m.Run()
	writeEv()
	os.Exit(code)
}

// Scale reads a multiplier for case counts.
func scale(n int) int {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			n = int(float64(n)*f + 0.5)
		}
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Check runs prop under rapid with a case count per tier.
func Check(t *testing.T, quick, thorough int, prop func(t *rapid.T)) {
	t.Helper()
	n := quick
	if Thorough() {
		n = thorough
	}
	one := func(rt *rapid.T) {
		defer time.AfterFunc(caseLimit, wedged).Stop()
		seed := rapid.Uint64().Draw(rt, "crypto seed")
		SetRandom(t, seed)
		prop(rt)
	}
	if fuzzInput != nil {
		rapid.MakeFuzz(one)(t, fuzzInput)
		return
	}
	flag.Set("rapid.checks", strconv.Itoa(scale(n)))
	rapid.Check(t, one)
}

// fuzzInput is what the draws of the case that Check runs are made of.
var fuzzInput []byte

// Fuzz lets the fuzzing engine choose the draws of a test's cases, by the
// coverage of the library that they reach.
func Fuzz(f *testing.F, test func(*testing.T)) {
	r := NewRng(Seed() ^ 0xf022)
	for i := 0; i < 24; i++ {
		f.Add(r.Bytes(1024 << (i % 4)))
	}
	f.Fuzz(func(t *testing.T, in []byte) {
		fuzzInput = append([]byte{0}, in...)[1:]
		defer func() { fuzzInput = nil }()
		test(t)
	})
}

// caseLimit is far beyond what any case takes: a case that reaches it hangs.
const caseLimit = 120 * time.Second

func wedged() {
	b := make([]byte, 1<<20)
	fmt.Printf("WEDGED: a case runs for more than %v\n%s\n", caseLimit, b[:runtime.Stack(b, true)])
	os.Exit(3)
}

// Rng is deterministic randomness for reference endpoints.
type Rng struct{ r *rand.ChaCha8 }

func NewRng(seed uint64) *Rng {
	var k [32]byte
	for i := 0; i < 8; i++ {
		k[i] = byte(seed >> (8 * i))
	}
	return &Rng{rand.NewChaCha8(k)}
}

func (r *Rng) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.r.Read(b)
	return b
}
func (r *Rng) IntN(n int) int { return int(r.r.Uint64() % uint64(n)) }

// SetRandom makes all cryptographic randomness of the process a function of seed.
func SetRandom(t *testing.T, seed uint64) {
	cryptotest.SetGlobalRandom(t, seed)
}

// Data draws a byte string of up to max bytes with edge-biased length; edges
// are lengths worth hitting.
func Data(t *rapid.T, label string, max int, edges ...int) []byte {
	n := 0
	switch k := rapid.IntRange(0, 9).Draw(t, label+" size class"); {
	case k < 4 && len(edges) > 0:
		n = rapid.SampledFrom(edges).Draw(t, label+" edge")
	case k < 7:
		n = rapid.IntRange(0, min(max, 64)).Draw(t, label+" small")
	default:
		n = rapid.IntRange(0, max).Draw(t, label+" len")
	}
	if n > max {
		n = max
	}
	if n <= 24 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	return NewRng(rapid.Uint64().Draw(t, label+" seed")).Bytes(n)
}

// Mutate damages an encoding: truncation, edit, insertion, deletion, length
// field changes.
func Mutate(t *rapid.T, in []byte) []byte {
	out := append([]byte{}, in...)
	pos := func(n int) int { // prefer the front, where lengths live
		if n > 64 && rapid.IntRange(0, 3).Draw(t, "deep") != 0 {
			n = 64
		}
		return rapid.IntRange(0, n-1).Draw(t, "pos")
	}
	for i := rapid.IntRange(1, 2).Draw(t, "mutations"); i > 0; i-- {
		if len(out) == 0 {
			return append(out, rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "bytes")...)
		}
		switch rapid.IntRange(0, 6).Draw(t, "mutation") {
		case 0:
			out = out[:pos(len(out))]
		case 1:
			out[pos(len(out))] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 0x1f, 0x20, 0x21, 0x7f, 0x80, 0xfe, 0xff}).Draw(t, "value")
		case 2:
			out[pos(len(out))] += byte(rapid.SampledFrom([]int{1, 255, 2, 254}).Draw(t, "delta"))
		case 3:
			p := pos(len(out) + 1)
			out = append(out[:p:p], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "inserted"), out[p:]...)...)
		case 4:
			p := pos(len(out))
			n := min(len(out)-p, rapid.IntRange(1, 4).Draw(t, "deleted"))
			out = append(out[:p:p], out[p+n:]...)
		case 5:
			out = append(out, rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "appended")...)
		case 6:
			a, b := pos(len(out)), pos(len(out))
			out = append(out[:a:a], out[b:]...)
		}
	}
	return out
}
