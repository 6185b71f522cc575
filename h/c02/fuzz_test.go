package c02

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// FuzzDecoder is used for coverage-guided fuzzing (thorough tier).  The
// environment variable VERIF_DECODER selects the decoder.
func FuzzDecoder(f *testing.F) {
	name := os.Getenv("VERIF_DECODER")
	if name == "" {
		f.Skip("used in the thorough tier only")
	}
	d := decoderFor(name)

	f.Add([]byte{})
	g := rapid.Custom(func(t *rapid.T) []byte { return valid(t, name) })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for i := range 300 {
		if b := g.Example(1000*seed + i); len(b) < 1<<15 {
			f.Add(b)
		}
	}

	// the inputs which come with the fuzz tests of the repository
	files, _ := filepath.Glob("/repo/testdata/fuzz/*/*")
	for _, pat := range []string{"/repo/*/testdata/fuzz/*/*", "/repo/opentype/*/testdata/fuzz/*/*"} {
		more, _ := filepath.Glob(pat)
		files = append(files, more...)
	}
	for _, fname := range files {
		body, err := os.ReadFile(fname)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(body), "\n") {
			l = strings.TrimSpace(l)
			if s, ok := strings.CutPrefix(l, "[]byte("); ok {
				if x, err := strconv.Unquote(strings.TrimSuffix(s, ")")); err == nil && len(x) < 1<<15 {
					f.Add([]byte(x))
				}
			}
		}
	}

	f.Fuzz(func(t *testing.T, in []byte) {
		if len(in) <= 1<<16 {
			run(t, nil, d, in)
		}
	})
}

// TestFuzzInput re-runs an input found by FuzzDecoder.
func TestFuzzInput(t *testing.T) {
	name := os.Getenv("VERIF_FUZZ_INPUT")
	if name == "" {
		t.Skip("no input")
	}
	body, err := os.ReadFile(name)
	if err != nil {
		t.Fatal("HARNESS-ERROR", err)
	}
	for _, l := range strings.Split(string(body), "\n") {
		if s, ok := strings.CutPrefix(l, "[]byte("); ok {
			x, err := strconv.Unquote(strings.TrimSuffix(s, ")"))
			if err != nil {
				t.Fatal("HARNESS-ERROR", err)
			}
			run(t, nil, decoderFor(os.Getenv("VERIF_DECODER")), []byte(x))
		}
	}
}
