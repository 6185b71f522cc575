// Package c19 checks the textual description language for lookups.
package c19

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"

	"seehuhn.de/go/sfnt/verif/gen"
	"seehuhn.de/go/sfnt/verif/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type fataler interface{ Fatalf(string, ...any) }

// settle waits until the number of goroutines has gone down to base.
func settle(t fataler, base int, text string) {
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		runtime.Gosched()
	}
	for i := 0; i < 300; i++ {
		time.Sleep(time.Duration(min(i+1, 10)) * time.Millisecond)
		if runtime.NumGoroutine() <= base {
			return
		}
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	s := string(buf)
	if i := strings.Index(s, "builder."); i >= 0 {
		s = s[max(0, i-200):]
	}
	t.Fatalf("%d goroutines are left running after parsing %q\n%.1000s", runtime.NumGoroutine()-base, text, s)
}

type outcome struct {
	ll       gtab.LookupList
	err      error
	panicked any
}

// parse calls builder.Parse from one or several goroutines.
func parse(t *rapid.T, f *sfnt.Font, text string) (gtab.LookupList, error) {
	procs := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 16}).Draw(t, "procs")
	copies := rapid.SampledFrom([]int{1, 1, 1, 2, 5}).Draw(t, "copies")
	if runtime.GOMAXPROCS(0) != procs {
		runtime.GOMAXPROCS(procs)
	}
	pbt.Doing(func() string { return fmt.Sprintf("Parse of %q with GOMAXPROCS=%d", text, procs) })
	base := runtime.NumGoroutine()
	c := make(chan outcome, copies)
	for i := 0; i < copies; i++ {
		run := func() {
			var res outcome
			defer func() {
				res.panicked = recover()
				c <- res
			}()
			res.ll, res.err = builder.Parse(f, text)
		}
		if copies > 1 {
			go run()
		} else {
			run()
		}
	}
	first := <-c
	for i := 1; i < copies; i++ {
		next := <-c
		if fmt.Sprint(next.err) != fmt.Sprint(first.err) || gen.Dump(next.ll) != gen.Dump(first.ll) {
			t.Fatalf("two calls of Parse for %q disagree:\n%v %v\n%v %v", text, gen.Dump(first.ll), first.err, gen.Dump(next.ll), next.err)
		}
	}
	if first.panicked != nil {
		t.Fatalf("Parse panics for %q: %v", text, first.panicked)
	}
	settle(t, base, text)
	return first.ll, first.err
}

var errPat = regexp.MustCompile(`^(\d+):`)

// checkError makes sure that an error carries a sensible line number.
func checkError(t fataler, text string, err error) int {
	m := errPat.FindStringSubmatch(err.Error())
	if m == nil {
		t.Fatalf("error without line number for %q: %v", text, err)
	}
	line, _ := strconv.Atoi(m[1])
	if n := strings.Count(text, "\n") + 1; line < 1 || line > n {
		t.Fatalf("the text %q has %d lines, but the error is %q", text, n, err.Error())
	}
	return line
}

func explain(f *sfnt.Font, ll gtab.LookupList, gpos bool) string {
	ff := f.Clone()
	if gpos {
		ff.Gsub = nil
		ff.Gpos = &gtab.Info{LookupList: ll}
		return strings.Join(builder.ExplainGpos(ff), "\n")
	}
	ff.Gpos = nil
	ff.Gsub = &gtab.Info{LookupList: ll}
	return builder.ExplainGsub(ff)
}

func classify(c *pbt.Case, ll gtab.LookupList) {
	for _, l := range ll {
		c.ClassIf(len(l.Subtables) > 1, "several subtables")
		c.ClassIf(l.Meta.LookupFlags != 0, "lookup flags")
		for _, s := range l.Subtables {
			c.Class(strings.TrimPrefix(fmt.Sprintf("%T", s), "*"))
		}
	}
	c.ClassIf(len(ll) > 1, "several lookups")
}

func fontClass(c *pbt.Case, tf *testFont) {
	for _, s := range strings.Fields(tf.kind) {
		c.Class("font " + s)
	}
}

// TestRoundTrip checks that Parse is the inverse of ExplainGsub and
// ExplainGpos.
func TestRoundTrip(t *testing.T) {
	pbt.Check(t, 8000, 400000, func(t *rapid.T, c *pbt.Case) {
		tf := drawFont(t)
		gpos := rapid.Bool().Draw(t, "gpos")
		g := &modelGen{t: t, tf: tf}
		ll := g.lookupList(gpos)
		orig := gen.Dump(ll)
		text := explain(tf.f, ll, gpos)
		if d := gen.Dump(ll); d != orig {
			t.Fatalf("Explain modifies the lookups:\n%s\n%s", orig, d)
		}
		if t2 := explain(tf.f, ll, gpos); t2 != text {
			t.Fatalf("Explain is not deterministic:\n%s\n%s", text, t2)
		}
		fontClass(c, tf)
		classify(c, ll)
		c.NonTrivial([]byte(text))
		c.Sample(func() string { return tf.kind + ": " + text })
		got, err := parse(t, tf.f, text)
		if err != nil {
			t.Fatalf("cannot parse the description of %s\n%q\nfont %s\n%v", orig, text, tf.kind, err)
		}
		if d := gen.Dump(got); d != orig {
			t.Fatalf("font %s, description %q:\nexpected %s\ngot      %s", tf.kind, text, orig, d)
		}
	})
}

// TestMeaning parses texts which were written independently of the library,
// using all forms of notation.
func TestMeaning(t *testing.T) {
	pbt.Check(t, 8000, 400000, func(t *rapid.T, c *pbt.Case) {
		tf := drawFont(t)
		gpos := rapid.Bool().Draw(t, "gpos")
		g := &modelGen{t: t, tf: tf}
		ll := g.lookupList(gpos)
		r := &renderer{t: t, tf: tf}
		r.lookups(ll, gpos)
		text := r.text()
		fontClass(c, tf)
		classify(c, ll)
		c.NonTrivial([]byte(text))
		c.Sample(func() string { return tf.kind + ": " + text })
		c.ClassIf(strings.Contains(text, "#"), "comment or #")
		got, err := parse(t, tf.f, text)
		want := gen.Dump(ll)
		if err != nil {
			t.Fatalf("cannot parse text for %s\n%q\nfont %s\n%v", want, text, tf.kind, err)
		}
		if d := gen.Dump(got); d != want {
			t.Fatalf("font %s, text %q:\nexpected %s\ngot      %s", tf.kind, text, want, d)
		}
	})
}

// isGpos returns the lookups of one of the two tables.
func split(ll gtab.LookupList) (gsub, gpos gtab.LookupList) {
	for _, l := range ll {
		pos := false
		for _, s := range l.Subtables {
			if strings.Contains(fmt.Sprintf("%T", s), "Gpos") {
				pos = true
			}
		}
		if pos {
			gpos = append(gpos, l)
		} else {
			gsub = append(gsub, l)
		}
	}
	return
}

// checkAny parses arbitrary text and checks the result.
func checkAny(t *rapid.T, c *pbt.Case, tf *testFont, text string) (ok bool) {
	ll, err := parse(t, tf.f, text)
	if err != nil {
		checkError(t, text, err)
		if ll != nil {
			t.Fatalf("Parse returns lookups together with an error for %q", text)
		}
		c.Class("rejected")
		return false
	}
	c.Class("accepted")
	gsub, gpos := split(ll)
	for i, part := range []gtab.LookupList{gsub, gpos} {
		if len(part) == 0 {
			continue
		}
		c.Class("accepted with lookups")
		text2 := explain(tf.f, part, i == 1)
		ll2, err := parse(t, tf.f, text2)
		if err != nil {
			t.Fatalf("%q is accepted, but its description %q is not: %v", text, text2, err)
		}
		if a, b := gen.Dump(part), gen.Dump(ll2); a != b {
			t.Fatalf("%q means\n%s\nbut its description %q means\n%s", text, a, text2, b)
		}
	}
	return true
}

var soup = strings.Split("GSUB1~GSUB2~GSUB3~GSUB4~GSUB5~GSUB6~GPOS1~GPOS2~GPOS3~GPOS4~GSUB7~GPOS9~:~;~,~->~-~[~]~/~|~||~@~&~=~_~\n~\n~ ~"+
	"marks~ligs~base~lig~rtl~class~inputclass~backtrackclass~lookaheadclass~first~second~to~mark~x~y~dx~dy~"+
	"A~B~C~Z~a~α~.notdef~A.alt~0~1~2~3~17~+5~-7~65535~65536~70000~-32769~32768~99999999999999999999~+~"+
	`""~"A"~"AB"~"A\"~"~"\n"~"é"~"�"~`+"\"\x00\"~\x00~\x80~\xff~'~!~%~(~*~.~#~# c\n~<~>~\\~`~{~\u200b~\u00a0~\u2028~中~1@0~0@0~A -> B~A-C~x+1~_~:c:~::", "~")

// mutate changes one or a few tokens.
func mutate(t *rapid.T, toks []string) []string {
	toks = append([]string{}, toks...)
	for range rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "numMut") {
		i := rapid.IntRange(0, len(toks)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 7).Draw(t, "op") {
		case 0:
			toks = append(toks[:i], toks[i+1:]...)
		case 1:
			toks = append(toks[:i], append([]string{toks[i]}, toks[i:]...)...)
		case 2:
			j := rapid.IntRange(0, len(toks)-1).Draw(t, "pos2")
			toks[i], toks[j] = toks[j], toks[i]
		case 3:
			toks[i] = rapid.SampledFrom(soup).Draw(t, "tok")
		case 4:
			toks = append(toks[:i], append([]string{rapid.SampledFrom(soup).Draw(t, "tok")}, toks[i:]...)...)
		case 5:
			toks = toks[:i+1]
		case 7:
			// repeat a stretch of text
			j := min(len(toks), i+rapid.IntRange(2, 14).Draw(t, "stretch"))
			toks = append(toks[:j:j], toks[i:]...)
		case 6:
			if n := len(toks[i]); n > 1 {
				k := rapid.IntRange(1, n-1).Draw(t, "cut")
				toks[i] = toks[i][:k]
			}
		}
		if len(toks) == 0 {
			toks = []string{":"}
		}
	}
	return toks
}

// TestText checks that arbitrary texts are handled gracefully.
func TestText(t *testing.T) {
	pbt.Check(t, 20000, 800000, func(t *rapid.T, c *pbt.Case) {
		tf := drawFont(t)
		var text string
		kind := rapid.SampledFrom([]string{"mutated", "mutated", "mutated", "soup", "lookup soup", "bytes", "runes", "prefix"}).Draw(t, "kind")
		valid := func() *renderer {
			gpos := rapid.Bool().Draw(t, "gpos")
			g := &modelGen{t: t, tf: tf}
			r := &renderer{t: t, tf: tf}
			r.lookups(g.lookupList(gpos), gpos)
			return r
		}
		switch kind {
		case "mutated":
			r := valid()
			r.toks = mutate(t, r.toks)
			text = r.text()
		case "prefix":
			r := valid()
			text = r.text()
			text = text[:rapid.IntRange(0, len(text)).Draw(t, "cut")]
		case "soup", "lookup soup":
			var b strings.Builder
			if kind == "lookup soup" {
				b.WriteString(rapid.SampledFrom(soup[:10]).Draw(t, "start") + ": ")
			}
			for range rapid.IntRange(0, 30).Draw(t, "len") {
				b.WriteString(rapid.SampledFrom(soup).Draw(t, "tok"))
				if rapid.IntRange(0, 3).Draw(t, "space") > 0 {
					b.WriteByte(' ')
				}
			}
			text = b.String()
		case "bytes":
			text = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
			if rapid.Bool().Draw(t, "intro") {
				text = "GSUB1:" + text
			}
		case "runes":
			text = rapid.StringN(0, 40, 200).Draw(t, "string")
			if rapid.Bool().Draw(t, "intro") {
				text = "GPOS1:" + text
			}
		}
		c.Class("text " + kind)
		c.NonTrivial([]byte(text))
		c.Sample(func() string { return text })
		checkAny(t, c, tf, text)
	})
}

// TestErrors inserts known errors into valid texts.
func TestErrors(t *testing.T) {
	pbt.Check(t, 8000, 300000, func(t *rapid.T, c *pbt.Case) {
		tf := drawFont(t)
		gpos := rapid.Bool().Draw(t, "gpos")
		g := &modelGen{t: t, tf: tf}
		r := &renderer{t: t, tf: tf}
		r.lookups(g.lookupList(gpos), gpos)
		toks := r.toks

		// bad text at an arbitrary position
		kind := rapid.SampledFrom([]string{"illegal", "string", "flag", "name", "gid", "rune", "class", "int16"}).Draw(t, "kind")
		pos := -1
		bad := ""
		switch kind {
		case "illegal":
			pos = rapid.IntRange(0, len(toks)).Draw(t, "pos")
			bad = rapid.SampledFrom([]string{"%", "!", "(", "*", "'", ">", "\u200b", "€", "\x7f", "\xff"}).Draw(t, "bad")
		case "string":
			pos = rapid.IntRange(0, len(toks)).Draw(t, "pos")
			bad = rapid.SampledFrom([]string{"\"", "\"A\\\"", "\"AB", "\"\\"}).Draw(t, "bad")
			bad += "\n"
		case "flag":
			// at the first flag of a lookup, or before any lookup
			bad = rapid.SampledFrom([]string{"-mark", "-lig", "-rtl", "-bases", "-Marks", "-xyz"}).Draw(t, "bad")
			for i := range toks {
				if strings.HasPrefix(toks[i], "GSUB") || strings.HasPrefix(toks[i], "GPOS") {
					pos = i + 1
					if pos < len(toks) && toks[pos] == ":" {
						pos++
					}
					if i == 0 || rapid.Bool().Draw(t, "here") {
						break
					}
				}
			}
		case "name":
			// inside a set every word must be a glyph name
			bad = rapid.SampledFrom([]string{"nosuchglyph", "A.unknown", "ΩΩ"}).Draw(t, "bad")
			pos = inGlyphs(t, toks)
		case "gid":
			bad = rapid.SampledFrom([]string{itoa(tf.n), itoa(tf.n + 1), "65535", "65536", itoa(65536 + tf.n/2), "-1", "4294967296", "99999999999999999999"}).Draw(t, "bad")
			pos = inGlyphs(t, toks)
		case "rune":
			bad = rapid.SampledFrom([]string{"\"ß\"", "\"\u0378\"", "\"\U0001F9FF\"", "\"ßABCDE\"", "\"ABßCDEFGHIJKLMN\""}).Draw(t, "bad")
			pos = inGlyphs(t, toks)
		case "class":
			bad = ":nosuchclass:"
			for i := range toks {
				// the first class name in the rules
				if toks[i] == "/" && i+1 < len(toks) && toks[i+1] == ":" {
					pos = i + 1
				}
			}
		case "int16":
			bad = rapid.SampledFrom([]string{"x 32768", "y-32769", "dx+65536", "x 4294967296", "y 99999999999999999999", "dx +"}).Draw(t, "bad")
			for i := range toks {
				if toks[i] == "->" && gpos && (i == 0 || true) {
					pos = i + 1
				}
			}
		}
		if pos < 0 {
			c.Class("no place")
			return
		}
		r.toks = append(append(append([]string{}, toks[:pos]...), "\x02"), toks[pos:]...)
		text := r.text()
		// All white space around the bad text is optional.
		i := strings.IndexByte(text, 2)
		text = text[:i] + " " + bad + " " + text[i+1:]
		line := strings.Count(text[:i], "\n") + 1
		c.Class("bad " + kind)
		c.NonTrivial([]byte(text))
		c.Sample(func() string { return text })

		ll, err := parse(t, tf.f, text)
		if err == nil {
			t.Fatalf("%q (%s) is accepted as %s, font %s", text, kind, gen.Dump(ll), tf.kind)
		}
		got := checkError(t, text, err)
		if (kind == "illegal" || kind == "string") && got != line {
			t.Fatalf("wrong line number for %q in %q: %d instead of %d: %v", bad, text, got, line, err)
		}
		if got < line {
			t.Fatalf("error %q is before the mistake %q (line %d) in %q", err.Error(), bad, line, text)
		}
	})
}

// inGlyphs returns a position in a glyph set, or -1.
func inGlyphs(t *rapid.T, toks []string) int {
	var cand []int
	for i := range toks {
		if toks[i] == "[" {
			cand = append(cand, i+1)
		} else if toks[i] == "]" {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return -1
	}
	return rapid.SampledFrom(cand).Draw(t, "set")
}
