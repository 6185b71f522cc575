package c19

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	"pgregory.net/rapid"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// renderer writes a lookup list in one of the many textual forms it has.  It
// produces a list of tokens; white space is added later.
type renderer struct {
	t  *rapid.T
	tf *testFont
	// toks is the list of tokens so far.  The special token "\n?" is a place
	// where a line break is allowed, "\n!" one where a line break or a
	// semicolon is required.
	toks []string
}

func (r *renderer) put(toks ...string) { r.toks = append(r.toks, toks...) }

func (r *renderer) coin(label string) bool { return rapid.Bool().Draw(r.t, label) }

var keywords = map[string]bool{"class": true, "inputclass": true, "backtrackclass": true, "lookaheadclass": true}

// quoted returns the body of a quoted string for a character.
func (r *renderer) quoted(c rune) string {
	switch c {
	case '\n':
		return `\n`
	case '"', '\\':
		return `\` + string(c)
	case '\r':
		if r.coin("esc") {
			return `\r`
		}
	case '\t':
		if r.coin("esc") {
			return `\t`
		}
	case 'n', 'r', 't':
	default:
		if rapid.IntRange(0, 9).Draw(r.t, "esc") == 0 {
			return `\` + string(c)
		}
	}
	return string(c)
}

// one returns the forms in which a glyph can be written: the name (or
// number), and the body of a string.
func (r *renderer) one(gid glyph.ID, form int) string {
	switch form {
	case 0:
		name := r.tf.names[gid]
		if isIdent(name) && r.tf.last[name] == int(gid) && !keywords[name] {
			return name
		}
	case 1:
		if cc := r.tf.byGid[gid]; len(cc) > 0 {
			return `"` + r.quoted(rapid.SampledFrom(cc).Draw(r.t, "char")) + `"`
		}
	}
	s := itoa(int(gid))
	switch rapid.IntRange(0, 11).Draw(r.t, "intForm") {
	case 0:
		return "+" + s
	case 1:
		return "0" + s
	}
	return s
}

func (r *renderer) glyphs(seq []glyph.ID) {
	style := rapid.SampledFrom([]int{0, 1, 2, 3, 3}).Draw(r.t, "style")
	form := func() int {
		if style == 3 {
			return rapid.IntRange(0, 2).Draw(r.t, "form")
		}
		return style
	}
	for i := 0; i < len(seq); {
		// ranges
		j := i + 1
		if j < len(seq) && (seq[j] == seq[i]+1 || seq[j]+1 == seq[i]) {
			d := seq[j] - seq[i]
			for j < len(seq) && seq[j]-seq[j-1] == d {
				j++
			}
		}
		if j-i >= 2 && rapid.IntRange(0, 2).Draw(r.t, "range") > 0 {
			if j-i > 2 {
				j = rapid.IntRange(i+2, j).Draw(r.t, "rangeEnd")
			}
			r.put(r.one(seq[i], form()), "-", r.one(seq[j-1], form()))
			i = j
			continue
		}
		// strings
		f := form()
		if f == 1 && len(r.tf.byGid[seq[i]]) > 0 {
			var b strings.Builder
			b.WriteByte('"')
			for {
				b.WriteString(r.quoted(rapid.SampledFrom(r.tf.byGid[seq[i]]).Draw(r.t, "char")))
				i++
				if i >= len(seq) || len(r.tf.byGid[seq[i]]) == 0 || rapid.IntRange(0, 4).Draw(r.t, "stop") == 0 {
					break
				}
			}
			b.WriteByte('"')
			r.put(b.String())
			continue
		}
		r.put(r.one(seq[i], f))
		i++
	}
	if len(seq) == 0 && rapid.IntRange(0, 9).Draw(r.t, "emptyString") == 0 && len(r.tf.f.CMapTable) > 0 {
		r.put(`""`)
	}
}

// unordered writes a set of glyphs, in any order, possibly with repetitions.
func (r *renderer) unordered(gg []glyph.ID) {
	gg = slices.Clone(gg)
	if len(gg) > 0 && !r.coin("sorted") {
		for range rapid.IntRange(0, 2).Draw(r.t, "dups") {
			gg = append(gg, rapid.SampledFrom(gg).Draw(r.t, "dup"))
		}
		gg = rapid.Permutation(gg).Draw(r.t, "perm")
	}
	r.glyphs(gg)
}

func (r *renderer) set(gg []glyph.ID) {
	r.put("[")
	r.unordered(gg)
	r.put("]")
}

func keysOf[V any, M ~map[glyph.ID]V](m M) []glyph.ID {
	return slices.Sorted(maps.Keys(m))
}

func (r *renderer) actions(aa []gtab.SeqLookup) {
	for _, a := range aa {
		r.put(itoa(int(a.LookupListIndex)), "@", itoa(int(a.SequenceIndex)))
	}
}

func (r *renderer) integer(x int) string {
	if x >= 0 && r.coin("plus") {
		return "+" + itoa(x)
	}
	return fmt.Sprint(x)
}

func (r *renderer) value(v *gtab.GposValueRecord) {
	if v == nil {
		switch rapid.IntRange(0, 3).Draw(r.t, "nil") {
		case 0:
		case 1:
			r.put(rapid.SampledFrom([]string{"x", "y", "dx"}).Draw(r.t, "zero"), "0")
		default:
			r.put("_")
		}
		return
	}
	for _, i := range rapid.Permutation([]int{0, 1, 2}).Draw(r.t, "order") {
		val := []int{int(v.XPlacement), int(v.YPlacement), int(v.XAdvance)}[i]
		if val != 0 || rapid.IntRange(0, 5).Draw(r.t, "zero") == 0 {
			r.put([]string{"x", "y", "dx"}[i], r.integer(val))
		}
	}
}

func (r *renderer) pair(p *gtab.PairAdjust) {
	r.value(p.First)
	if p.Second != nil || rapid.IntRange(0, 4).Draw(r.t, "amp") == 0 {
		r.put("&")
		r.value(p.Second)
	}
}

var classNames = strings.Fields(`a b alpha digits ABC c1 c2 x _ class A GSUB1 é .x base`)

// classes writes class definitions, and returns the names of the classes.
func (r *renderer) classes(keyword string, c classdef.Table) []string {
	names := rapid.Permutation(classNames).Draw(r.t, "classNames")
	names = append([]string{""}, names...)
	for i, gg := range c.Glyphs() {
		if i == 0 {
			continue
		}
		r.put(keyword, ":", names[i], ":")
		if r.coin("eq") {
			r.put("=")
		}
		r.set(gg)
		r.put("\n?")
	}
	return names
}

func (r *renderer) classSeq(names []string, seq []uint16) {
	for _, c := range seq {
		r.put(":")
		if c != 0 {
			r.put(names[c])
		}
		r.put(":")
	}
}

// shuffle interleaves rules for different keys without changing the order of
// the rules for one key.
func (r *renderer) shuffle(n []int) []int {
	var res []int
	for key, k := range n {
		for range k {
			res = append(res, key)
		}
	}
	if len(res) > 1 && r.coin("shuffle") {
		res = rapid.Permutation(res).Draw(r.t, "order")
	}
	return res
}

func (r *renderer) comma(first *bool) {
	if !*first {
		r.put(",", "\n?")
	}
	*first = false
}

func (r *renderer) lookups(ll gtab.LookupList, gpos bool) {
	for i, l := range ll {
		if i > 0 {
			r.put("\n!")
		}
		kind := "GSUB"
		if gpos {
			kind = "GPOS"
		}
		r.put(kind + itoa(int(l.Meta.LookupType)))
		if rapid.IntRange(0, 5).Draw(r.t, "colon") > 0 {
			r.put(":")
		}
		r.put("\n?")
		var ff []string
		if l.Meta.LookupFlags&gtab.IgnoreMarks != 0 {
			ff = append(ff, "marks")
		}
		if l.Meta.LookupFlags&gtab.IgnoreLigatures != 0 {
			ff = append(ff, "ligs")
		}
		if l.Meta.LookupFlags&gtab.IgnoreBaseGlyphs != 0 {
			ff = append(ff, "base")
		}
		if len(ff) > 0 {
			for _, f := range rapid.Permutation(ff).Draw(r.t, "flags") {
				r.put("-", f)
			}
			r.put("\n?")
		}
		for j, s := range l.Subtables {
			if j > 0 {
				r.put("||", "\n?")
			}
			r.subtable(s)
		}
	}
}

func (r *renderer) subtable(s gtab.Subtable) {
	first := true
	switch l := s.(type) {
	case *gtab.Gsub1_1, *gtab.Gsub1_2:
		var from, to []glyph.ID
		switch l := l.(type) {
		case *gtab.Gsub1_1:
			from = keysOf(l.Cov)
			for _, gid := range from {
				to = append(to, gid+l.Delta)
			}
		case *gtab.Gsub1_2:
			from = keysOf(l.Cov)
			to = l.SubstituteGlyphIDs
		}
		for i := 0; i < len(from); {
			j := rapid.IntRange(i+1, len(from)).Draw(r.t, "chunk")
			r.comma(&first)
			r.glyphs(from[i:j])
			r.put("->")
			r.glyphs(to[i:j])
			i = j
		}
	case *gtab.Gsub2_1:
		from := keysOf(l.Cov)
		for _, i := range rapid.Permutation(seqTo(len(from))).Draw(r.t, "order") {
			r.comma(&first)
			r.glyphs(from[i : i+1])
			r.put("->")
			r.glyphs(l.Repl[i])
		}
	case *gtab.Gsub3_1:
		from := keysOf(l.Cov)
		for _, i := range rapid.Permutation(seqTo(len(from))).Draw(r.t, "order") {
			r.comma(&first)
			r.glyphs(from[i : i+1])
			r.put("->")
			r.set(l.Alternates[i])
		}
	case *gtab.Gsub4_1:
		from := keysOf(l.Cov)
		pos := make([]int, len(from))
		for _, i := range r.shuffle(lengths(l.Repl)) {
			lig := l.Repl[i][pos[i]]
			pos[i]++
			r.comma(&first)
			r.glyphs(append([]glyph.ID{from[i]}, lig.In...))
			r.put("->")
			r.glyphs([]glyph.ID{lig.Out})
		}
	case *gtab.SeqContext1:
		from := keysOf(l.Cov)
		pos := make([]int, len(from))
		for _, i := range r.shuffle(lengths(l.Rules)) {
			rule := l.Rules[i][pos[i]]
			pos[i]++
			r.comma(&first)
			r.glyphs(append([]glyph.ID{from[i]}, rule.Input...))
			r.put("->")
			r.actions(rule.Actions)
		}
	case *gtab.SeqContext2:
		names := r.classes("class", l.Input)
		r.put("/")
		r.unordered(keysOf(l.Cov))
		r.put("/")
		pos := make([]int, len(l.Rules))
		for _, i := range r.shuffle(lengths(l.Rules)) {
			rule := l.Rules[i][pos[i]]
			pos[i]++
			r.comma(&first)
			r.classSeq(names, append([]uint16{uint16(i)}, rule.Input...))
			r.put("->")
			r.actions(rule.Actions)
		}
	case *gtab.SeqContext3:
		r.sets(l.Input)
		r.put("->")
		r.actions(l.Actions)
	case *gtab.ChainedSeqContext1:
		from := keysOf(l.Cov)
		pos := make([]int, len(from))
		for _, i := range r.shuffle(lengths(l.Rules)) {
			rule := l.Rules[i][pos[i]]
			pos[i]++
			r.comma(&first)
			r.glyphs(reversed(rule.Backtrack))
			r.put("|")
			r.glyphs(append([]glyph.ID{from[i]}, rule.Input...))
			r.put("|")
			r.glyphs(rule.Lookahead)
			r.put("->")
			r.actions(rule.Actions)
		}
	case *gtab.ChainedSeqContext2:
		var names [3][]string
		for _, i := range rapid.Permutation([]int{0, 1, 2}).Draw(r.t, "classOrder") {
			names[i] = r.classes([]string{"backtrackclass", "inputclass", "lookaheadclass"}[i],
				[]classdef.Table{l.Backtrack, l.Input, l.Lookahead}[i])
		}
		r.put("/")
		r.unordered(keysOf(l.Cov))
		r.put("/")
		pos := make([]int, len(l.Rules))
		for _, i := range r.shuffle(lengths(l.Rules)) {
			rule := l.Rules[i][pos[i]]
			pos[i]++
			r.comma(&first)
			r.classSeq(names[0], reversed(rule.Backtrack))
			r.put("|")
			r.classSeq(names[1], append([]uint16{uint16(i)}, rule.Input...))
			r.put("|")
			r.classSeq(names[2], rule.Lookahead)
			r.put("->")
			r.actions(rule.Actions)
		}
	case *gtab.ChainedSeqContext3:
		r.sets(reversed(l.Backtrack))
		r.put("|")
		r.sets(l.Input)
		r.put("|")
		r.sets(l.Lookahead)
		r.put("->")
		r.actions(l.Actions)
	case *gtab.Gpos1_1:
		r.set(keysOf(l.Cov))
		r.put("->")
		r.value(l.Adjust)
	case *gtab.Gpos1_2:
		from := keysOf(l.Cov)
		for _, i := range rapid.Permutation(seqTo(len(from))).Draw(r.t, "order") {
			r.comma(&first)
			r.glyphs(from[i : i+1])
			r.put("->")
			r.value(l.Adjust[i])
		}
	case gtab.Gpos2_1:
		pp := slices.SortedFunc(maps.Keys(l), func(a, b glyph.Pair) int {
			return (int(a.Left)-int(b.Left))<<16 + int(a.Right) - int(b.Right)
		})
		for _, p := range rapid.Permutation(pp).Draw(r.t, "order") {
			r.comma(&first)
			r.glyphs([]glyph.ID{p.Left, p.Right})
			r.put("->")
			r.pair(l[p])
		}
	case *gtab.Gpos2_2:
		r.put("/")
		r.unordered(keysOf(l.Cov))
		r.put("/", "\n?", "first")
		classList := func(c classdef.Table) {
			for i, gg := range c.Glyphs() {
				if i == 0 {
					continue
				}
				if i > 1 {
					r.put(",")
				}
				r.glyphs(rapid.Permutation(gg).Draw(r.t, "order"))
			}
			if rapid.IntRange(0, 6).Draw(r.t, "extra") == 0 {
				r.put(",") // an empty class at the end is ignored
				if c.NumClasses() == 1 {
					// the first class has no comma before it
					r.toks = r.toks[:len(r.toks)-1]
				}
			}
			r.put(";", "\n?")
		}
		classList(l.Class1)
		r.put("second")
		classList(l.Class2)
		for i, row := range l.Adjust {
			for j, p := range row {
				if j > 0 {
					r.put(",")
				}
				r.pair(p)
			}
			if i < len(l.Adjust)-1 || r.coin("trailing") {
				r.put(rapid.SampledFrom([]string{",", ";"}).Draw(r.t, "rowSep"), "\n?")
			}
		}
	case *gtab.Gpos3_1:
		from := keysOf(l.Cov)
		for _, i := range rapid.Permutation(seqTo(len(from))).Draw(r.t, "order") {
			if !first {
				r.put(";", "\n?")
			}
			first = false
			rec := l.Records[i]
			r.glyphs(from[i : i+1])
			r.put(":", r.integer(int(rec.Entry.X)), ",", r.integer(int(rec.Entry.Y)), "to",
				r.integer(int(rec.Exit.X)), ",", r.integer(int(rec.Exit.Y)))
		}
	case *gtab.Gpos4_1:
		for i, gid := range keysOf(l.MarkCov) {
			rec := l.MarkArray[i]
			r.put("mark")
			r.glyphs([]glyph.ID{gid})
			r.put(":", itoa(int(rec.Class)), "@", r.integer(int(rec.X)), ",", r.integer(int(rec.Y)))
			if r.coin("semi") {
				r.put(";")
			}
			r.put("\n?")
		}
		for i, gid := range keysOf(l.BaseCov) {
			r.put("base")
			r.glyphs([]glyph.ID{gid})
			r.put(":")
			for j, a := range l.BaseArray[i] {
				if j > 0 && rapid.IntRange(0, 3).Draw(r.t, "comma") == 0 {
					r.put(",")
				}
				r.put("@", r.integer(int(a.X)), ",", r.integer(int(a.Y)))
			}
			if r.coin("semi") {
				r.put(";")
			}
			r.put("\n?")
		}
	default:
		panic(fmt.Sprintf("unexpected subtable %T", s))
	}
}

func (r *renderer) sets(ss []coverage.Set) {
	for _, s := range ss {
		r.set(keysOf(s))
	}
}

func seqTo(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i
	}
	return res
}

func lengths[T any](x [][]T) []int {
	res := make([]int, len(x))
	for i := range x {
		res[i] = len(x[i])
	}
	return res
}

func reversed[T any](x []T) []T {
	res := slices.Clone(x)
	slices.Reverse(res)
	return res
}

// text joins the tokens, adding white space.
func (r *renderer) text() string {
	style := rapid.SampledFrom([]string{"compact", "spaced", "wild"}).Draw(r.t, "layout")
	spaces := []string{" ", "  ", "\t", " \t ", "\r", "\v", "\u00a0", "\u3000"}
	var b strings.Builder
	prev := ""
	newline := func() string {
		if rapid.IntRange(0, 3).Draw(r.t, "comment") == 0 {
			return rapid.SampledFrom([]string{" # a comment\n", "#\n", "# GSUB1: A -> B \"\n", "#é ;|\\\n", "\r\n"}).Draw(r.t, "text")
		}
		return "\n"
	}
	if style == "wild" && r.coin("lead") {
		b.WriteString(rapid.SampledFrom([]string{"\n", "\n\n\t", ";", " # x\n", "  "}).Draw(r.t, "lead"))
	}
	for _, tok := range r.toks {
		switch tok {
		case "\n?":
			if r.coin("newline") {
				b.WriteString(newline())
				if r.coin("indent") {
					b.WriteString("\t")
				}
				prev = "\n"
			}
			continue
		case "\n!":
			b.WriteString(newline())
			for range rapid.IntRange(0, 2).Draw(r.t, "blank") {
				b.WriteString(newline())
			}
			if style == "wild" && rapid.IntRange(0, 3).Draw(r.t, "semicolon") == 0 {
				b.WriteString(";")
			}
			prev = "\n"
			continue
		}
		need := prev != "" && needSpace(prev, tok)
		switch {
		case style == "compact":
			if need {
				b.WriteByte(' ')
			}
		case style == "spaced":
			if prev != "" && prev != "\n" {
				b.WriteByte(' ')
			}
		default:
			if need || rapid.IntRange(0, 2).Draw(r.t, "space") == 0 {
				b.WriteString(rapid.SampledFrom(spaces).Draw(r.t, "ws"))
			}
		}
		b.WriteString(tok)
		prev = tok
	}
	switch rapid.IntRange(0, 3).Draw(r.t, "end") {
	case 0:
		b.WriteString("\n")
	case 1:
		b.WriteString("\n\n  # the end")
	}
	return b.String()
}

// needSpace returns whether two tokens would be read differently without a
// space between them.
func needSpace(a, b string) bool {
	ca, cb := kindOf(a), kindOf(b)
	switch {
	case ca == 'i' && (cb == 'i' || cb == 'n' && b[0] != '+' && b[0] != '-'):
		return true
	case ca == 'n' && cb == 'n' && b[0] != '+' && b[0] != '-':
		return true
	case a == "-" && (cb == 'n' && b[0] != '+' || b == "->"):
		return true
	case a == "|" && (b == "|" || b == "||"), a == "||" && b[0] == '|':
		return false || a == "|"
	}
	return false
}

func kindOf(tok string) byte {
	switch {
	case tok == "\n":
		return 's'
	case tok[0] >= '0' && tok[0] <= '9', len(tok) > 1 && (tok[0] == '+' || tok[0] == '-') && tok != "->":
		return 'n'
	case isIdent(tok):
		return 'i'
	}
	return 's'
}
