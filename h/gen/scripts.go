package gen

import (
	"bytes"
	"golang.org/x/text/language"
	"math/rand/v2"
	"pgregory.net/rapid"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/verif/data"
	"seehuhn.de/go/sfnt/verif/pbt"
	"sort"
)

// ScriptListBytes returns a table with the given language systems only.
func ScriptListBytes(script string, langs []string) []byte {
	w := func(x ...int) []byte {
		var b []byte
		for _, v := range x {
			b = append(b, byte(v>>8), byte(v))
		}
		return b
	}
	var recs, sys []byte
	nRec := 0
	for _, l := range langs {
		if l != "" {
			nRec++
		}
	}
	def := 0
	for i, l := range langs {
		o := 4 + 6*nRec + 6*i
		if l == "" {
			def = o
		} else {
			recs = append(append(recs, l...), w(o)...)
		}
		sys = append(sys, w(0, i, 0)...)
	}
	body := w(1, 0, 10, 0, 0, 1)
	body = append(append(body, script...), w(8)...)
	body = append(body, w(def, nRec)...)
	body = append(body, recs...)
	body = append(body, sys...)
	n := len(body)
	body[6], body[7] = byte(n>>8), byte(n)
	body[8], body[9] = byte(n>>8), byte(n)
	return append(body, 0, 0)
}

// TagsFor returns the language tags used for OpenType language systems.
func TagsFor(script string, langs []string) map[language.Tag][2]string {
	info, err := gtab.Read(bytes.NewReader(ScriptListBytes(script, langs)), gtab.TypeGsub)
	if err != nil {
		pbt.Failf("cannot read script list with script %q and %d languages: %v", script, len(langs), err)
	}
	res := map[language.Tag][2]string{}
	for tag, f := range info.ScriptList {
		res[tag] = [2]string{script, langs[f.Required]}
	}
	return res
}

// DrawScripts draws a script list.
func DrawScripts(t *rapid.T, rng *rand.Rand, big bool) (gtab.ScriptListInfo, map[language.Tag][2]string) {
	nScripts := rapid.IntRange(0, 4).Draw(t, "nScripts")
	if big {
		nScripts = rapid.IntRange(1, 60).Draw(t, "nScripts2")
	}
	res := gtab.ScriptListInfo{}
	langs := map[language.Tag][2]string{}
	maxFeatures := rapid.SampledFrom([]int{1, 5, 30}).Draw(t, "maxFeatures")
	if big {
		maxFeatures = rapid.SampledFrom([]int{1, 30, 300, 3000, 70000}).Draw(t, "maxFeatures2")
	}
	for ; nScripts > 0; nScripts-- {
		script := data.Scripts[rng.IntN(len(data.Scripts))]
		nLang := rng.IntN(4)
		if big {
			nLang = rng.IntN(30)
		}
		ll := map[string]bool{}
		if rng.IntN(4) > 0 || nLang == 0 {
			ll[""] = true
		}
		for ; nLang > 0; nLang-- {
			ll[data.Langs[rng.IntN(len(data.Langs))]] = true
		}
		var names []string
		for l := range ll {
			names = append(names, l)
		}
		sort.Strings(names)
		tags := TagsFor(script, names)
		keys := make([]language.Tag, 0, len(tags))
		for tag := range tags {
			keys = append(keys, tag)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, tag := range keys {
			f := &gtab.Features{Required: 0xFFFF}
			switch rng.IntN(4) {
			case 0:
				f.Required = gtab.FeatureIndex(rng.IntN(10))
			case 1:
				f.Required = gtab.FeatureIndex(rng.IntN(65536))
			}
			n := rng.IntN(maxFeatures + 1)
			if n > 65535 {
				n = 65535
			}
			for ; n > 0; n-- {
				f.Optional = append(f.Optional, gtab.FeatureIndex(rng.IntN(65535)))
			}
			res[tag] = f
			langs[tag] = tags[tag]
		}
	}
	return res, langs
}

var FeatureTags = []string{"liga", "kern", "mark", "mkmk", "ccmp", "calt", "ss01", "cv99", "    ", "\xff\xff\xff\xff", "a\x00b\x01"}

func DrawFeatures(t *rapid.T, rng *rand.Rand, big bool) gtab.FeatureListInfo {
	n := rapid.IntRange(0, 6).Draw(t, "nFeatures")
	maxL := 5
	if big {
		n = rapid.SampledFrom([]int{1, 10, 100, 1000, 5461, 6553, 6554, 10922, 10923}).Draw(t, "nFeatures2")
		maxL = rapid.SampledFrom([]int{0, 1, 5, 30, 300, 70000}).Draw(t, "maxFeatureLookups")
	}
	var res gtab.FeatureListInfo
	budget := 70000
	for ; n > 0; n-- {
		f := &gtab.Feature{Tag: FeatureTags[rng.IntN(len(FeatureTags))]}
		k := min(rng.IntN(maxL+1), 65535)
		if budget < 0 {
			k = 0
		}
		budget -= k
		for ; k > 0; k-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(rng.IntN(65536)))
		}
		res = append(res, f)
	}
	return res
}
