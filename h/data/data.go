// Package data contains tables of real fonts.
package data

import (
	"embed"
	"sort"
	"strings"
)

//go:embed otscripts.txt
var scripts string

//go:embed otlangs.txt
var langs string

// Scripts and Langs are the OpenType script and language tags.
var (
	Scripts = strings.Split(strings.TrimSuffix(scripts, "\n"), "\n")
	Langs   = strings.Split(strings.TrimSuffix(langs, "\n"), "\n")
)

//go:embed tables
var fs embed.FS

// Table returns a table of one of the fonts.
func Table(font, tag string) []byte {
	b, err := fs.ReadFile("tables/" + font + "." + tag)
	if err != nil {
		return nil
	}
	return b
}

// Fonts lists the fonts.
func Fonts() []string {
	ee, err := fs.ReadDir("tables")
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	var res []string
	for _, e := range ee {
		n := e.Name()[:len(e.Name())-5]
		if !seen[n] {
			seen[n] = true
			res = append(res, n)
		}
	}
	sort.Strings(res)
	return res
}
