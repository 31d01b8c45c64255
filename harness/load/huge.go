package main

import (
	"path/filepath"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// hugeDict makes a dictionary of as many lemmata as the real one has, most of them of a single form: the words count
// upwards in some alphabet.
func hugeDict(r *kit.Rand, lemmas int) *dict {
	d := &dict{grams: realTags, rev: r.Intn(1000000)}
	alpha := []rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюя")
	base := r.Range(20, len(alpha))
	numbers := []string{"sing", "plur"}
	cases := []string{"nomn", "gent", "datv", "accs", "ablt", "loct"}
	kinds := []string{"masc", "neut", "femn"}
	for i, word := 0, r.Range(0, 2000); i < lemmas; i, word = i+1, word+r.Range(1, 2) {
		text := []rune{'н'}
		for v := word; v > 0; v /= base {
			text = append(text, alpha[v%base])
		}
		l := lemma{text: string(text), tags: []string{"NOUN", kinds[i%3]}}
		l.forms = append(l.forms, form{string(text), []string{numbers[i/3%2], cases[i/6%6]}})
		if i%16 == 0 {
			l.forms = append(l.forms, form{string(text) + "а", []string{"sing", "gent"}})
		}
		d.lemmas = append(d.lemmas, l)
	}
	return d
}

// hugeCompile compiles a dictionary with as many lemmata as the real one.
func hugeCompile(c *kit.Case) {
	dir := freshDir(c, "huge")
	n := 400000 + c.R.Intn(20000)
	if c.Thorough {
		n = c.R.Range(400000, 1000000)
	}
	d := hugeDict(c.R, n)
	text := d.xml(c.R)
	from, to := filepath.Join(dir, opencorpora.LocalUnpackedFilename), filepath.Join(dir, opencorpora.LocalCompiledFilename)
	write(c, from, text)
	c.Op("%s: %.3000s", d, text)
	var err error
	c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, to) })
	if err != nil {
		c.Fail("compiling %s: %v", d, err)
	}
	c.Count("dictionaries_compiled", 1)
	if why := holds(c, to, d); why != "" {
		c.Fail("%s, compiled and loaded: %s", d, why)
	}
	d.note(c)
	c.Sig(kit.Hash(text))
	c.NonTrivial()
}
