package font

//vf:use kit.go

// vfRefWeights: CSS font-weight matching order for a desired weight.
func vfRefWeights(w Style) []Style {
	var r []Style
	switch {
	case w == Regular:
		r = []Style{Regular, Medium, Light, ExtraLight, Thin, SemiBold, Bold, ExtraBold, Black}
	case w == Medium:
		r = []Style{Medium, Regular, Light, ExtraLight, Thin, SemiBold, Bold, ExtraBold, Black}
	case w < Regular:
		for k := w; Thin <= k; k-- {
			r = append(r, k)
		}
		for k := w + 1; k <= Black; k++ {
			r = append(r, k)
		}
	default:
		for k := w; k <= Black; k++ {
			r = append(r, k)
		}
		for k := w - 1; Thin <= k; k-- {
			r = append(r, k)
		}
	}
	return r
}

// vfFamily installs an arbitrary set of styles: style i is installed iff has[i]. The map key of a style that is not
// installed is a value no request asks for.
func vfFamily(name, prefix string, only Style) (map[Style]FontMetadata, func(Style) bool) {
	m := map[Style]FontMetadata{}
	var has [2][10]bool
	for it := 0; it < 2; it++ {
		for w := Thin; w <= Black; w++ {
			s := w
			if it == 1 {
				s |= Italic
			}
			if only != 0 && s&Italic != only&Italic && w != Regular {
				continue
			}
			p := vfBool(prefix + s.String())
			has[it][w] = p
			key := s
			if !p {
				key = Style(0x1000 + int(s))
			}
			m[key] = FontMetadata{Filename: name + "/" + s.String(), Family: name, Style: s}
		}
	}
	return m, func(s Style) bool {
		if s.Italic() {
			return has[1][s.Weight()]
		}
		return has[0][s.Weight()]
	}
}

func vfRefPick(has func(Style) bool, s Style) (Style, bool) {
	for _, w := range vfRefWeights(s.Weight()) {
		if has(w | s&Italic) {
			return w | s&Italic, true
		}
	}
	return 0, false
}

// C26Style: for every set of installed styles of a family and every requested style, Match returns the exact style
// when installed and otherwise the nearest weight of the same slant in CSS font matching order; nothing is found only
// when no style of that slant is installed. A repeated query gives the same answer.
//
//vf:quick weight=1..9 italic=0,1
//vf:opt reach=found,none,exact
func C26Style() {
	s := Style(vfParam("weight"))
	if vfParam("italic") == 1 {
		s |= Italic
	}
	fam, has := vfFamily("A", "", 0)
	fonts := &SystemFonts{Fonts: map[string]map[Style]FontMetadata{"A": fam}}
	got, ok := fonts.Match("A", s)
	want, wok := vfRefPick(has, s)
	vfAssert(ok == wok, "found iff the family has a style of that slant")
	if ok {
		vfReach("found")
		if want == s {
			vfReach("exact")
		}
		vfAssert(got.Style == want && got.Family == "A" && got.Filename == "A/"+want.String(), "nearest style")
	} else {
		vfReach("none")
		vfAssert(got == FontMetadata{}, "nothing returned")
	}
	got2, ok2 := fonts.Match("A", s)
	vfAssert(ok2 == ok && got2 == got, "same answer again")
}

// C26Family: families are tried in the order of the request, generic names stand for their list, spaces around names
// do not matter, and the first family with fonts decides. Neither the request nor the collection changes, even when
// the generic lists share one backing array. The answer does not depend on map order.
//
//vf:quick req=0..13 order=0,1
//vf:opt reach=found,none
func C26Family() {
	reqs := []struct {
		s    string
		want []string
	}{
		{"A", []string{"A"}},
		{"A,B", []string{"A", "B"}},
		{" B , A ", []string{"B", "A"}},
		{"Z,C,A", []string{"Z", "C", "A"}},
		{"serif", []string{"B", "A"}},
		{"serif,C", []string{"B", "A", "C"}},
		{"C,serif", []string{"C", "B", "A"}},
		{"mono, serif", []string{"C", "B", "A"}},
		{"serif,mono,B", []string{"B", "A", "C", "B"}},
		{"empty,C", []string{"C"}},
		{"C,empty, A", []string{"C", "A"}},
		{"Z,serif,mono", []string{"Z", "B", "A", "C"}},
		{"", []string{""}},
		{"B,,A", []string{"B", "", "A"}},
	}
	rq := reqs[vfParam("req")]
	vfMapOrder(vfParam("order"))
	names := []string{"B", "A", "C", "D", "E"}
	all := append([]string{}, names[:4]...)
	fonts := &SystemFonts{
		Generics: map[string][]string{"serif": all[0:2], "mono": all[2:3], "other": all[3:4], "empty": {}},
		Fonts:    map[string]map[Style]FontMetadata{},
	}
	installed := map[string]bool{}
	for _, n := range []string{"A", "B", "C"} {
		if vfBool(n) {
			installed[n] = true
			fonts.Add(FontMetadata{n + ".ttf", n, Regular})
			if vfBool(n + "bold") {
				fonts.Add(FontMetadata{n + "b.ttf", n, Bold})
			}
		}
	}
	want := ""
	for _, n := range rq.want {
		if installed[n] {
			want = n
			break
		}
	}
	nfonts := len(fonts.Fonts)
	for k := 0; k < 2; k++ {
		got, ok := fonts.Match(rq.s, Regular)
		vfAssert(ok == (want != ""), "found iff a family of the request is installed")
		if ok {
			vfReach("found")
			vfAssert(got == FontMetadata{want + ".ttf", want, Regular}, "first family that is installed")
		} else {
			vfReach("none")
		}
		vfAssert(len(fonts.Fonts) == nfonts && len(fonts.Generics) == 4, "collection unchanged")
		for i := range all {
			vfAssert(all[i] == names[i], "generic lists unchanged")
		}
	}
}

// C26Add: Add replaces the entry of the same family and style only; Match then returns the last added.
//
//vf:quick n=2,3
//vf:thorough n=2..4
//vf:opt reach=ok
func C26Add() {
	n := vfParam("n")
	fonts := &SystemFonts{Fonts: map[string]map[Style]FontMetadata{}}
	fams := []string{"A", "B"}
	type rec struct {
		fam  string
		s    Style
		file string
	}
	var recs []rec
	for i := 0; i < n; i++ {
		f := fams[vfConc(vfInt("fam", 0, 1))]
		s := Style(vfInt("w", int(Thin), int(Black)))
		if vfBool("italic") {
			s |= Italic
		}
		file := string(rune('0' + i))
		recs = append(recs, rec{f, s, file})
		fonts.Add(FontMetadata{file, f, s})
	}
	for i, r := range recs {
		last := r.file
		for _, q := range recs[i+1:] {
			if q.fam == r.fam && q.s == r.s {
				last = q.file
			}
		}
		got, ok := fonts.Match(r.fam, r.s)
		vfAssert(ok && got == FontMetadata{last, r.fam, r.s}, "last added font of that family and style")
	}
	vfReach("ok")
}
