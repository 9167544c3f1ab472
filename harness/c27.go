package font

//vf:use kit.go

var vfStyleNames = []string{"Thin", "ExtraLight", "Light", "Regular", "Medium", "SemiBold", "Bold", "ExtraBold", "Black"}

// C27Weight: ParseStyleCSS of any integer weight and slant is the style of the nearest hundred (a half rounds
// up), weights below 100 count as 100 and above 900 as 900.
//
//vf:quick range=0..2
//vf:opt reach=ok
func C27Weight() {
	var w int
	switch vfParam("range") {
	case 0: // around the valid weights, every value
		w = vfInt("w", -60, 1060)
	case 1: // every weight below the smallest valid one
		w = int(vfI64("w"))
		vfAssume(w < 100)
	case 2: // every weight above the largest valid one
		w = int(vfI64("w"))
		vfAssume(900 < w)
	}
	italic := vfBool("italic")
	s := ParseStyleCSS(w, italic)
	vfObs("style", int64(s))
	vfAssert(s.Italic() == italic, "slant")
	k := 1
	for ; k < 9 && k*100+50 <= w; k++ {
	}
	vfAssert(s.Weight() == Style(k), "nearest hundred")
	vfAssert(s == Style(k)|s&Italic, "no other bits")
	vfReach("ok")
}

// C27Style: every valid style has a distinct name, and parsing that name, with surrounding white space or not, gives
// the style back.
//
//vf:quick sp=0..3
//vf:opt reach=ok
func C27Style() {
	k := vfConc(vfInt("weight", 1, 9))
	s := Style(k)
	want := vfStyleNames[k-1]
	if vfBool("italic") {
		s |= Italic
		want += " Italic"
	}
	name := s.String()
	vfAssert(name == want, "style name")
	vfAssert(s.Weight() == Style(k) && s.Italic() == (s != Style(k)), "weight and slant")
	switch vfParam("sp") {
	case 1:
		name = " " + name
	case 2:
		name += "\t"
	case 3:
		name = "\n " + name + "  "
	}
	vfAssert(ParseStyle(name) == s, "parsed name")
	vfReach("ok")
}

// C27Aliases: the documented aliases of weights and slants, alone and combined with every separator.
//
//vf:quick alias=0..31
//vf:opt reach=ok
func C27Aliases() {
	aliases := []struct {
		name string
		s    Style
	}{
		{"", Regular}, {"Regular", Regular}, {"Normal", Regular}, {"Normál", Regular}, {"Reg", Regular}, {"Roman", Regular},
		{"Text", Regular}, {"Book", Regular}, {"Thin", Thin}, {"Hairline", Thin}, {"ExtraLight", ExtraLight},
		{"UltraLight", ExtraLight}, {"Extra Light", ExtraLight}, {"ExtraLt", ExtraLight}, {"Light", Light}, {"Lt", Light},
		{"SemiLight", Light}, {"Medium", Medium}, {"Med", Medium}, {"SemiBold", SemiBold}, {"Semibold", SemiBold}, {"Demi", SemiBold},
		{"Semi Bold", SemiBold}, {"Semibd", SemiBold}, {"Bold", Bold}, {"Negrita", Bold}, {"Gras", Bold}, {"Bol", Bold},
		{"ExtraBold", ExtraBold}, {"Extra Bold", ExtraBold}, {"Black", Black}, {"Heavy", Black},
	}
	slants := []string{"Italic", "Oblique", "Slanted", "Italique", "Cursiva", "Slant", "Ita", "Obl"}
	a := aliases[vfParam("alias")]
	vfAssert(ParseStyle(a.name) == a.s, "weight name")
	i := vfConc(vfInt("slant", 0, 7))
	vfAssert(ParseStyle(a.name+" "+slants[i]) == a.s|Italic, "weight and slant")
	vfAssert(ParseStyle(a.name+"-"+slants[i]) == a.s|Italic, "weight, dash and slant")
	vfAssert(ParseStyle(a.name+slants[i]) == a.s|Italic, "weight and slant without separator")
	vfReach("ok")
}

// C27Any: parsing any string gives a valid style or UnknownStyle; strings that differ from every known name in one
// character are unknown.
//
//vf:quick n=0..4 base=0
//vf:quick n=0 base=1..6
//vf:thorough n=0..8 base=0
//vf:thorough n=0 base=1..6
//vf:opt reach=ok
func C27Any() {
	bases := []string{"", "Bold", "Regular", "Extra Light", "SemiBold", "Black", "Medium"}
	var s string
	if b := vfParam("base"); b == 0 {
		s = string(vfBytes("s", vfParam("n")))
		for i := 0; i < len(s); i++ {
			vfAssume(s[i] < 0x80)
		}
	} else {
		name := []byte(bases[b])
		p := vfConc(vfInt("pos", 0, len(name)-1))
		c := vfU8("c")
		vfAssume(c != name[p] && c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != '\v' && c != '\f' && c < 0x80)
		name[p] = c
		s = string(name)
		vfAssume(s != "Semibold")
		vfReach("ok")
		vfAssert(ParseStyle(s) == UnknownStyle, "unknown name")
		return
	}
	r := ParseStyle(s)
	vfObs("r", int64(r))
	w := r.Weight()
	vfAssert(r == UnknownStyle || Thin <= w && w <= Black && (r == w || r == w|Italic), "a valid style or unknown")
	if r != UnknownStyle {
		vfReach("ok")
		vfAssert(ParseStyle(r.String()) == r, "canonical name")
	}
}
