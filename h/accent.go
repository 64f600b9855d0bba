package h

import (
	"unicode/utf8"

	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
	"verif/sym"
)

// C21: accents.

// composed lists the ASCII letters that have a precomposed character with a
// mark, from the canonical compositions of Unicode.
var composed = []struct {
	mark    rune
	letters string
	runes   string
}{
	{'\'', "ACEGIKLMNOPRSUWYZacegiklmnoprsuwyz", "ÁĆÉǴÍḰĹḾŃÓṔŔŚÚẂÝŹáćéǵíḱĺḿńóṕŕśúẃýź"},
	{'c', "CDEGHKLNRSTcdeghklnrst", "ÇḐȨĢḨĶĻŅŖŞŢçḑȩģḩķļņŗşţ"},
	{'^', "ACEGHIJOSUWYZaceghijosuwyz", "ÂĈÊĜĤÎĴÔŜÛŴŶẐâĉêĝĥîĵôŝûŵŷẑ"},
	{'.', "ABCDEFGHIMNOPRSTWXYZabcdefghimnoprstwxyz", "ȦḂĊḊĖḞĠḢİṀṄȮṖṘṠṪẆẊẎŻȧḃċḋėḟġḣıṁṅȯṗṙṡṫẇẋẏż"},
	{'`', "AEINOUWYaeinouwy", "ÀÈÌǸÒÙẀỲàèìǹòùẁỳ"},
	{'~', "AEINOUVYaeinouvy", "ÃẼĨÑÕŨṼỸãẽĩñõũṽỹ"},
	{'"', "AEHIOUWXYaehiotuwxy", "ÄËḦÏÖÜẄẌŸäëḧïöẗüẅẍÿ"},
}

// mustCompose lists the combinations that are supported.
var mustCompose = []struct {
	mark    rune
	letters string
}{
	{'`', "aeiouAEIOU"}, {'\'', "aeiouAEIOU"}, {'^', "aeiouAEIOU"}, {'"', "aeiouAEIOU"},
	{'~', "anoANO"}, {'c', "cC"}, {'\'', "yY"}, {'.', "cegzCEGZ"},
}

// refCompose is the precomposed character, or 0.
func refCompose(mark rune, c byte) rune {
	for _, x := range composed {
		if x.mark != mark {
			continue
		}
		rs := []rune(x.runes)
		for i := 0; i < len(x.letters); i++ {
			if x.letters[i] == c {
				return rs[i]
			}
		}
	}
	return 0
}

// supported tells whether a combination has to be rendered.
func supported(mark rune, c byte) bool {
	for _, x := range mustCompose {
		if x.mark != mark {
			continue
		}
		for i := 0; i < len(x.letters); i++ {
			if x.letters[i] == c {
				return true
			}
		}
	}
	return false
}

func accentCheck(mark rune, text string) {
	sym.ObserveInt(int(mark))
	sym.Observe(text)
	r, err := render.RenderAccent(token.Accent(mark), text)
	if err != nil {
		sym.Assert(len(text) != 1 || !supported(mark, text[0]), "a supported accent is rendered")
		sym.Reach("error")
		return
	}
	sym.ObserveInt(int(r))
	sym.Assert(len(text) > 0 && utf8.RuneCountInString(text) == 1, "an accent is on one character")
	if text[0] < 0x80 {
		want := refCompose(mark, text[0])
		sym.Assert(want != 0 && r == want, "an accent renders to the precomposed character or fails")
	} else {
		sym.Assert(false, "an accent renders to the precomposed character or fails")
	}
	sym.Reach("ok")
}

var _ = reg("C21", "Accent", C21Accent, "any accent value of 32 bits and any text of p[0] bytes", [][]int{{0}, {2}, {3}, {4}}, [][]int{{5}, {8}, {16}}, "error")

// C21Accent: any mark and any text.
func C21Accent(p []int) {
	accentCheck(rune(sym.Any64()), string(sym.Bytes(p[0])))
}

var _ = reg("C21", "AccentLetter", C21Accent, "any accent value of 32 bits and any text of p[0] byte", ps(1, 1), nil, "error", "ok")

var _ = reg("C21", "AccentMark", C21AccentMark, "each of the 7 accent marks and any text of p[0] bytes", ps(1, 2), ps(3, 4), "error")

// C21AccentMark: the defined marks.
func C21AccentMark(p []int) {
	accentCheck(composed[sym.Choice(len(composed))].mark, string(sym.Bytes(p[0])))
}
