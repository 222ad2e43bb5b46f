package main

import (
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/zzverif/v"
)

// interpret reads markup as tcell's styled text does, for the styles %S and %N.
func interpret(m string) (text []byte, high []bool, ok bool) {
	style, esc := false, false
	for i := 0; i < len(m); i++ {
		c := m[i]
		if esc {
			esc = false
			switch c {
			case '%':
				text, high = append(text, c), append(high, style)
			case 'S':
				style = true
			case 'N':
				style = false
			default:
				return nil, nil, false
			}
			continue
		}
		if c == '%' {
			esc = true
			continue
		}
		text, high = append(text, c), append(high, style)
	}
	return text, high, !esc
}

// H_markup: any text of single-byte characters, any width, any fraction that is a number.
func H_markup() {
	n := v.Choose("n", v.Param("n", 3)+1)
	s := string(v.Bytes("s", n))
	for i := 0; i < n; i++ {
		v.Assume(s[i] >= 0x20 && s[i] < 0x7f)
	}
	w := v.Choose("w", v.Param("w", 5)+1)
	pct := v.F64("pct")
	v.Assume(pct == pct)
	m := ui.MarkupAsProgress(s, w, pct)
	text, high, ok := interpret(m)
	v.Assert(ok, "well-formed markup")
	want := s
	for len(want) < w {
		want += " "
	}
	v.Assert(string(text) == want, "the text, padded")
	h := 0
	for h < len(high) && high[h] {
		h++
	}
	for i := h; i < len(high); i++ {
		v.Assert(!high[i], "the highlighted part is at the front")
	}
	f := pct
	if f < 0 {
		f = 0
	} else if f > 1 {
		f = 1
	}
	x := float64(w) * f
	v.Assert(float64(h) <= x && x < float64(h+1), "the highlighted part is the fraction of the width, rounded down")
	v.Reach("done")
}

// H_escape: escaping alone.
func H_escape() {
	n := v.Choose("n", v.Param("n", 4)+1)
	s := string(v.Bytes("s", n))
	text, high, ok := interpret(ui.EscapePercent(s))
	v.Assert(ok && string(text) == s, "shown literally")
	for _, b := range high {
		v.Assert(!b, "in the current style")
	}
	v.Reach("done")
}
