package stats

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"
)

// every percentage, at the width the printer uses and others
func TestVerif_C22_bar(t *testing.T) {
	vc := newVCases(t)
	for _, width := range []int{20, 0, 1, 7, 10, 33, 100} {
		last := 0
		for p := 0; p <= 100; p++ {
			vc.add(fmt.Sprintf("progressBar(%d, %d)", p, width))
			var s string
			if m := vpanic(func() { s = progressBar(p, width) }); m != "" {
				vfail(t, "progressBar(%d, %d): %s", p, width, m)
			}
			a, b := strings.Index(s, "|"), strings.LastIndex(s, "|")
			if a < 0 || b <= a {
				vfail(t, "progressBar(%d, %d) = %q has no bar", p, width, s)
			}
			bar := s[a+1 : b]
			if utf8.RuneCountInString(bar) != width {
				vfail(t, "progressBar(%d, %d) = %q: bar of %d characters", p, width, s, utf8.RuneCountInString(bar))
			}
			filled := utf8.RuneCountInString(strings.TrimRight(bar, " "))
			if filled < last || (p == 100 && filled != width) || (p == 0 && filled != 0) || filled*100 > width*p+100 || filled*100+100 < width*p {
				vfail(t, "progressBar(%d, %d) = %q: %d filled", p, width, s, filled)
			}
			last = filled
			if !strings.Contains(s[b:], fmt.Sprintf(" %d%%", p)) {
				vfail(t, "progressBar(%d, %d) = %q does not show the percentage", p, width, s)
			}
		}
	}
}
