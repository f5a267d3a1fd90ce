// The parts of the harness that name unexported functions.
//
//verif:optional

package actions

import (
	"fmt"
	"testing"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
)

func TestVerif_C07_format(t *testing.T) {
	r := g.Start(t, "C07", "format", "random texts made of marker pieces with random previous texts, given to format; non-trivial: a percent sign in the text")
	pieces := []string{"%", "v", "k", "l", "h", "f", "{", "}", "%v", "%k", "%l", "%h", "%f", " ", "$1", "${1}", "\\1", "V", "%V", "%K", "%s", "d", "é", "\n", "x", "%%", "{}", "#", "\xff"}
	text := func(k int) string {
		b := ""
		for i := r.R.Intn(k); i > 0; i-- {
			b += pieces[r.R.Intn(len(pieces))]
		}
		return b
	}
	r.Run(r.N(20000, 300000), func(int) {
		x, v, l, h, f, k := text(g.PickInt(r.R, 9, 9, 9, 9, 9, 9, 60)), text(4), text(4), text(4), text(4), text(4)
		if sedCommand(x) {
			r.Skip()
			return
		}
		in := fmt.Sprintf("format(%q, %q, %q, %q, %q, %q)", x, v, l, h, f, k)
		r.Case(len(x) > 1, in)
		if got, want := format(x, v, l, h, f, k), s.Format(x, v, l, h, f, k); got != want {
			r.Fail(fmt.Sprintf("is %q, should be %q", got, want), in)
		}
	})
}
