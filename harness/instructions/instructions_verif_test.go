// The parts of the harness that name unexported functions.
//
//verif:optional

package instructions

import (
	"testing"

	g "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifgen"
	s "github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/verifspec"
)

func TestVerif_C18_nodes(t *testing.T) {
	r := g.Start(t, "C18", "nodes", "random documents with comments, styles, anchors and aliases, given to the function that removes comments; non-trivial: a comment")
	r.Run(r.N(4000, 60000), func(int) {
		o := g.Opt{Depth: 1 + r.R.Intn(4), Comments: 2 + r.R.Intn(3), Styles: true, Keys: 6, Aliases: true, Odd: r.R.Intn(3) == 0, Root: []int{0, 1}[r.R.Intn(2)]}
		n := g.Tree(r.R, o)
		ids := g.NewIDs(n)
		before := ids.Spec(n)
		in := "document:\n" + g.Show(before)
		r.Case(g.Diff(before, s.NoComments(before)) != "", in)
		removeCommentsFromNode(n)
		if d := g.Diff(ids.Spec(n), s.NoComments(before)); d != "" {
			r.Fail("after the removal of comments "+d, in)
		}
	})
}
