// Package verifgen makes inputs for the replay harness and records what was
// tried.
package verifgen

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	logging "github.com/op/go-logging"
)

// Violation is a concrete input on which the real code breaks a property.
type Violation struct {
	What  string `json:"what"`
	Input string `json:"input"`
}

// Rec records one harness run for one property.
type Rec struct {
	Property    string      `json:"property"`
	Name        string      `json:"name"`
	Rule        string      `json:"rule"`
	Evaluations int         `json:"evaluations"`
	Distinct    int         `json:"distinct_nontrivial"`
	Samples     []string    `json:"samples"`
	Violations  []Violation `json:"violations"`
	Skipped     int         `json:"skipped,omitempty"`

	seen  map[uint64]bool
	t     *testing.T
	R     *rand.Rand `json:"-"`
	until time.Time
	tier  string
	trace string
	cur   string
}

// Start begins the harness run called name for a property.
func Start(t *testing.T, property, name, rule string) *Rec {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", seed, property, name)
	r := &Rec{Property: property, Name: name, Rule: rule, seen: map[uint64]bool{}, t: t,
		R: rand.New(rand.NewSource(int64(h.Sum64() >> 1)))}
	r.tier = os.Getenv("VERIF_TIER")
	r.trace = os.Getenv("VERIF_TRACE")
	secs := 40
	if r.tier == "thorough" {
		secs = 240
	}
	r.until = time.Now().Add(time.Duration(secs) * time.Second)
	logging.SetBackend(logging.NewLogBackend(ioutil.Discard, "", 0))
	logging.SetLevel(logging.CRITICAL, "")
	t.Cleanup(r.write)
	return r
}

// N is the number of cases: quick, or more for the thorough tier.
func (r *Rec) N(quick, thorough int) int {
	if r.tier == "thorough" {
		return thorough
	}
	return quick
}

// Run calls f for n cases, until a violation or the end of the time.
func (r *Rec) Run(n int, f func(i int)) {
	for i := 0; i < n && len(r.Violations) == 0 && time.Now().Before(r.until); i++ {
		i := i
		r.Try(func() { f(i) })
	}
}

// Try calls f; a panic is a violation.
func (r *Rec) Try(f func()) {
	defer func() {
		if e := recover(); e != nil {
			r.Fail(fmt.Sprintf("panic: %v\n%s", e, short(debug.Stack())), r.cur)
		}
	}()
	f()
}

func short(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// Case notes the case about to be tried; key identifies it.
func (r *Rec) Case(nontrivial bool, input string) {
	r.Evaluations++
	r.cur = input
	if r.trace != "" {
		os.WriteFile(filepath.Join(r.trace, r.Property+"-"+r.Name+".current"), []byte(input), 0644)
	}
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(input))
	if k := h.Sum64(); !r.seen[k] {
		r.seen[k] = true
		r.Distinct++
		if len(r.Samples) < 3 && (r.Distinct == 1 || r.R.Intn(20) == 0) {
			if len(input) > 1500 {
				input = input[:1500] + "..."
			}
			r.Samples = append(r.Samples, input)
		}
	}
}

// Skip counts a generated case that was not usable.
func (r *Rec) Skip() { r.Skipped++ }

// Fail records a violation.
func (r *Rec) Fail(what, input string) {
	r.Violations = append(r.Violations, Violation{what, input})
}

// Failed tells whether a violation was recorded.
func (r *Rec) Failed() bool { return len(r.Violations) > 0 }

func (r *Rec) write() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		if len(r.Violations) > 0 {
			r.t.Errorf("%s %s: %s\ninput:\n%s", r.Property, r.Name, r.Violations[0].What, r.Violations[0].Input)
		}
		r.t.Logf("%s %s: %d cases, %d distinct", r.Property, r.Name, r.Evaluations, r.Distinct)
		return
	}
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(filepath.Join(out, r.Property+"-"+r.Name+".json"), b, 0644); err != nil {
		r.t.Fatal(err)
	}
}
