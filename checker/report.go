package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Report collects the obligations and violations of one property's check.
type Report struct {
	mu     sync.Mutex
	ID     string
	Rule   string
	Assume []string
	Oblig  int
	Counts map[string]int
	Sample []string
	viol   map[string]*Violation
	t0     time.Time
	min    map[string]int
}

type Violation struct {
	Key  string // rule|function|construct, stable under edits elsewhere
	Msg  string
	Kind string
}

func newReport(id string) *Report {
	return &Report{ID: id, Counts: map[string]int{}, viol: map[string]*Violation{}, t0: time.Now(), min: map[string]int{}}
}

// ok records a discharged (or at least examined) obligation.
func (r *Report) ok(n int) { r.mu.Lock(); r.Oblig += n; r.mu.Unlock() }
func (r *Report) count(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}
func (r *Report) sample(s string) {
	r.mu.Lock()
	if len(r.Sample) < 12 {
		r.Sample = append(r.Sample, s)
	}
	r.mu.Unlock()
}
func (r *Report) bad(key, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.viol[key] == nil {
		r.viol[key] = &Violation{Key: key, Msg: fmt.Sprintf(format, a...)}
	}
}

// atLeast makes the check fail when a count is below the floor (a vacuous analysis proves nothing).
func (r *Report) atLeast(k string, n int) { r.min[k] = n }

func loadKnown(verif string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=P12 key=<key> :: text
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " :: ", 2)
		h := strings.SplitN(f[0], " key=", 2)
		if len(h) != 2 || len(f) != 2 {
			continue
		}
		out[strings.TrimPrefix(h[0], "property=")+"|"+strings.TrimSpace(h[1])] = f[1]
	}
	return out
}

// finish writes the evidence, prints the verdict and returns the exit code.
func (r *Report) finish(verif string) int {
	for k, n := range r.min {
		if r.Counts[k] < n {
			r.bad("vacuous|"+k, "the analysis covered only %d %s, expected at least %d: the code no longer has the shape the rule is about", r.Counts[k], k, n)
		}
	}
	known := loadKnown(verif)
	var keys []string
	for k := range r.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var open []*Violation
	var knownHit []string
	for _, k := range keys {
		if t, ok := known[r.ID+"|"+k]; ok {
			knownHit = append(knownHit, k)
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.ID, t, k)
			continue
		}
		open = append(open, r.viol[k])
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0755)
	replay := filepath.Join(ev, r.ID+".violations.txt")
	os.Remove(replay)
	if len(open) > 0 {
		var sb strings.Builder
		for _, v := range open {
			fmt.Fprintf(&sb, "%s\n  %s\n", v.Key, strings.ReplaceAll(v.Msg, "\n", "\n  "))
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":         r.Rule,
		"obligations":         r.Oblig,
		"discharged":          r.Oblig - len(r.viol),
		"samples":             r.Sample,
		"counts":              r.Counts,
		"known_findings_seen": knownHit,
	}
	var vs []string
	for _, v := range open {
		vs = append(vs, v.Key+": "+v.Msg)
	}
	doc := map[string]interface{}{
		"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(r.t0).Seconds(), "violations": len(open), "violation_list": vs,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.ID+".json"), b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(open) > 0 {
		for i, v := range open {
			if i == 25 {
				fmt.Printf("... and %d more\n", len(open)-25)
				break
			}
			fmt.Printf("%s\n    %s\n", v.Key, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d counts=%v wall=%.1fs\n", r.ID, r.Oblig, r.Counts, time.Since(r.t0).Seconds())
	return 0
}
