package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated or undecided obligation.
type Finding struct {
	Rule string `json:"rule"`
	Pos  string `json:"pos"`
	Msg  string `json:"msg"`
}

// Checker decides one property.
type Checker struct {
	P     *Program
	V     *Verifier
	Prop  *Property
	Finds []Finding

	counts  map[string]int
	samples []string
	rules   []string
	funcs   map[string]bool
}

func (c *Checker) fail(rule, pos, format string, args ...interface{}) {
	c.Finds = append(c.Finds, Finding{rule, pos, fmt.Sprintf(format, args...)})
}

func (c *Checker) sample(format string, args ...interface{}) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

func (c *Checker) run() {
	if len(c.Prop.Entries) > 0 {
		c.rules = append(c.rules, "every path of the function, paired with the model's path under the same conditions, makes the same outside calls with the same data, returns the same result and leaves the same memory")
	}
	for _, n := range c.Prop.Assume {
		if u := c.V.Units[n]; u != nil && u.res == nil {
			u.res = &Result{OK: true, Given: true, Mode: "taken to behave as its model; decided under other properties"}
		}
	}
	for _, en := range c.Prop.Entries {
		name := ""
		for _, n := range splitBar(en) {
			if c.V.Units[n] != nil {
				name = n
				break
			}
		}
		if name == "" {
			c.fail("anchor", "-", "%s: no such function with the expected signature, or the types it works on changed: the obligation cannot be resolved%s", en, c.P.dropNote(en))
			continue
		}
		t := time.Now()
		r := c.V.Verify(name)
		fmt.Fprintf(os.Stderr, "%s %s ok=%v %v\n", c.Prop.ID, name, r.OK, time.Since(t).Round(time.Millisecond))
		c.counts["obligations"]++
		if r.OK {
			c.counts["discharged"]++
			c.sample("%s: %d paths paired with the model's, %d exits compared, %d loops related (%s)", name, r.Pairs, r.Exits, r.Loops, r.Mode)
		}
		for i, x := range r.Viol {
			if i < 3 {
				c.fail("model "+name, x.Pos, "%s: %s", name, x.Msg)
			}
		}
	}
	for _, u := range c.V.Units {
		if r := u.res; r != nil && !r.Given {
			c.counts["functions related to the model"]++
			c.counts["path pairs compared"] += r.Pairs
			c.counts["loops related"] += r.Loops
			c.counts["exits compared"] += r.Exits
			c.counts["instructions interpreted"] += r.Inst
			for _, f := range r.Funcs {
				c.funcs[f] = true
			}
		}
	}
	c.shapes()
	if c.Prop.Wire {
		c.wire()
	}
	c.consts()
	for _, r := range c.Prop.Rules {
		r(c)
	}
}

func evidence(verif string, prop *Property, c *Checker, wall time.Duration, assumptions []string) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]interface{}{}
	viol := 0
	if c != nil {
		viol = len(c.Finds)
		cov["programs"] = c.counts["functions related to the model"]
		cov["disagreements_checked"] = c.counts["path pairs compared"]
		cov["samples"] = c.samples
		cov["rules"] = c.rules
		for k, v := range c.counts {
			cov[strings.ReplaceAll(k, " ", "_")] = v
		}
		var fs []string
		for f := range c.funcs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		cov["functions_analysed"] = fs
		if prop.Level == "other" {
			cov["explanation"] = strings.Join(c.rules, "; ")
		}
		if len(c.Finds) > 0 {
			cov["findings"] = c.Finds
		}
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier, "seed": seed, "level": prop.Level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": viol, "assumptions": assumptions,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"callbacks and user-supplied comparison functions are functions of their arguments",
	"distinct objects passed to one call do not overlap, and inner slices of a slice of slices are distinct",
	"paths on which the model itself panics (an index outside its array, a nil pointer) are not compared",
	"termination is not decided: loops are related iteration by iteration",
	"the standard library behaves as documented",
}

// decide checks one property and returns the exit status.
func decide(repo, verif string, prop *Property) (status int) {
	t0 := time.Now()
	c := &Checker{Prop: prop, counts: map[string]int{}, funcs: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				c.fail("analysis", "-", "the analysis could not be completed: %.300v\n%s", r, st)
			}
		}()
		p, err := load(repo)
		if err != nil {
			c.fail("load", "-", "%v", err)
			return
		}
		c.P = p
		c.V = newVerifier(p)
		total := 480 * time.Second
		if os.Getenv("VERIF_TIER") == "thorough" {
			c.V.Budget, total = 300*time.Second, 3600*time.Second
		}
		c.V.Deadline = t0.Add(total)
		c.run()
	}()
	if err := evidence(verif, prop, c, time.Since(t0), assumptions); err != nil {
		fmt.Println(err)
	}
	if len(c.Finds) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d path-pairs=%d %v\n", prop.ID, c.counts["obligations"], len(c.funcs), c.counts["path pairs compared"], time.Since(t0).Round(time.Millisecond))
		return 0
	}
	rp := filepath.Join(verif, "evidence", prop.ID+".violations.txt")
	var sb strings.Builder
	for _, f := range c.Finds {
		fmt.Fprintf(&sb, "%s: [%s] %s\n", f.Pos, f.Rule, f.Msg)
	}
	fmt.Fprintf(&sb, "\nreplay: bash /verif/check.sh %s\n", prop.ID)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range c.Finds {
		if i < 8 {
			fmt.Printf("%s: [%s] %.600s\n", f.Pos, f.Rule, f.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, rp)
	return 1
}

func splitBar(s string) []string { return strings.Split(s, "|") }
