package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	prop := flag.String("prop", "", "property to decide")
	all := flag.Bool("all", false, "decide every property on one analysis (for development)")
	repeat := flag.Int("repeat", 0, "verify the functions that many times more first")
	first := flag.Bool("first", false, "with -all: stop at the first alarm")
	cover := flag.Bool("cover", false, "with -all: list reachable functions no obligation looked at")
	shapes := flag.Bool("shapes", false, "print the struct shapes of the repository")
	flag.Parse()
	if pf := os.Getenv("PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *prop != "" {
		for _, p := range properties {
			if p.ID == *prop {
				os.Exit(decide(*repo, *verif, p))
			}
		}
		fmt.Println("no such property")
		os.Exit(2)
	}
	t0 := time.Now()
	p, err := load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *shapes {
		p.printShapes()
		return
	}
	v := newVerifier(p)
	v.Deadline = t0.Add(15 * time.Minute)
	if *all {
		// One analysis shared by all properties: which of them would report.
		for _, pr := range properties {
			t := time.Now()
			v := v
			if len(pr.Assume) > 0 || *cover {
				v = newVerifier(p)
				v.Deadline = t0.Add(15 * time.Minute)
			}
			c := &Checker{P: p, V: v, Prop: pr, counts: map[string]int{}, funcs: map[string]bool{}}
			c.run()
			s := "quiet"
			if len(c.Finds) > 0 {
				s = fmt.Sprintf("ALARM %.500s: %.500s", c.Finds[0].Pos, c.Finds[0].Msg)
			}
			if *cover {
				fmt.Println(pr.ID, "uncovered:", c.uncovered())
				for _, n := range v.names {
					if r := v.Units[n].res; r != nil && !r.OK {
						fmt.Printf("%s %s fails: %.300s\n", pr.ID, n, r.Viol[0].Msg)
					}
				}
			}
			fmt.Println(pr.ID, s, time.Since(t).Round(time.Millisecond))
			if *first && s != "quiet" {
				return
			}
		}
		fmt.Println(time.Since(t0))
		return
	}
	args := flag.Args()
	if len(args) == 0 {
		args = append(args, v.names...)
	}
	for i := 0; i < *repeat; i++ {
		w := newVerifier(p)
		w.Deadline = t0.Add(15 * time.Minute)
		for _, a := range args {
			t := time.Now()
			r := w.Verify(a)
			fmt.Println("again", i, a, r.OK, time.Since(t))
		}
	}
	for _, a := range args {
		t := time.Now()
		r := v.Verify(a)
		fmt.Fprintln(os.Stderr, a, r.OK, time.Since(t))
	}
	var names []string
	for n, u := range v.Units {
		if u.res != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r := v.Units[n].res
		fmt.Println(n, r)
		for i, x := range r.Viol {
			if i < 4 {
				fmt.Println("    ", x.Pos, x.Msg)
			}
		}
	}
	fmt.Println(time.Since(t0))
}
