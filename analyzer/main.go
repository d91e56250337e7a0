package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var properties = map[string]*Property{}

func register(p *Property) { properties[p.id] = p }

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "verification directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "only rules containing this text")
	debugF := flag.Bool("debug", false, "print every outcome")
	jobs := flag.Int("jobs", 0, "number of processes that share the obligations")
	shard := flag.String("shard", "", "i/n: decide every n-th obligation and print the result for the parent process")
	flag.Parse()
	if *jobs == 0 {
		*jobs = 1
		if *only == "" && !*debugF {
			*jobs = min(runtime.NumCPU(), 8)
		}
	}
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif, _ = os.Getwd()
	}
	start := time.Now()
	var p *Program
	var err error
	if *jobs == 1 || *shard != "" {
		p, err = Load(*repo)
	}
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		os.Exit(3)
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		pr := properties[id]
		if pr == nil {
			fmt.Println("unknown property", id)
			os.Exit(3)
		}
		c := &C{p: p, id: id, tier: *tier, funcs: map[string]bool{}, unmod: map[string]int{}, only: *only, debug: *debugF, dress: pr.dress || os.Getenv("DRESS") != ""}
		if *shard != "" {
			fmt.Sscanf(*shard, "%d/%d", &c.shard, &c.shards)
			if f := os.Getenv("CPUPROFILE"); f != "" && c.shard == 0 {
				out, _ := os.Create(f)
				pprof.StartCPUProfile(out)
				defer pprof.StopCPUProfile()
			}
			pr.run(c)
			stopJavac()
			c.hand()
			return
		}
		if *jobs > 1 {
			if err := c.split(*jobs, "-repo", *repo, "-verif", *verif, "-tier", *tier, "-only", *only); err != nil {
				fmt.Println("cannot analyse:", err)
				os.Exit(3)
			}
		} else {
			pr.run(c)
		}
		if r := c.finish(pr, *verif, start); r != 0 {
			rc = r
		}
		start = time.Now()
	}
	stopJavac()
	os.Exit(rc)
}

const handMark = "\n=== shard result\n"

// handed is what the process of one shard gives its parent.
type handed struct {
	Obs                                  []Ob
	Funcs                                []string
	Unmod                                map[string]int
	Steps, Calls, Forks, Outcomes, Scens int
}

func (c *C) hand() {
	h := handed{Obs: c.obs, Unmod: c.unmod, Steps: c.steps, Calls: c.calls, Forks: c.forks, Outcomes: c.outcomes, Scens: c.scen}
	for f := range c.funcs {
		h.Funcs = append(h.Funcs, f)
	}
	raw, _ := json.Marshal(h)
	fmt.Print(handMark + string(raw))
}

// split decides the obligations in n processes.
func (c *C) split(n int, flags ...string) error {
	self, err := os.Executable()
	if err != nil {
		return err
	}
	type res struct {
		h   handed
		err error
	}
	ch := make(chan res, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			cmd := exec.Command(self, append(append([]string{}, flags...), "-shard", fmt.Sprintf("%d/%d", i, n), c.id)...)
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, os.Stderr
			err := cmd.Run()
			_, raw, ok := strings.Cut(out.String(), handMark)
			var r res
			if !ok {
				r.err = fmt.Errorf("part %d: %v: %s", i, err, out.String())
			} else {
				r.err = json.Unmarshal([]byte(raw), &r.h)
			}
			ch <- r
		}()
	}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			err = r.err
			continue
		}
		c.obs = append(c.obs, r.h.Obs...)
		for _, f := range r.h.Funcs {
			c.funcs[f] = true
		}
		for k, v := range r.h.Unmod {
			c.unmod[k] += v
		}
		c.steps += r.h.Steps
		c.calls += r.h.Calls
		c.forks += r.h.Forks
		c.outcomes += r.h.Outcomes
		c.scen += r.h.Scens
	}
	sort.SliceStable(c.obs, func(i, j int) bool { return c.obs[i].N < c.obs[j].N })
	return err
}
