package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

// Case is one generated case of a property.
type Case struct {
	*G
	Index int
	Desc  string // what the case is, for the replay file
	Triv  bool   // the case exercised nothing
	Tag   string // distinguishes cases for the distinct count
}

type checkFn func(c *Case) error

var checks = map[string]checkFn{}

func (c *Case) descf(f string, a ...interface{}) { c.Desc += fmt.Sprintf(f, a...) + "\n" }

func seedFor(seed int64, prop string, idx int) int64 {
	h := uint64(seed)*0x9E3779B97F4A7C15 + uint64(idx)*0xBF58476D1CE4E5B9
	for _, ch := range prop {
		h = (h ^ uint64(ch)) * 0x100000001b3
	}
	h ^= h >> 29
	return int64(h)
}

func runCase(prop string, seed int64, idx int) (c *Case, err error) {
	r := rand.New(rand.NewSource(seedFor(seed, prop, idx)))
	c = &Case{G: NewG(r), Index: idx}
	c.big = idx%3 == 2
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	err = checks[prop](c)
	return
}

type Result struct {
	Property string   `json:"property"`
	Cases    int      `json:"cases"`
	NonTriv  int      `json:"distinct_nontrivial"`
	Failed   bool     `json:"failed"`
	Seed     int64    `json:"seed"`
	Case     int      `json:"case"`
	Message  string   `json:"message,omitempty"`
	Input    string   `json:"input,omitempty"`
	Samples  []string `json:"samples"`
	Wall     float64  `json:"wall_s"`
}

var cliPath, tmpDir string

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 5, "seconds")
	start := flag.Int("start", 0, "first case")
	stride := flag.Int("stride", 1, "case stride")
	max := flag.Int("max", 1<<30, "largest case index")
	out := flag.String("out", "", "result file")
	prog := flag.String("progress", "", "progress file")
	one := flag.Int("case", -1, "run just this case")
	flag.StringVar(&cliPath, "cli", "", "rap-cli binary")
	flag.StringVar(&tmpDir, "tmp", "", "scratch dir")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	debug.SetGCPercent(200)
	if *list {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
		return
	}
	if checks[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	res := Result{Property: *prop, Seed: *seed}
	t0 := time.Now()
	if *one >= 0 {
		for k := 0; k < 60; k++ { // map iteration order may matter
			c, err := runCase(*prop, *seed, *one)
			res.Cases++
			if err != nil {
				res.Failed, res.Case, res.Message, res.Input = true, *one, err.Error(), c.Desc
				break
			}
		}
	} else {
		seen := map[uint64]bool{}
		for i := *start; i <= *max; i += *stride {
			if time.Since(t0).Seconds() > *budget {
				break
			}
			if pf != nil {
				pf.WriteAt([]byte(fmt.Sprintf("%12d\n", i)), 0)
			}
			c, err := runCase(*prop, *seed, i)
			res.Cases++
			if !c.Triv {
				h := fnv.New64a()
				h.Write([]byte(c.Desc))
				h.Write([]byte(c.Tag))
				k := h.Sum64()
				if len(seen) < 2000000 && !seen[k] {
					seen[k] = true
					res.NonTriv++
				}
			}
			if len(res.Samples) < 3 && !c.Triv && len(c.Desc) > 0 && len(c.Desc) < 1500 {
				res.Samples = append(res.Samples, c.Desc)
			}
			if err != nil {
				res.Failed, res.Case, res.Message, res.Input = true, i, err.Error(), c.Desc
				break
			}
		}
	}
	res.Wall = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
}
