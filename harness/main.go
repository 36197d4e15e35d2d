package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
)

var (
	onlyTrace string
	verbose   bool
	thorough  bool
)

type job struct {
	id   string
	body func(t *T)
	cost int

	shard int
}

// spread distributes the jobs, the expensive ones first.
func spread(jobs []job, n int) {
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return jobs[order[a]].cost > jobs[order[b]].cost })
	load := make([]int, n)
	for _, i := range order {
		m := 0
		for k := range load {
			if load[k] < load[m] {
				m = k
			}
		}
		jobs[i].shard = m
		load[m] += jobs[i].cost + 50
	}
}

func main() {
	suite := flag.String("suite", "", "property id")
	seed := flag.Uint64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "trace file")
	shard := flag.Int("shard", 0, "this shard")
	shards := flag.Int("shards", 1, "number of shards")
	data := flag.String("data", "", "directory of golden files")
	plan := flag.String("plan", "", "operation sequences generated by TLC")
	tmp := flag.String("tmp", os.TempDir(), "where to put scratch files")
	flag.StringVar(&onlyTrace, "only", "", "only this trace")
	flag.BoolVar(&verbose, "v", false, "report per trace")
	mkGolden := flag.String("make-golden", "", "write the golden files into this directory")
	list := flag.Bool("list", false, "list traces")
	flag.Parse()
	thorough = *tier == "thorough"
	goldenDir = *data
	planFile = *plan
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	var jobs []job
	if *mkGolden == "" {
		jobs = suiteJobs(*suite)
	}
	spread(jobs, *shards)
	if *list {
		for _, j := range jobs {
			fmt.Println(j.shard, j.cost, j.id)
		}
		return
	}
	var err error
	scratchRoot, err = os.MkdirTemp(*tmp, "plainkv-verif-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(scratchRoot)
	if *mkGolden != "" {
		makeGolden(*mkGolden)
		return
	}
	if err := os.MkdirAll(filepath.Dir(*out), 0755); err != nil {
		die("%v", err)
	}
	f, err := os.Create(*out)
	if err != nil {
		die("%v", err)
	}
	outW = bufio.NewWriterSize(f, 1<<20)
	go watchdog()
	for _, j := range jobs {
		if j.shard != *shard {
			continue
		}
		runTrace(j.id, *seed^fnv1a([]byte(j.id)), j.body)
		outW.Flush()
	}
	if err := outW.Flush(); err != nil {
		die("%v", err)
	}
	f.Close()
}
