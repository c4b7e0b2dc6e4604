package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker|replay|list ...")
		os.Exit(2)
	}
	num := func(i int) int { n, err := strconv.Atoi(os.Args[i]); must(err); return n }
	switch os.Args[1] {
	case "cold":
		coldMain(num(2), int64(num(3)))
	case "probe":
		probeMain(os.Args[2:])
	case "surround":
		surroundMain(os.Args[2:])
	case "waits":
		waitsMain(num(2), num(3))
	case "race":
		raceMain(num(2), num(3), num(4))
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	scratch := fs.String("scratch", "/tmp/mc-scratch", "")
	capSec := fs.Int("cap", 300, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	shmp := fs.String("shm", "", "")
	deadline := fs.Int64("deadline", 0, "")
	fam := fs.String("fam", "", "")
	idx := fs.Uint64("idx", 0, "")
	upto := fs.Int("upto", 0, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(coordinate(*prop, *tier, *verif, *scratch, *capSec, seed))
	case "worker":
		a := workerArgs{prop: *prop, tier: *tier, shard: *shard, shards: *shards, out: *out, shmPath: *shmp, deadline: *deadline,
			onlyFam: *fam, onlyIdx: *idx, only: *fam != "" && *upto == 0, upTo: *upto != 0}
		runWorker(a)
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		must(err)
		var v Violation
		must(json.Unmarshal(b, &v))
		self, _ := os.Executable()
		args := []string{"worker", "-prop", v.Property, "-tier", v.Tier, "-shard", strconv.Itoa(v.Shard), "-shards", strconv.Itoa(v.Shards),
			"-out", *scratch + "/replay.json", "-fam", v.Family, "-idx", strconv.FormatUint(v.Index, 10)}
		if len(v.Repro) > 5 && v.Repro[:5] == "after" {
			args = append(args, "-upto", "1")
		}
		must(os.MkdirAll(*scratch, 0o755))
		r, crash := spawn(self, *scratch, 0, time.Hour, args...)
		if crash != "" {
			fmt.Println("REPRODUCED (crash):", crash)
			os.Exit(1)
		}
		r.Viol = append(r.Viol, r.Known...)
		if len(r.Viol) > 0 {
			o, _ := json.MarshalIndent(r.Viol[0], "", " ")
			fmt.Println("REPRODUCED:", string(o))
			os.Exit(1)
		}
		fmt.Println("not reproduced: the property holds on this item")
	case "list":
		for _, p := range properties {
			for _, f := range p.Families(*tier) {
				fmt.Printf("%s %-14s %10d  %s\n", p.ID, f.Name, f.N, f.Desc)
			}
		}
	default:
		os.Exit(2)
	}
}
