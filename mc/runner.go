package main

// The exploration runner: a property is a list of families, a family is an
// indexed finite set of items that is enumerated completely, split over
// worker processes.  Every verdict is reproducible from (family, index).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	hook "github.com/TooManySugar/ll1parser/pkg/verifhook"
)

type Family struct {
	Name string
	Desc string
	N    uint64
	Run  func(c *Ctx, i uint64)
	// Chunk > 1: consecutive indices go to the same worker in blocks
	Chunk uint64
}

type Property struct {
	ID         string
	Title      string
	Rule       string // how cases are made / what states and transitions are
	Assume     []string
	Families   func(tier string) []Family
}

type Violation struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    uint64 `json:"index"`
	What     string `json:"what"`
	Detail   map[string]any `json:"detail,omitempty"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Tier     string `json:"tier"`
	Repro    string `json:"reproduced,omitempty"`
	Key      string `json:"key,omitempty"`
}

type FamStat struct {
	Items, Done                 uint64
	States, Transitions, Traces int64
}

type Result struct {
	Fam      map[string]*FamStat
	Outcomes map[string]int64
	Counts   map[string]int64
	Samples  map[string][]string
	Viol     []Violation
	Known    []Violation // deviations with a fixed identity (Key), listed or not
	Capped   bool
	Internal string
}

type Ctx struct {
	prop     *Property
	tier     string
	fam      *Family
	famName  string
	index    uint64
	st       *FamStat
	res      *Result
	deadline time.Time
	verbose  bool
	shard    int
	shards   int
	maxViol  int
	seen     map[string]bool
}

func (c *Ctx) out(k string)            { c.res.Outcomes[k]++ }
func (c *Ctx) count(k string, n int64) { c.res.Counts[k] += n }
func (c *Ctx) sample(f func() string) {
	if l := c.res.Samples[c.famName]; len(l) < 2 {
		s := f()
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.res.Samples[c.famName] = append(l, s)
	}
}
func (c *Ctx) violate(what string, kv ...any) {
	d := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		d[fmt.Sprint(kv[i])] = fmt.Sprint(kv[i+1])
	}
	v := Violation{Property: c.prop.ID, Family: c.famName, Index: c.index, What: what, Detail: d,
		Shard: c.shard, Shards: c.shards, Tier: c.tier}
	c.res.Viol = append(c.res.Viol, v)
	if c.verbose {
		b, _ := json.MarshalIndent(v, "", "  ")
		fmt.Fprintln(os.Stderr, string(b))
	}
}
// finding reports a deviation identified by key: the coordinator prints it as
// a known finding when the findings file lists that key, else as a violation.
// The exploration goes on, allowing for exactly this deviation.
func (c *Ctx) finding(key, what string, kv ...any) {
	n := len(c.res.Viol)
	c.violate(what, kv...)
	v := c.res.Viol[n]
	c.res.Viol = c.res.Viol[:n]
	v.Key = key
	c.res.Known = append(c.res.Known, v)
}

func (c *Ctx) full() bool { return len(c.res.Viol) >= c.maxViol }

func (c *Ctx) internal(format string, a ...any) {
	if c.res.Internal == "" {
		c.res.Internal = fmt.Sprintf("%s[%d]: ", c.famName, c.index) + fmt.Sprintf(format, a...)
	}
}

var properties []*Property

func register(p *Property) { properties = append(properties, p) }

func findProp(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// ---- shared memory between coordinator and workers --------------------------

type shm struct{ b []byte }

func openShm(path string, create bool) *shm {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	must(err)
	if create {
		must(f.Truncate(4096))
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	f.Close()
	return &shm{b}
}
func (s *shm) word(i int) *uint64 { return (*uint64)(unsafe.Pointer(&s.b[i*8])) }

// word 0: stop; then per shard 2 words: family number+1, index

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(2)
	}
}

// ---- worker -------------------------------------------------------------------

func newResult() *Result {
	return &Result{Fam: map[string]*FamStat{}, Outcomes: map[string]int64{}, Counts: map[string]int64{}, Samples: map[string][]string{}}
}

type workerArgs struct {
	prop, tier    string
	shard, shards int
	out, shmPath  string
	deadline      int64 // unix seconds
	onlyFam       string
	onlyIdx       uint64
	only          bool
	upTo          bool // prefix replay: run this shard's items up to (fam, idx)
}

func runWorker(a workerArgs) {
	p := findProp(a.prop)
	if p == nil {
		must(fmt.Errorf("no property %s", a.prop))
	}
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
	res := newResult()
	c := &Ctx{prop: p, tier: a.tier, res: res, deadline: time.Unix(a.deadline, 0), shard: a.shard, shards: a.shards, maxViol: 2, seen: map[string]bool{}, verbose: a.only}
	var sm *shm
	if a.shmPath != "" {
		sm = openShm(a.shmPath, false)
	}
	fams := p.Families(a.tier)
	done := false
	for fi := range fams {
		f := &fams[fi]
		c.fam, c.famName = f, f.Name
		st := &FamStat{Items: f.N}
		res.Fam[f.Name] = st
		c.st = st
		if a.only && f.Name != a.onlyFam {
			continue
		}
		chunk := f.Chunk
		if chunk == 0 {
			chunk = 1
		}
		for i := uint64(0); i < f.N && !done; i++ {
			if a.only {
				i = a.onlyIdx
			} else if (i/chunk)%uint64(a.shards) != uint64(a.shard) {
				// jump to my next block
				blk := i / chunk
				next := blk + (uint64(a.shard)+uint64(a.shards)-blk%uint64(a.shards))%uint64(a.shards)
				i = next*chunk - 1
				continue
			}
			if sm != nil {
				*sm.word(1 + 2*a.shard) = uint64(fi + 1)
				*sm.word(2 + 2*a.shard) = i
				if *sm.word(0) != 0 {
					done = true
					break
				}
			}
			if st.Done&15 == 0 && a.deadline > 0 && time.Now().After(c.deadline) {
				res.Capped = true
				done = true
				break
			}
			c.index = i
			hook.Left = 1 << 62
			hook.Slow, hook.Block = nil, nil
			f.Run(c, i)
			st.Done++
			if c.full() {
				if sm != nil {
					*sm.word(0) = 1
				}
				done = true
			}
			if a.only {
				break
			}
			if a.upTo && f.Name == a.onlyFam && i >= a.onlyIdx {
				done = true
			}
		}
		if done {
			break
		}
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(a.out, b, 0o600))
}

// ---- coordinator ----------------------------------------------------------------

type known struct {
	Entries []struct {
		Property string `json:"property"`
		Status   string `json:"status"` // "known" or "fixed"
		Family   string `json:"family"`
		Index    *uint64 `json:"index"`
		Match    string `json:"match"` // substring of What
		Key      string `json:"key"`   // identity given by the check itself
		What     string `json:"what"`
		Commit   string `json:"commit"`
	} `json:"entries"`
}

func coordinate(propID, tier, verif, scratch string, capSec int, seed int) int {
	p := findProp(propID)
	if p == nil {
		fmt.Println("mc: unknown property", propID)
		return 2
	}
	start := time.Now()
	shards := runtime.NumCPU()
	if shards > 16 {
		shards = 16
	}
	must(os.MkdirAll(scratch, 0o755))
	shmPath := filepath.Join(scratch, "shm")
	sm := openShm(shmPath, true)
	self, err := os.Executable()
	must(err)
	deadline := start.Add(time.Duration(capSec) * time.Second).Unix()
	type wres struct {
		res   *Result
		crash string
	}
	outs := make([]wres, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			of := filepath.Join(scratch, fmt.Sprintf("out%d.json", s))
			r, crash := spawn(self, scratch, s, time.Duration(capSec+180)*time.Second, "worker", "-prop", propID, "-tier", tier, "-shard", strconv.Itoa(s),
				"-shards", strconv.Itoa(shards), "-out", of, "-shm", shmPath, "-deadline", strconv.FormatInt(deadline, 10))
			outs[s] = wres{r, crash}
			if crash != "" {
				*sm.word(0) = 1
			}
		}(s)
	}
	wg.Wait()
	total := newResult()
	var viols []Violation
	findings := map[string]Violation{}
	fams := p.Families(tier)
	for s, o := range outs {
		if o.res != nil {
			merge(total, o.res)
			viols = append(viols, o.res.Viol...)
			for _, v := range o.res.Known {
				if _, ok := findings[v.Key]; !ok {
					findings[v.Key] = v
				}
			}
		}
		if o.crash != "" {
			fi, idx := *sm.word(1 + 2*s), *sm.word(2 + 2*s)
			name := "?"
			if fi >= 1 && int(fi) <= len(fams) {
				name = fams[fi-1].Name
			}
			viols = append(viols, Violation{Property: propID, Family: name, Index: idx, Shard: s, Shards: shards, Tier: tier,
				What: "the process crashed or hung while running this item", Detail: map[string]any{"crash": o.crash}})
		}
	}
	if total.Internal != "" {
		fmt.Println("mc: INTERNAL:", total.Internal)
		return 2
	}
	sort.SliceStable(viols, func(i, j int) bool {
		a, b := viols[i], viols[j]
		fa, fb := famPos(fams, a.Family), famPos(fams, b.Family)
		if fa != fb {
			return fa < fb
		}
		return a.Index < b.Index
	})
	// classify: a violation must reproduce, alone or after the items before it
	var confirmed []Violation
	unconfirmed := 0
	known := []string{}
	for i := range viols {
		if i >= 3 {
			break
		}
		v := viols[i]
		if reproduce(self, scratch, &v, capSec) {
			confirmed = append(confirmed, v)
		} else {
			unconfirmed++
			fmt.Printf("NOTE property=%s a reported violation did not reproduce (%s[%d]: %s)\n", propID, v.Family, v.Index, v.What)
		}
	}
	kn := loadKnown(verif)
	for _, k := range sortedFindings(findings) {
		v := findings[k]
		if w := kn.keyed(propID, k); w != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", propID, w)
			known = append(known, w)
		} else {
			confirmed = append(confirmed, v)
		}
	}
	rc := 0
	shown := 0
	for _, v := range confirmed {
		if k := matchKnown(kn, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", propID, k)
			continue
		}
		path := writeReplay(verif, v, shown)
		fmt.Printf("VIOLATION property=%s replay=%s\n", propID, path)
		fmt.Printf("  %s[%d]: %s\n", v.Family, v.Index, v.What)
		for _, k := range sortedKeys(v.Detail) {
			s := fmt.Sprint(v.Detail[k])
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			fmt.Printf("    %s: %s\n", k, strings.ReplaceAll(s, "\n", "\n      "))
		}
		shown++
		rc = 1
	}
	exh := !total.Capped
	for _, f := range fams {
		st := total.Fam[f.Name]
		if st == nil || st.Done < f.N {
			exh = false
		}
	}
	writeEvidence(verif, p, tier, seed, total, fams, time.Since(start).Seconds(), shown, unconfirmed, exh, known)
	var items, tr int64
	for _, st := range total.Fam {
		items += int64(st.Done)
		tr += st.Traces
	}
	if rc == 0 {
		fmt.Printf("OK property=%s tier=%s items=%d executions=%d exhaustive=%v wall=%.1fs\n", propID, tier, items, tr, exh, time.Since(start).Seconds())
	}
	return rc
}

func famPos(fams []Family, n string) int {
	for i := range fams {
		if fams[i].Name == n {
			return i
		}
	}
	return len(fams)
}

func sortedKeys(m map[string]any) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func merge(t, r *Result) {
	for n, s := range r.Fam {
		d := t.Fam[n]
		if d == nil {
			d = &FamStat{Items: s.Items}
			t.Fam[n] = d
		}
		d.Done += s.Done
		d.States += s.States
		d.Transitions += s.Transitions
		d.Traces += s.Traces
	}
	for k, v := range r.Outcomes {
		t.Outcomes[k] += v
	}
	for k, v := range r.Counts {
		t.Counts[k] += v
	}
	for k, v := range r.Samples {
		if len(t.Samples[k]) < 2 {
			t.Samples[k] = append(t.Samples[k], v...)
		}
	}
	t.Capped = t.Capped || r.Capped
	if t.Internal == "" {
		t.Internal = r.Internal
	}
}

// spawn runs one worker process; crash is non-empty when it did not finish.
func spawn(self, scratch string, tag int, limit time.Duration, args ...string) (*Result, string) {
	var of string
	for i, a := range args {
		if a == "-out" {
			of = args[i+1]
		}
	}
	os.Remove(of)
	logf := filepath.Join(scratch, fmt.Sprintf("log%d.%d", tag, time.Now().UnixNano()))
	lf, err := os.Create(logf)
	must(err)
	defer os.Remove(logf)
	cmd := exec.Command(self, args...)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "VERIF_LOG="+logf)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Kill()
		err = <-done
	}
	lf.Close()
	if err != nil {
		b, _ := os.ReadFile(logf)
		s := string(b)
		if len(s) > 6000 {
			s = s[:3000] + "\n...\n" + s[len(s)-3000:]
		}
		if timedOut {
			s = "worker stopped making progress (killed)\n" + s
		}
		if ps := cmd.ProcessState; ps != nil {
			if ws, ok := ps.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !timedOut && len(bytes.TrimSpace(b)) == 0 {
				s = "killed by " + ws.Signal().String()
			}
		}
		return nil, s + "\n" + err.Error()
	}
	b, err := os.ReadFile(of)
	if err != nil {
		return nil, "worker exited without a result: " + err.Error()
	}
	var r Result
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err.Error()
	}
	return &r, ""
}

// reproduce re-runs the item alone 5 times, and if that stays silent re-runs
// the worker's items up to it (state leaked between items).
func reproduce(self, scratch string, v *Violation, capSec int) bool {
	of := filepath.Join(scratch, "repro.json")
	hits, tries := 0, 0
	for tries < 5 {
		tries++
		r, crash := spawn(self, scratch, 999, 300*time.Second, "worker", "-prop", v.Property, "-tier", v.Tier, "-shard", strconv.Itoa(v.Shard),
			"-shards", strconv.Itoa(v.Shards), "-out", of, "-fam", v.Family, "-idx", strconv.FormatUint(v.Index, 10))
		if crash != "" || (r != nil && len(r.Viol)+len(r.Known) > 0) {
			hits++
		}
	}
	if hits > 0 {
		v.Repro = fmt.Sprintf("item alone in a fresh process: %d of %d runs", hits, tries)
		return true
	}
	for k := 0; k < 2; k++ {
		r, crash := spawn(self, scratch, 998, time.Duration(capSec)*time.Second, "worker", "-prop", v.Property, "-tier", v.Tier, "-shard", strconv.Itoa(v.Shard),
			"-shards", strconv.Itoa(v.Shards), "-out", of, "-fam", v.Family, "-idx", strconv.FormatUint(v.Index, 10), "-upto", "1")
		if crash != "" || (r != nil && len(r.Viol) > 0) {
			v.Repro = "after the items explored before it in the same process"
			return true
		}
	}
	return false
}

func sortedFindings(m map[string]Violation) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (k known) keyed(prop, key string) string {
	for _, e := range k.Entries {
		if e.Status == "known" && e.Property == prop && e.Key == key {
			return e.What
		}
	}
	return ""
}

func loadKnown(verif string) known {
	var k known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		must(json.Unmarshal(b, &k))
	}
	return k
}

func matchKnown(k known, v Violation) string {
	for _, e := range k.Entries {
		if e.Status != "known" || e.Key != "" || e.Property != v.Property || e.Family != v.Family {
			continue
		}
		if e.Index != nil && *e.Index != v.Index {
			continue
		}
		if !strings.Contains(v.What, e.Match) {
			continue
		}
		return e.What
	}
	return ""
}

func writeReplay(verif string, v Violation, n int) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, n))
	b, _ := json.MarshalIndent(struct {
		Violation
		How string `json:"how_to_replay"`
	}{v, fmt.Sprintf("cd /verif && ./check.sh replay %s", path)}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(verif string, p *Property, tier string, seed int, t *Result, fams []Family, wall float64, viol, unconf int, exh bool, known []string) {
	var states, trans, traces, items int64
	famOut := []map[string]any{}
	for _, f := range fams {
		st := t.Fam[f.Name]
		if st == nil {
			st = &FamStat{Items: f.N}
		}
		states += st.States
		trans += st.Transitions
		traces += st.Traces
		items += int64(st.Done)
		famOut = append(famOut, map[string]any{"family": f.Name, "what": f.Desc, "items": f.N, "explored": st.Done,
			"states": st.States, "transitions": st.Transitions, "executions_of_the_real_code": st.Traces})
	}
	samples := []string{}
	for _, f := range fams {
		for _, s := range t.Samples[f.Name] {
			samples = append(samples, f.Name+": "+s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "(none)")
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": traces,
		"items_enumerated": items, "rule": p.Rule, "families": famOut, "distinct_outcomes": t.Outcomes,
		"samples": samples, "exhaustive": exh, "unconfirmed_reports": unconf, "known_findings_observed": known,
	}
	for k, v := range t.Counts {
		cov["count_"+k] = v
	}
	if t.Capped {
		cov["cap"] = "the internal time cap was reached; families list what was fully explored"
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	must(os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644))
}
