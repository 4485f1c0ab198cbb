package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gRedis/verifsim/sim"
)

func mix(seed uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	r := sim.NewRand(h.Sum64())
	r.Uint64()
	return r.Uint64()
}

func planFor(prop string, seed uint64, i int) *Plan {
	s := mix(seed, prop, i)
	g := newGen(s)
	p := props[prop].Gen(s, g)
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C16", "C17":
		if p.DbNum > 1 && g.p(8) { // the whole run in another database
			sel := cmd("select", strconv.Itoa(1+g.Intn(p.DbNum-1)))
			put := func(o []Op) []Op {
				if len(o) == 0 {
					return o
				}
				return append([]Op{sel}, o...)
			}
			p.Setup, p.Final = put(p.Setup), put(p.Final)
			for i := range p.Clients {
				p.Clients[i].Ops = put(p.Clients[i].Ops)
			}
		}
	}
	return p
}

// Stats is what a worker measured.
type Stats struct {
	Runs, Events, Errors, Overlap int
	Unknown                       int
	Nontrivial                    []uint64 // hashes
	Sync                          []uint64
	Steps, Switches, SimNs        uint64
	Faults                        map[string]int
	Cmds                          map[string]int
	Kinds                         map[string]int
	Notes                         map[string]int
	Outcomes                      map[string]int
	Samples                       []string
	RunNs                         int64
}

type report struct {
	Viol  *violRep `json:"viol,omitempty"`
	Stats *Stats   `json:"stats,omitempty"`
}
type violRep struct {
	Index int
	Class string
	Text  string
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Cmds: map[string]int{}, Kinds: map[string]int{}, Notes: map[string]int{}, Outcomes: map[string]int{}}
}

func planHash(p *Plan) uint64 {
	h := fnv.New64a()
	enc := func(v interface{}) { b, _ := json.Marshal(v); h.Write(b) }
	enc(p.Setup)
	enc(p.Clients)
	enc(p.Disk)
	enc(p.Conf)
	enc(p.Args)
	enc(p.Logs)
	enc(p.Logs2)
	enc(p.Accept)
	enc(p.Sigs)
	enc(p.SegNums)
	return h.Sum64()
}

// nontrivial applies the property's rule.
func nontrivial(r *Run, over bool, faults int, errs int) bool {
	p := r.P
	switch p.Prop {
	case "C06":
		return r.S.Now()-r.S.Start() > 1e9
	case "C09":
		return faults > 0 || r.S.Probes["pipelined"] > 0
	case "C11", "C12", "C14":
		return faults > 0
	case "C16":
		return errs > 0
	case "C17":
		return len(p.Clients) > 1 || len(r.Ev) > 4
	case "C18":
		return len(p.SegNums) > 1 && len(p.Clients[0].Ops) > 4
	case "C19":
		return faults > 0 || len(p.Logs) > 1 || len(p.Clients) > 1
	case "C20":
		return faults > 0 || strings.TrimSpace(string(*p.Conf)) != ""
	}
	return over
}

func (s *Stats) add(r *Run, ph uint64) {
	s.Runs++
	s.Steps += r.S.Steps
	s.Switches += r.S.Switches
	s.SimNs += uint64(r.S.Now()-r.S.Start()) + uint64(r.Note["more_ns"])
	faults := 0
	for k, n := range r.S.Probes {
		if strings.HasPrefix(k, "fault:") {
			s.Faults[k[6:]] += n
			faults += n
		} else {
			s.Notes[k] += n
		}
	}
	errs := 0
	for _, e := range r.Ev {
		s.Events++
		s.Cmds[strings.ToLower(trunc(e.Args[0], 16))]++
		if e.Done && e.Reply.T == '-' {
			errs++
		}
	}
	s.Errors += errs
	over := false
	for i, e := range r.Ev {
		for _, f := range r.Ev[i+1:] {
			if f.Conn != e.Conn && f.Call <= e.Ret && e.Call <= f.Ret {
				over = true
				s.Overlap++
			}
			if f.Call > e.Ret {
				break
			}
		}
	}
	if r.linUnknown {
		s.Unknown++
	}
	s.Kinds[r.P.Kind]++
	s.Outcomes[r.S.Outcome]++
	for k, n := range r.Note {
		s.Notes[k] += n
	}
	s.Sync = append(s.Sync, r.S.SyncHash())
	if nontrivial(r, over, faults, errs) {
		s.Nontrivial = append(s.Nontrivial, ph^r.S.SyncHash()*0x9E3779B97F4A7C15)
		if len(s.Samples) < 1 && s.Runs > 3 {
			s.Samples = append(s.Samples, sample(r))
		}
	}
}

func trunc(s string, n int) string {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return "(binary)"
		}
	}
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sample(r *Run) string {
	p := r.P
	var b strings.Builder
	fmt.Fprintf(&b, "seed %d kind %q args %v policy %+v steps %d switches %d", p.Seed, p.Kind, p.Args, p.Pol, r.S.Steps, r.S.Switches)
	if p.Conf != nil {
		fmt.Fprintf(&b, " conf %s", short(string(*p.Conf)))
	}
	for _, f := range p.Disk {
		fmt.Fprintf(&b, " disk{%s %s %d-%d %s keep %d}", f.Op, f.Path, f.From, f.To, f.Err, f.Keep)
	}
	if len(p.Sigs) > 0 {
		fmt.Fprintf(&b, " signals %v", p.Sigs)
	}
	if len(p.Accept) > 0 {
		fmt.Fprintf(&b, " accept failures %d", len(p.Accept))
	}
	n := 0
	for _, e := range r.Ev {
		if e.phase == 1 || len(r.Ev) < 10 {
			fmt.Fprintf(&b, " | %s", e)
			if n++; n >= 10 {
				break
			}
		}
	}
	for _, c := range p.Clients {
		if c.Hostile && n < 14 {
			for _, o := range c.Ops {
				if n++; n < 14 {
					fmt.Fprintf(&b, " | %s %s %s", c.Name, o.K, short(string(o.Raw)+fmt.Sprint(o.A)))
				}
			}
		}
	}
	if len(p.Logs) > 0 {
		fmt.Fprintf(&b, " log goroutines %d, restart %v", len(p.Logs), p.Logs2 != nil)
	}
	return b.String()
}

func worker(prop string, seed uint64, from, stride, n int, statePath string, deadline time.Time) {
	st, err := os.OpenFile(statePath, os.O_WRONLY|os.O_CREATE, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := newStats()
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	known := loadKnown(prop)
	var buf [24]byte
	t0 := time.Now()
	for i := from; i < n; i += stride {
		if time.Now().After(deadline) {
			break
		}
		copy(buf[:], fmt.Sprintf("%-23d\n", i))
		st.WriteAt(buf[:], 0)
		p := planFor(prop, seed, i)
		ph := planHash(p)
		r := runPlan(p)
		s.add(r, ph)
		if r.V != nil {
			if k := matchKnown(known, r.V); k != "" {
				s.Notes["known:"+k]++
				continue
			}
			enc.Encode(report{Viol: &violRep{i, r.V.Class, r.V.Text}})
			break
		}
	}
	s.RunNs = int64(time.Since(t0))
	enc.Encode(report{Stats: s})
	out.Flush()
}

// ---- known findings ----

type known struct {
	class, desc string
	re          *regexp.Regexp
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads lines "open: property=<id> class=<class> match=<regexp> :: <description>".
func loadKnown(prop string) []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	re := regexp.MustCompile(`^open: property=(\S+) class=(\S+) match=(.*) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil || m[1] != prop {
			continue
		}
		x, err := regexp.Compile("(?s)" + m[3])
		if err != nil {
			continue
		}
		r = append(r, known{m[2], m[4], x})
	}
	return r
}
func matchKnown(ks []known, v *Violation) string {
	for _, k := range ks {
		if k.class == v.Class && k.re.MatchString(v.Text) {
			return k.desc
		}
	}
	return ""
}

// ---- orchestration ----

func check(prop, tier string) int {
	P := props[prop]
	if P == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	t0 := time.Now()
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	n := P.Quick
	budget := 240 * time.Second
	if tier == "thorough" {
		n *= 60
		budget = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v > 0 {
		n = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && v > 0 {
		budget = time.Duration(v) * time.Second
	}
	W := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		W = v
	}
	dir, err := os.MkdirTemp("", "gredis-sim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	deadline := t0.Add(budget)
	total := newStats()
	var mu sync.Mutex
	var viols []violRep
	broken := ""
	var procs []*osexec.Cmd
	var wg sync.WaitGroup
	stop := false
	states := make([]string, W)
	for w := 0; w < W; w++ {
		states[w] = filepath.Join(dir, "w"+strconv.Itoa(w))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from, retries := w, 0
			for {
				c := osexec.Command(exe, "worker", prop, strconv.FormatUint(seed, 10), strconv.Itoa(from), strconv.Itoa(W), strconv.Itoa(n), states[w], strconv.FormatInt(deadline.UnixMilli(), 10))
				c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
				var serr tail
				c.Stderr = &serr
				so, _ := c.StdoutPipe()
				mu.Lock()
				if stop {
					mu.Unlock()
					return
				}
				if err := c.Start(); err != nil {
					broken = err.Error()
					mu.Unlock()
					return
				}
				procs = append(procs, c)
				mu.Unlock()
				quit := make(chan struct{})
				hang := false
				go func() { // watchdog: a single run that does not come back
					last, since := "", time.Now()
					for {
						select {
						case <-quit:
							return
						case <-time.After(500 * time.Millisecond):
						}
						b, _ := os.ReadFile(states[w])
						if string(b) != last {
							last, since = string(b), time.Now()
						} else if time.Since(since) > 150*time.Second {
							hang = true
							c.Process.Kill()
							return
						}
					}
				}()
				dec := json.NewDecoder(bufio.NewReaderSize(so, 1<<20))
				gotStats := false
				for {
					var rp report
					if err := dec.Decode(&rp); err != nil {
						break
					}
					mu.Lock()
					if rp.Viol != nil {
						viols = append(viols, *rp.Viol)
						stop = true
						for _, q := range procs {
							if q != c {
								q.Process.Kill()
							}
						}
					}
					if rp.Stats != nil {
						merge(total, rp.Stats)
						gotStats = true
					}
					mu.Unlock()
				}
				err := c.Wait()
				close(quit)
				mu.Lock()
				st := stop
				mu.Unlock()
				if st || gotStats && err == nil {
					return
				}
				// the worker died: which run was it?
				b, _ := os.ReadFile(states[w])
				idx, _ := strconv.Atoi(strings.TrimSpace(string(b)))
				text := serr.String()
				if strings.Contains(text, "HARNESS PANIC") || len(b) == 0 {
					mu.Lock()
					broken = "worker died: " + text
					mu.Unlock()
					return
				}
				again, out := single(exe, prop, seed, idx)
				if again == "ok" && retries < 3 { // ended from outside (memory, a stopped machine): go on from that run
					retries++
					from = idx
					continue
				}
				if again == "ok" {
					mu.Lock()
					defer mu.Unlock()
					broken = fmt.Sprintf("worker died at run %d but the run alone is fine: %v hang=%v %s", idx, err, hang, text)
					return
				}
				mu.Lock()
				defer mu.Unlock()
				viols = append(viols, violRep{idx, again, out})
				stop = true
				for _, q := range procs {
					if q != c {
						q.Process.Kill()
					}
				}
				return
			}
		}(w)
	}
	wg.Wait()
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
		v := viols[0]
		path := filepath.Join(verifDir(), "out", fmt.Sprintf("%s-%d-%d.json", prop, seed, v.Index))
		os.MkdirAll(filepath.Dir(path), 0755)
		writeReplay(exe, prop, seed, v, path)
		fmt.Printf("%s: run %d (seed %d) breaks the property [%s]\n", prop, v.Index, mix(seed, prop, v.Index), v.Class)
		if b, err := os.ReadFile(path); err == nil {
			var p Plan
			if json.Unmarshal(b, &p) == nil && p.Text != "" {
				fmt.Println(p.Text)
			} else {
				fmt.Println(v.Text)
			}
		}
		evidence(prop, tier, seed, total, time.Since(t0), 1, n)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check is broken:", broken)
		return 2
	}
	for k, c := range total.Notes {
		if strings.HasPrefix(k, "known:") && c > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k[6:])
		}
	}
	evidence(prop, tier, seed, total, time.Since(t0), 0, n)
	fmt.Printf("%s: held on %d simulated runs (%d distinct non-trivial, %d distinct interleavings), %.1f s simulated, %v\n", prop, total.Runs, uniq(total.Nontrivial), uniq(total.Sync), float64(total.SimNs)/1e9, time.Since(t0).Round(time.Millisecond))
	return 0
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		k := 4000 - len(t.b)
		if k > len(p) {
			k = len(p)
		}
		t.b = append(t.b, p[:k]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// single repeats one run alone: "ok", "fatal" (the real process died) or "hang".
func single(exe, prop string, seed uint64, idx int) (string, string) {
	c := osexec.Command(exe, "one", prop, strconv.FormatUint(seed, 10), strconv.Itoa(idx))
	c.Env = append(os.Environ(), "GOTRACEBACK=single")
	var o tail
	c.Stderr = &o
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		return "ok", err.Error()
	}
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			s := o.String()
			if len(s) > 600 {
				s = s[:600]
			}
			return "fatal", "the whole process died: " + err.Error() + " " + s
		}
		return "ok", ""
	case <-time.After(200 * time.Second):
		c.Process.Kill()
		return "hang", "the server never comes back (no end within 200 s)"
	}
}

// writeReplay minimises in a process of its own and writes the replay file.
func writeReplay(exe, prop string, seed uint64, v violRep, path string) {
	if v.Class != "fatal" && v.Class != "hang" && os.Getenv("VERIF_NOMIN") == "" {
		c := osexec.Command(exe, "min", prop, strconv.FormatUint(seed, 10), strconv.Itoa(v.Index), path)
		done := make(chan error, 1)
		if c.Start() == nil {
			go func() { done <- c.Wait() }()
			select {
			case <-done:
			case <-time.After(150 * time.Second):
				c.Process.Kill()
			}
		}
		if _, err := os.Stat(path); err == nil {
			return
		}
	}
	p := planFor(prop, seed, v.Index)
	p.Want, p.Text = v.Class, v.Text
	b, _ := json.MarshalIndent(p, "", " ")
	os.WriteFile(path, b, 0644)
}

func minCmd(prop string, seed uint64, idx int, path string) {
	p := planFor(prop, seed, idx)
	r := runPlan(p)
	if r.V == nil {
		fmt.Println("not reproduced")
		os.Exit(3)
	}
	save := func(q *Plan) {
		b, _ := json.MarshalIndent(q, "", " ")
		os.WriteFile(path+".tmp", b, 0644)
		os.Rename(path+".tmp", path)
	}
	e := explicitOf(planFor(prop, seed, idx), r)
	r2 := runPlan(e.clone())
	if r2.V == nil || r2.V.Class != r.V.Class {
		q := planFor(prop, seed, idx)
		finish(q)
		save(q)
		return
	}
	finish(e)
	save(e)
	q := minimise(e, r.V.Class, 40*time.Second)
	finish(q)
	save(q)
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	want, hash := p.Want, p.Hash
	r := runPlan(p)
	for _, e := range r.Ev {
		fmt.Println(e)
	}
	fmt.Printf("outcome %s, %d steps, %d switches, trace %016x\n", r.S.Outcome, r.S.Steps, r.S.Switches, r.S.Trace())
	if r.V == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("[%s] %s\n", r.V.Class, r.V.Text)
	same := want == r.V.Class && (hash == "" || hash == fmt.Sprintf("%016x", r.S.Trace()))
	fmt.Println("same as recorded:", same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, path)
	return 1
}

func merge(a, b *Stats) {
	a.Runs += b.Runs
	a.Events += b.Events
	a.Errors += b.Errors
	a.Overlap += b.Overlap
	a.Unknown += b.Unknown
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.SimNs += b.SimNs
	a.RunNs += b.RunNs
	a.Nontrivial = append(a.Nontrivial, b.Nontrivial...)
	a.Sync = append(a.Sync, b.Sync...)
	mm := func(x, y map[string]int) {
		for k, n := range y {
			x[k] += n
		}
	}
	mm(a.Faults, b.Faults)
	mm(a.Cmds, b.Cmds)
	mm(a.Kinds, b.Kinds)
	mm(a.Notes, b.Notes)
	mm(a.Outcomes, b.Outcomes)
	if len(a.Samples) < 3 {
		a.Samples = append(a.Samples, b.Samples...)
	}
}

func uniq(l []uint64) int {
	m := make(map[uint64]struct{}, len(l))
	for _, x := range l {
		m[x] = struct{}{}
	}
	return len(m)
}

func evidence(prop, tier string, seed uint64, s *Stats, wall time.Duration, viol, planned int) {
	P := props[prop]
	cov := map[string]interface{}{
		"evaluations":               s.Runs,
		"distinct_nontrivial":       uniq(s.Nontrivial),
		"rule":                      P.Rule,
		"samples":                   s.Samples,
		"runs_planned":              planned,
		"runs_per_hour":             int(float64(s.Runs) / wall.Hours()),
		"simulated_seconds":         float64(s.SimNs) / 1e9,
		"distinct_interleavings":    uniq(s.Sync),
		"interleaving_measure":      "hash of the order in which the server's goroutines passed lock, channel, clock and I/O operations",
		"scheduling_points":         s.Steps,
		"context_switches":          s.Switches,
		"requests":                  s.Events,
		"error_replies":             s.Errors,
		"overlapping_request_pairs": s.Overlap,
		"faults_injected":           s.Faults,
		"commands":                  s.Cmds,
		"run_kinds":                 s.Kinds,
		"outcomes":                  s.Outcomes,
		"searches_cut_short":        s.Unknown,
		"notes":                     s.Notes,
		"real_components":           "everything in /repo (main, config, logger, server, resp, memdb, util), compiled from the working tree with scheduling points",
		"stubbed_components":        "goroutine scheduler, sync, sync/atomic, channels, time, net (TCP), os files and stdout, signals, process exit, map iteration order, math/rand: simulated",
	}
	if s.Samples == nil {
		cov["samples"] = []string{}
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"preemption happens at statement boundaries and at the halves of read-modify-write statements; finer interleavings inside one expression are not explored (data races are decided by C15)",
			"the simulated TCP, disk, clock and sync primitives behave like the real ones",
			"the reference model states the documented Redis behaviour, with the leniencies listed in DESIGN.md",
		},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	f := filepath.Join(verifDir(), "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(f), 0755)
	if err := os.WriteFile(f, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
func atou(s string) uint64 {
	n, _ := strconv.ParseUint(s, 10, 64)
	return n
}

func main() {
	args := append([]string(nil), os.Args[1:]...)
	raceBinary = os.Getenv("VERIF_RACE") != "" || strings.HasSuffix(os.Args[0], "sim-race")
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: check PROP TIER | replay FILE | one PROP SEED INDEX | trace PROP SEED INDEX | min PROP SEED INDEX FILE")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		os.Exit(check(args[1], args[2]))
	case "worker":
		ms, _ := strconv.ParseInt(args[7], 10, 64)
		worker(args[1], atou(args[2]), atoi(args[3]), atoi(args[4]), atoi(args[5]), args[6], time.UnixMilli(ms))
	case "one", "trace":
		p := planFor(args[1], atou(args[2]), atoi(args[3]))
		r := runPlan(p)
		if args[0] == "trace" {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
			for _, e := range r.Ev {
				fmt.Println(e)
			}
			fmt.Printf("outcome %s steps %d switches %d trace %016x sync %016x\n", r.S.Outcome, r.S.Steps, r.S.Switches, r.S.Trace(), r.S.SyncHash())
			if r.V != nil {
				fmt.Printf("[%s] %s\n", r.V.Class, r.V.Text)
			}
		}
	case "hash": // determinism study: PROP SEED FROM TO
		for i := atoi(args[3]); i < atoi(args[4]); i++ {
			r := runPlan(planFor(args[1], atou(args[2]), i))
			fmt.Printf("%d %016x %016x %d %d\n", i, r.S.Trace(), r.S.SyncHash(), r.S.Steps, len(r.Ev))
		}
	case "min":
		minCmd(args[1], atou(args[2]), atoi(args[3]), args[4])
	case "replay":
		os.Exit(replay(args[1]))
	default:
		os.Exit(2)
	}
}
