package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gpegmc run|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "list":
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "spaces":
		// the spaces of every property, for DESIGN.md
		printSpaces()
	case "instrument":
		os.Exit(instrument(os.Args[2:]))
	case "helper":
		helper(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func printSpaces() {
	type space struct{ Name, Quick, Thorough string }
	type entry struct {
		ID     string
		Assume []string
		Spaces []*space
	}
	var out []*entry
	for id, p := range properties {
		e := &entry{ID: id, Assume: p.Assume}
		by := map[string]*space{}
		for i := 0; i < 2; i++ {
			for _, s := range p.spaces(i == 1) {
				if by[s.Name] == nil {
					by[s.Name] = &space{Name: s.Name}
					e.Spaces = append(e.Spaces, by[s.Name])
				}
				if i == 0 {
					by[s.Name].Quick = s.Desc
				} else {
					by[s.Name].Thorough = s.Desc
				}
			}
		}
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}

func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "property="+prop+" key=")
		k, text, _ := strings.Cut(l, " ")
		m[k] = strings.TrimSpace(text)
	}
	return m
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	w := fs.Int64("w", 0, "")
	W := fs.Int64("W", 1, "")
	rs := fs.Int("rs", 0, "")
	ri := fs.Int64("ri", 0, "")
	prog := fs.String("progress", "", "")
	dl := fs.Int64("deadline", 0, "")
	only := fs.String("only", "", "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	debug.SetMaxStack(256 << 20)
	p := properties[*prop]
	c := &Ctx{
		Thorough: *tier == "thorough", worker: *w, workers: *W, resumeSp: *rs, resumeIt: *ri,
		known: loadKnown(*known, *prop), outcomes: map[uint64]struct{}{}, notes: map[string]int64{},
		sampleIn: map[string]int{}, property: *prop,
	}
	if *prog != "" {
		c.prog = mapProgress(*prog)
	} else {
		c.prog = &progress{}
	}
	if *dl != 0 {
		c.deadline = time.Unix(*dl, 0)
	} else {
		c.deadline = time.Now().Add(24 * time.Hour)
	}
	if *only != "" {
		a, b, _ := strings.Cut(*only, ":")
		c.only = true
		c.onlySp, _ = strconv.Atoi(a)
		c.onlyIt, _ = strconv.ParseInt(b, 10, 64)
	}
	c.emit(c.runAll(p.spaces(c.Thorough)))
}

type result struct {
	mu       sync.Mutex
	stats    map[string]*spaceStats
	order    []string
	outcomes map[uint64]struct{}
	samples  []string
	notes    map[string]int64
	viol     []event
	known    map[string]string
	fatal    string
	stop     int32
}

type wproc struct {
	cmd    *exec.Cmd
	prog   *progress
	killed string
}

func cpuAndRSS(pid int) (cpu float64, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 22 {
		return 0, 0, false
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	r, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, r * int64(os.Getpagesize()), true
}

const (
	hangCPU  = 25.0           // seconds of CPU in one item
	hangWall = 150.0          // seconds of wall clock in one item
	maxRSS   = int64(3) << 30 // bytes
)

// spawn runs one worker process to completion, watching for hangs.
func spawn(args []string, progFile string, onEvent func(event)) (stderr string, killed string, err error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"worker", "-progress", progFile}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOTRACEBACK=single")
	prog := mapProgress(progFile)
	atomic.StoreInt64(&prog.seq, 0)
	out, _ := cmd.StdoutPipe()
	var eb tailBuffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return "", "", err
	}
	done := make(chan struct{})
	var kmsg atomic.Value
	kmsg.Store("")
	go func() {
		lastSeq := int64(-1)
		var cpu0 float64
		var t0 time.Time
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			cpu, rss, ok := cpuAndRSS(cmd.Process.Pid)
			if !ok {
				continue
			}
			s := atomic.LoadInt64(&prog.seq)
			if s != lastSeq {
				lastSeq, cpu0, t0 = s, cpu, time.Now()
			}
			if s == 0 {
				continue
			}
			msg := ""
			if cpu-cpu0 > hangCPU {
				msg = fmt.Sprintf("does not terminate: more than %.0f s of CPU time in one item", hangCPU)
			} else if time.Since(t0).Seconds() > hangWall {
				msg = fmt.Sprintf("does not terminate: more than %.0f s in one item", hangWall)
			} else if rss > maxRSS {
				msg = fmt.Sprintf("memory grows without bound: %d MB", rss>>20)
			}
			if msg != "" {
				kmsg.Store(msg)
				cmd.Process.Kill()
				return
			}
		}
	}()
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		line, rerr := rd.ReadBytes('\n')
		if len(line) > 0 {
			var e event
			if json.Unmarshal(line, &e) == nil && e.Type != "" {
				onEvent(e)
			}
		}
		if rerr != nil {
			break
		}
	}
	err = cmd.Wait()
	close(done)
	return eb.String(), kmsg.Load().(string), err
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func supervise(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	root := fs.String("root", "/verif", "")
	nw := fs.Int("j", 0, "")
	budget := fs.Int("budget", 0, "seconds")
	if len(args) == 0 {
		return 2
	}
	id := args[0]
	fs.Parse(args[1:])
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	start := time.Now()
	if *budget == 0 {
		*budget = 420
		if *tier == "thorough" {
			*budget = 820
		}
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				*budget = n
			}
		}
	}
	deadline := start.Add(time.Duration(*budget) * time.Second)
	if *nw == 0 {
		*nw = runtime.NumCPU()
		if *nw > 16 {
			*nw = 16
		}
	}
	knownFile := filepath.Join(*root, "KNOWN_FINDINGS")
	spaces := p.spaces(*tier == "thorough")
	res := &result{stats: map[string]*spaceStats{}, outcomes: map[uint64]struct{}{}, notes: map[string]int64{}, known: map[string]string{}}
	for _, s := range spaces {
		res.stats[s.Name] = &spaceStats{Name: s.Name, Desc: s.Desc}
		res.order = append(res.order, s.Name)
	}
	tmp, err := os.MkdirTemp("", "gpegmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	var wg sync.WaitGroup
	for w := 0; w < *nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rs, ri := 0, int64(0)
			crashes := 0
			for {
				if atomic.LoadInt32(&res.stop) != 0 {
					return
				}
				a := []string{"-prop", id, "-tier", *tier, "-w", strconv.Itoa(w), "-W", strconv.Itoa(*nw),
					"-rs", strconv.Itoa(rs), "-ri", strconv.FormatInt(ri, 10), "-known", knownFile,
					"-deadline", strconv.FormatInt(deadline.Unix(), 10)}
				pf := filepath.Join(tmp, fmt.Sprintf("p%d", w))
				var final *event
				stderr, killed, err := spawn(a, pf, func(e event) {
					switch e.Type {
					case "violation":
						res.mu.Lock()
						res.viol = append(res.viol, e)
						if len(res.viol) >= 3 {
							atomic.StoreInt32(&res.stop, 1)
						}
						res.mu.Unlock()
					case "known":
						res.mu.Lock()
						res.known[e.Key] = e.Detail
						res.mu.Unlock()
					case "stats":
						ee := e
						final = &ee
					}
				})
				if final != nil {
					res.merge(final)
					if final.Recycle {
						rs, ri = final.SpaceIdx, final.Item
						continue
					}
					return
				}
				// crash or kill
				prog := mapProgress(pf)
				sp, it := int(prog.space), prog.item
				if prog.seq == 0 {
					res.mu.Lock()
					res.fatal = fmt.Sprintf("worker failed before its first item: %v %s", err, stderr)
					res.mu.Unlock()
					return
				}
				detail := killed
				kind := "hang"
				if detail == "" {
					kind = "crash"
					detail = fmt.Sprintf("process died (%v): %s", err, stderr)
				}
				name := ""
				if sp < len(spaces) {
					name = spaces[sp].Name
				}
				res.mu.Lock()
				res.viol = append(res.viol, event{Type: "violation", Kind: kind, Space: name, SpaceIdx: sp, Item: it, Detail: detail})
				if st := res.stats[name]; st != nil {
					st.Incomplete = true
				}
				res.mu.Unlock()
				crashes++
				if crashes >= 2 {
					atomic.StoreInt32(&res.stop, 1)
					return
				}
				rs, ri = sp, it+1
			}
		}(w)
	}
	wg.Wait()
	if res.fatal != "" && len(res.viol) == 0 {
		fmt.Fprintln(os.Stderr, res.fatal)
		return 2
	}

	// Confirm violations in fresh processes.
	sort.SliceStable(res.viol, func(i, j int) bool {
		a, b := res.viol[i], res.viol[j]
		if (a.Kind == "mismatch") != (b.Kind == "mismatch") {
			return a.Kind == "mismatch"
		}
		if a.SpaceIdx != b.SpaceIdx {
			return a.SpaceIdx < b.SpaceIdx
		}
		return a.Item < b.Item
	})
	exit := 0
	reported := 0
	for vi, v := range res.viol {
		if reported >= 2 || vi > 6 {
			break
		}
		n := 5
		if v.Kind == "hang" {
			n = 2
		}
		fails := 0
		detail := v.Detail
		var cw sync.WaitGroup
		var cm sync.Mutex
		sem := make(chan struct{}, 2)
		for k := 0; k < n; k++ {
			cw.Add(1)
			go func(k int) {
				defer cw.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				bad := false
				var d string
				stderr, killed, err := spawn([]string{"-prop", id, "-tier", *tier, "-known", knownFile,
					"-only", fmt.Sprintf("%d:%d", v.SpaceIdx, v.Item)}, filepath.Join(tmp, fmt.Sprintf("c%d", k)), func(e event) {
					if e.Type == "violation" {
						bad = true
						d = e.Detail
					}
				})
				if err != nil && !bad {
					bad = true
					d = killed
					if d == "" {
						d = fmt.Sprintf("process died (%v): %s", err, stderr)
					}
				}
				if bad {
					cm.Lock()
					fails++
					detail = d
					cm.Unlock()
				}
			}(k)
		}
		cw.Wait()
		need := 1
		if v.Kind == "hang" {
			need = n
		}
		if fails < need {
			fmt.Printf("note: an apparent violation in space %s item %d did not recur in %d fresh runs (%d failed) and is not reported: %s\n", v.Space, v.Item, n, fails, firstLine(v.Detail))
			res.mu.Lock()
			res.notes["unconfirmed"]++
			res.mu.Unlock()
			continue
		}
		rdir := filepath.Join(*root, "replays")
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", id, v.Space, v.Item))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": *tier, "space": v.Space, "space_idx": v.SpaceIdx, "item": v.Item,
			"kind": v.Kind, "detail": strings.Split(detail, "\n"), "reproduced": fmt.Sprintf("%d of %d fresh runs", fails, n),
			"how": fmt.Sprintf("%s/check.sh --replay %s", *root, rp),
		}, "", "  ")
		os.WriteFile(rp, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Println(indent(detail))
		exit = 1
		reported++
	}
	for k := range res.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, loadKnown(knownFile, id)[k], k)
	}
	ev := res.evidence(p, *tier, time.Since(start).Seconds(), reported)
	os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cov := ev["coverage"].(map[string]interface{})
	fmt.Printf("%s %s: states=%v transitions=%v traces=%v exhaustive=%v outcomes=%v violations=%d wall=%.1fs\n",
		id, *tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], cov["distinct_outcomes"], reported, time.Since(start).Seconds())
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func indent(s string) string {
	return "    " + strings.ReplaceAll(s, "\n", "\n    ")
}

func (r *result) merge(e *event) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, s := range e.Stats {
		t := r.stats[s.Name]
		t.Items += s.Items
		t.States += s.States
		t.Trans += s.Trans
		t.Traces += s.Traces
		t.Skipped += s.Skipped
		t.CPU += s.CPU
		t.Incomplete = t.Incomplete || s.Incomplete
	}
	for _, h := range e.Outcomes {
		r.outcomes[h] = struct{}{}
	}
	r.samples = append(r.samples, e.Samples...)
	for k, v := range e.Notes {
		r.notes[k] += v
	}
}

func (r *result) evidence(p *Property, tier string, wall float64, viol int) map[string]interface{} {
	var states, trans, traces, skipped int64
	exh := true
	var per []interface{}
	for _, n := range r.order {
		s := r.stats[n]
		states += s.States
		trans += s.Trans
		traces += s.Traces
		skipped += s.Skipped
		if s.Incomplete {
			exh = false
		}
		per = append(per, map[string]interface{}{"space": s.Name, "enumerates": s.Desc, "items": s.Items, "states": s.States,
			"transitions": s.Trans, "traces": s.Traces, "outside_precondition": s.Skipped, "complete": !s.Incomplete, "worker_seconds": math.Round(s.CPU*10) / 10})
	}
	sort.Strings(r.samples)
	var samples []string
	seen := map[string]int{}
	for _, s := range r.samples {
		sp, _, _ := strings.Cut(s, ":")
		if seen[sp] < 2 {
			seen[sp]++
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
		"exhaustive": exh, "distinct_outcomes": len(r.outcomes), "outside_precondition": skipped, "spaces": per,
		"rule": "a state is a configuration enumerated (program and input, or the model state after a prefix of an operation history); a transition is a step of the reference model; a trace is an execution of the real code compared with the model",
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	return map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": viol,
	}
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property string `json:"property"`
		Tier     string `json:"tier"`
		SpaceIdx int    `json:"space_idx"`
		Item     int64  `json:"item"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bad := false
	pf, _ := os.CreateTemp("", "prog")
	defer os.Remove(pf.Name())
	stderr, killed, err := spawn([]string{"-prop", r.Property, "-tier", r.Tier, "-known", filepath.Join(*root, "KNOWN_FINDINGS"),
		"-only", fmt.Sprintf("%d:%d", r.SpaceIdx, r.Item)}, pf.Name(), func(e event) {
		if e.Type == "violation" {
			bad = true
			fmt.Println(e.Detail)
		}
	})
	if err != nil {
		bad = true
		fmt.Println(killed, err, stderr)
	}
	if bad {
		fmt.Println("the violation recurs")
		return 1
	}
	fmt.Println("no violation on replay")
	return 0
}

var helpers = map[string]func(args []string, out io.Writer){}

func helper(args []string) {
	helpers[args[0]](args[1:], os.Stdout)
}
