// Command simd runs the simulated checks.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/props"
	"verifsim/simyield"
)

const (
	exitErr   = 3
	exitGuard = 4
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simd: "+f+"\n", a...)
	os.Exit(exitErr)
}

// runSeed derives the seed of run idx.
func runSeed(verifSeed uint64, prop string, idx int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], verifSeed)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	h.Write(b[:])
	z := h.Sum64()
	z ^= z >> 31
	z *= 0x94d049bb133111eb
	return z ^ z>>29
}

// ---- known findings

type finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
	Status    string `json:"status"` // "known" or "fixed: ..."
}

func loadKnown(path string) map[string][]finding {
	m := map[string][]finding{}
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var l struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &l); err != nil {
		die("%s: %v", path, err)
	}
	for _, f := range l.Findings {
		if f.Status == "known" {
			m[f.Property] = append(m[f.Property], f)
		}
	}
	return m
}

func knownSet(fs []finding) map[string]bool {
	m := map[string]bool{}
	for _, f := range fs {
		m[f.Signature] = true
	}
	return m
}

// ---- worker

type vio struct {
	Idx   int      `json:"idx"`
	Seed  uint64   `json:"seed"`
	Tape  []uint32 `json:"tape"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
}

type wres struct {
	Runs     int
	Faulty   int
	Nontriv  int
	SimNS    int64
	Steps    uint64
	Switches int
	Faults   map[string]int
	RunsWith map[string]int
	Probes   map[string]int
	Findings map[string]string
	Hashes   []uint64
	States   []uint64
	Cov      []int
	V        *vio
	Bad      string
	Samples  []string
	Text     []uint64
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int("w", 0, "")
	W := fs.Int("W", 1, "")
	count := fs.Int("count", 1, "")
	deadline := fs.Float64("deadline", 60, "")
	out := fs.String("res", "", "")
	stop := fs.String("stop", "", "")
	known := fs.String("known", "", "")
	text := fs.Bool("text", false, "")
	from := fs.Int("from", 0, "")
	fs.Parse(args)
	p := props.All[*id]
	if p == nil {
		die("no check for %s", *id)
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1 << 30) // eight of them run side by side
	kn := knownSet(loadKnown(*known)[*id])
	r := wres{Faults: map[string]int{}, RunsWith: map[string]int{}, Probes: map[string]int{}, Findings: map[string]string{}}
	hashes := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	start := time.Now()
	prog, err := os.Create(*out + ".at")
	if err != nil {
		die("%v", err)
	}
	var tick atomic.Int64
	guard(&tick)
	for idx := *from + *w; idx < *from+*count; idx += *W {
		if r.Runs%16 == 0 {
			if time.Since(start).Seconds() > *deadline {
				break
			}
			if *stop != "" {
				if _, err := os.Stat(*stop); err == nil {
					break
				}
			}
		}
		tick.Store(int64(idx))
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx))
		prog.WriteAt(b[:], 0)
		sd := runSeed(*seed, *id, idx)
		res := core.Execute(*id, p.Run, core.NewTape(sd), kn, *text || r.Runs < 1)
		s := res.Sim
		r.Runs++
		if res.Bad != "" {
			r.Bad = fmt.Sprintf("run %d (seed %d): %s", idx, sd, res.Bad)
			break
		}
		if *text {
			r.Text = append(r.Text, uint64(idx), s.TextHash, s.EvHash())
		}
		if len(r.Samples) < 1 && len(s.Trace) > 0 {
			tr := s.Trace
			if len(tr) > 60 {
				tr = tr[:60]
			}
			r.Samples = append(r.Samples, fmt.Sprintf("run %d seed %d decisions %d:\n", idx, sd, len(res.Tape))+strings.Join(tr, "\n"))
		}
		if s.WasFaulty {
			r.Faulty++
		}
		if len(s.Faults) > 0 || s.Switches > 1 {
			r.Nontriv++
			hashes[s.EvHash()] = struct{}{}
		}
		for h := range s.States {
			if len(states) < 1<<20 {
				states[h] = struct{}{}
			}
		}
		r.SimNS += s.Now()
		r.Switches += s.Switches
		for k, v := range s.Faults {
			r.Faults[k] += v
			r.RunsWith[k]++
		}
		for k, v := range s.Probes {
			r.Probes[k] += v
		}
		for k, v := range s.Findings {
			if _, ok := r.Findings[k]; !ok {
				r.Findings[k] = v
			}
		}
		if res.V != nil {
			r.V = &vio{idx, sd, res.Tape, res.V.Class, res.V.Msg}
			if *stop != "" {
				os.WriteFile(*stop, nil, 0o644)
			}
			break
		}
	}
	for h := range hashes {
		r.Hashes = append(r.Hashes, h)
	}
	for h := range states {
		r.States = append(r.States, h)
	}
	for i, c := range simyield.Cov {
		if c != 0 {
			r.Cov = append(r.Cov, i)
		}
	}
	b, err := json.Marshal(r)
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		die("%v", err)
	}
}

// guard ends the process when a single run takes a minute of processor time or
// more memory than any run could need; the run is then reported as fatal.
func guard(tick *atomic.Int64) {
	cpu := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		last, since := int64(-1), cpu()
		for {
			time.Sleep(20 * time.Millisecond)
			t := tick.Load()
			if t != last {
				last, since = t, cpu()
			}
			metrics.Read(mem)
			why := ""
			if cpu()-since > time.Minute {
				why = "takes more than a minute"
			} else if mem[0].Value.Uint64() > 2<<30 {
				runtime.GC() // what is left is in use
				if metrics.Read(mem); mem[0].Value.Uint64() > 2<<30 {
					why = "needs more than 2 GiB"
				}
			}
			if why != "" {
				fmt.Fprintf(os.Stderr, "fatal error: simd: a run %s\n", why)
				b := make([]byte, 64<<10)
				os.Stderr.Write(b[:runtime.Stack(b, true)])
				os.Exit(exitGuard)
			}
		}
	}()
}

// ---- replay files

type replayFile struct {
	Property  string   `json:"property"`
	VerifSeed uint64   `json:"verif_seed"`
	Index     int      `json:"index"`
	Seed      uint64   `json:"seed"`
	Tape      []uint32 `json:"tape"` // minimised decisions; empty with "whole": the whole seed
	Whole     bool     `json:"whole,omitempty"`
	Prelude   []int    `json:"prelude,omitempty"` // run indices executed first, when state leaks between runs
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	Original  int      `json:"original_decisions"`
	Trace     []string `json:"trace"`
	How       string   `json:"how_to_replay"`
}

// runReplay performs a replay file in this process and returns what happened.
func runReplay(rf *replayFile, kn map[string]bool) core.Result {
	p := props.All[rf.Property]
	if p == nil {
		die("no check for %s", rf.Property)
	}
	for _, i := range rf.Prelude {
		core.Execute(rf.Property, p.Run, core.NewTape(runSeed(rf.VerifSeed, rf.Property, i)), kn, false)
	}
	t := core.ReplayTape(rf.Tape)
	if rf.Whole {
		t = core.NewTape(rf.Seed)
	}
	return core.Execute(rf.Property, p.Run, t, kn, true)
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	known := fs.String("known", "", "")
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	guard(new(atomic.Int64))
	res := runReplay(&rf, knownSet(loadKnown(*known)[rf.Property]))
	if res.Bad != "" {
		die("%s", res.Bad)
	}
	if *quiet {
		o := map[string]any{"class": "", "msg": "", "trace": res.Sim.Trace}
		if res.V != nil {
			o["class"], o["msg"] = res.V.Class, res.V.Msg
		}
		json.NewEncoder(os.Stdout).Encode(o)
		return
	}
	for _, l := range res.Sim.Trace {
		fmt.Println(l)
	}
	if res.V == nil {
		fmt.Println("no violation on this tree")
		return
	}
	fmt.Printf("%s\n%s\n", res.V.Class, res.V.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
	os.Exit(1)
}

// minimise reads a replay file, shrinks its tape in this (fresh) process and
// writes the result.
func minimise(args []string) {
	fs := flag.NewFlagSet("min", flag.ExitOnError)
	known := fs.String("known", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	kn := knownSet(loadKnown(*known)[rf.Property])
	p := props.All[rf.Property]
	start := time.Now()
	n := 0
	var tick atomic.Int64
	guard(&tick)
	rf.Tape = core.Minimise(rf.Tape, func(t []uint32) ([]uint32, bool) {
		n++
		tick.Store(int64(n))
		r := core.Execute(rf.Property, p.Run, core.ReplayTape(t), kn, false)
		if r.Bad != "" || r.V == nil || r.V.Class != rf.Class {
			return nil, false
		}
		return r.Tape, true
	}, func() bool { return n < 20000 && time.Since(start) < 25*time.Second })
	b, _ = json.Marshal(rf)
	os.WriteFile(fs.Arg(1), b, 0o644)
}

// ---- the check

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return exec.Command(exe, args...)
}

func readAt(p string) int {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b))
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	points := fs.String("points", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	workers := fs.Int("workers", 0, "")
	runs := fs.Int("runs", 0, "")
	buildS := fs.Float64("build", 0, "")
	fs.Parse(args)
	p := props.All[*id]
	if p == nil {
		die("no check for %s", *id)
	}
	known := filepath.Join(*verif, "known_findings.json")
	kf := loadKnown(known)[*id]
	W := *workers
	if W <= 0 {
		W = runtime.NumCPU()
	}
	count, deadline := p.Quick, 300.0
	if *tier == "thorough" {
		count, deadline = 1<<30, 600
		if v, err := strconv.ParseFloat(os.Getenv("VERIF_THOROUGH_S"), 64); err == nil {
			deadline = v
		}
	}
	if *runs > 0 {
		count = *runs
	}
	tmp, err := os.MkdirTemp("", "simd")
	if err != nil {
		die("%v", err)
	}
	cleanup := func() { os.RemoveAll(tmp) }
	fmt.Printf("%s: VERIF_SEED=%d tier=%s runs<=%d workers=%d\n", *id, *seed, *tier, count, W)
	start := time.Now()
	type wk struct {
		cmd *exec.Cmd
		err bytes.Buffer
		res string
	}
	ws := make([]*wk, W)
	stop := filepath.Join(tmp, "stop")
	for i := range ws {
		k := &wk{res: filepath.Join(tmp, fmt.Sprintf("w%d.json", i))}
		k.cmd = self("worker", "-prop", *id, "-seed", fmt.Sprint(*seed), "-w", fmt.Sprint(i), "-W", fmt.Sprint(W),
			"-count", fmt.Sprint(count), "-deadline", fmt.Sprint(deadline), "-res", k.res, "-stop", stop, "-known", known)
		k.cmd.Stderr = &k.err
		if err := k.cmd.Start(); err != nil {
			die("%v", err)
		}
		ws[i] = k
	}
	tot := wres{Faults: map[string]int{}, RunsWith: map[string]int{}, Probes: map[string]int{}, Findings: map[string]string{}}
	hashes, states, cov := map[uint64]struct{}{}, map[uint64]struct{}{}, map[int]struct{}{}
	var vios []*vio
	bad := ""
	for i, k := range ws {
		err := k.cmd.Wait()
		if err != nil {
			tail := k.err.String()
			if len(tail) > 4000 {
				tail = tail[:2000] + "\n...\n" + tail[len(tail)-2000:]
			}
			if at := readAt(k.res + ".at"); at >= 0 && (strings.Contains(tail, "fatal error:") || strings.Contains(tail, "stack exceeds")) {
				vios = append(vios, &vio{Idx: at, Seed: runSeed(*seed, *id, at), Class: "fatal", Msg: firstLines(tail, 6)})
				os.WriteFile(stop, nil, 0o644)
				continue
			}
			bad += fmt.Sprintf("worker %d: %v\n%s\n", i, err, tail)
			os.WriteFile(stop, nil, 0o644)
			continue
		}
		b, err := os.ReadFile(k.res)
		if err != nil {
			bad += err.Error() + "\n"
			continue
		}
		var r wres
		if err := json.Unmarshal(b, &r); err != nil {
			bad += err.Error() + "\n"
			continue
		}
		if r.Bad != "" {
			bad += r.Bad + "\n"
		}
		tot.Runs += r.Runs
		tot.Faulty += r.Faulty
		tot.Nontriv += r.Nontriv
		tot.SimNS += r.SimNS
		tot.Switches += r.Switches
		for k, v := range r.Faults {
			tot.Faults[k] += v
		}
		for k, v := range r.RunsWith {
			tot.RunsWith[k] += v
		}
		for k, v := range r.Probes {
			tot.Probes[k] += v
		}
		for k, v := range r.Findings {
			if _, ok := tot.Findings[k]; !ok {
				tot.Findings[k] = v
			}
		}
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		for _, h := range r.States {
			states[h] = struct{}{}
		}
		for _, c := range r.Cov {
			cov[c] = struct{}{}
		}
		if len(tot.Samples) < 2 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		if r.V != nil {
			vios = append(vios, r.V)
		}
	}
	wall := time.Since(start).Seconds()
	sort.Slice(vios, func(i, j int) bool { return vios[i].Idx < vios[j].Idx })

	// report violations, one per class
	os.MkdirAll(filepath.Join(*verif, "evidence", "replays"), 0o755)
	seen := map[string]bool{}
	var lines []string
	for _, v := range vios {
		if seen[v.Class] || len(seen) >= 3 {
			continue
		}
		seen[v.Class] = true
		path := filepath.Join(*verif, "evidence", "replays", fmt.Sprintf("%s-%d.json", *id, len(seen)))
		if e := confirm(p, v, *seed, W, known, path, tmp); e != "" {
			bad += e + "\n"
			continue
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *id, path))
	}
	cleanup()

	// vacuity: every fault kind and condition the check is about must have fired
	var missing []string
	if len(vios) == 0 && bad == "" && *runs == 0 {
		for _, f := range p.Faults {
			if tot.Faults[f] == 0 {
				missing = append(missing, "fault "+f)
			}
		}
		for _, f := range p.Probes {
			if tot.Probes[f] == 0 {
				missing = append(missing, "probe "+f)
			}
		}
	}

	reach := map[string]string{}
	if b, err := os.ReadFile(*points); err == nil {
		var pts []struct {
			ID   int
			File string
			Line int
		}
		json.Unmarshal(b, &pts)
		type c struct{ hit, all int }
		m := map[string]*c{}
		for _, q := range pts {
			use := false
			for _, f := range p.Files {
				if q.File == f || strings.HasSuffix(f, "/") && strings.HasPrefix(q.File, f) {
					use = true
				}
			}
			if !use {
				continue
			}
			if m[q.File] == nil {
				m[q.File] = &c{}
			}
			m[q.File].all++
			if _, ok := cov[q.ID]; ok {
				m[q.File].hit++
			} else if os.Getenv("SIM_UNREACHED") != "" {
				fmt.Printf("unreached %s:%d\n", q.File, q.Line)
			}
		}
		for f, x := range m {
			reach[f] = fmt.Sprintf("%d of %d statements", x.hit, x.all)
		}
	}
	perHour := func(n int) int { return int(float64(n) / max(wall, 0.001) * 3600) }
	cv := map[string]any{
		"evaluations":                tot.Runs,
		"distinct_nontrivial":        len(hashes),
		"rule":                       p.Rule + " A run is non-trivial if at least one injected fault took effect or control changed between simulated tasks more than once; distinct counts different values of: " + p.Measure + ".",
		"samples":                    tot.Samples,
		"simulated_runs_per_hour":    perHour(tot.Runs),
		"seeds":                      fmt.Sprintf("%d seeds derived from VERIF_SEED=%d, one per run", tot.Runs, *seed),
		"fault_free_runs":            tot.Runs - tot.Faulty,
		"fault_injecting_runs":       tot.Faulty,
		"simulated_time_s":           float64(tot.SimNS) / 1e9,
		"faults_injected":            tot.Faults,
		"runs_with_fault":            tot.RunsWith,
		"conditions_reached":         tot.Probes,
		"task_switches":              tot.Switches,
		"library_statements_reached": reach,
		"real_components":            p.Real,
		"simulated_components":       p.Stub,
		"workers":                    W,
		"build_s":                    *buildS,
		"known_findings_seen":        tot.Findings,
	}
	if len(states) > 0 {
		cv["states"] = len(states)
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cv,
		"assumptions": []string{
			"one goroutine at a time: the simulator decides every switch; switches inside the library happen at statement boundaries only",
			"links and sinks keep the io.Reader and io.Writer contracts (a short write comes with an error)",
		},
		"wall_s": wall + *buildS, "violations": len(lines),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs (%d with faults) in %.1fs, %d distinct histories, %d switches, %.0f simulated seconds\n",
		*id, tot.Runs, tot.Faulty, wall, len(hashes), tot.Switches, float64(tot.SimNS)/1e9)
	fmt.Printf("%s: faults %s\n", *id, counts(tot.Faults))
	fmt.Printf("%s: conditions %s\n", *id, counts(tot.Probes))
	for _, f := range kf {
		if w, ok := tot.Findings[f.Signature]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s: %s)\n", *id, f.What, f.Signature, w)
		}
	}
	if len(lines) > 0 {
		for _, l := range lines {
			fmt.Println(l)
		}
		os.Exit(1)
	}
	if bad != "" {
		fmt.Fprintf(os.Stderr, "%s", bad)
		os.Exit(exitErr)
	}
	if len(missing) > 0 {
		die("%s: the runs never reached: %s", *id, strings.Join(missing, ", "))
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func counts(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return strings.TrimSpace(b.String())
}

// confirm minimises a violation, proves in a fresh process that the file
// reproduces it, and writes the file. It returns the reason if it cannot.
func confirm(p *props.Prop, v *vio, seed uint64, W int, known, path, tmp string) string {
	rf := replayFile{Property: p.ID, VerifSeed: seed, Index: v.Idx, Seed: v.Seed, Tape: v.Tape, Class: v.Class, Message: v.Msg,
		Original: len(v.Tape), How: "bash /verif/check.sh replay " + path}
	f := filepath.Join(tmp, "cand.json")
	put := func() {
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
	}
	once := func() (class, msg string, trace []string, ok bool) {
		put()
		out, err := self("replay", "-quiet", "-known", known, f).Output()
		if err != nil {
			if e, isExit := err.(*exec.ExitError); isExit && strings.Contains(string(e.Stderr), "fatal error:") {
				return "fatal", firstLines(string(e.Stderr), 6), nil, true
			}
			return "", "", nil, false
		}
		var o struct {
			Class, Msg string
			Trace      []string
		}
		if json.Unmarshal(out, &o) != nil {
			return "", "", nil, false
		}
		return o.Class, o.Msg, o.Trace, true
	}
	save := func(class, msg string, trace []string) string {
		rf.Class, rf.Message, rf.Trace = class, msg, trace
		put()
		b, _ := os.ReadFile(f)
		if err := os.WriteFile(path, b, 0o644); err != nil {
			return err.Error()
		}
		fmt.Printf("violation %s: %s\n  seed %d, run %d, %d decisions (minimised from %d)\n", class, msg, rf.Seed, rf.Index, len(rf.Tape), rf.Original)
		for i, l := range trace {
			if i >= 40 {
				fmt.Printf("  ... %d more lines in the replay file\n", len(trace)-i)
				break
			}
			fmt.Println("  " + l)
		}
		return ""
	}
	if v.Class == "fatal" {
		rf.Whole = true
		if c, m, t, ok := once(); ok && c == "fatal" {
			return save(c, m, t)
		}
		return fmt.Sprintf("run %d ended the worker (%s) but does not do so alone", v.Idx, v.Msg)
	}
	if len(v.Tape) > 1<<17 { // a run without end: its seed stands for it
		rf.Whole, rf.Tape = true, nil
		if c, m, t, ok := once(); ok && c == v.Class {
			return save(c, m, t)
		}
		return fmt.Sprintf("%s in run %d cannot be reproduced: %s", v.Class, v.Idx, v.Msg)
	}
	// minimise in a fresh process
	put()
	minf := filepath.Join(tmp, "min.json")
	if err := self("min", "-known", known, f, minf).Run(); err == nil {
		if b, err := os.ReadFile(minf); err == nil {
			var m replayFile
			if json.Unmarshal(b, &m) == nil {
				rf.Tape = m.Tape
			}
		}
	}
	if c, m, t, ok := once(); ok && c == v.Class {
		if c2, m2, t2, ok2 := once(); ok2 && c2 == c && m2 == m && strings.Join(t, "\n") == strings.Join(t2, "\n") {
			return save(c, m, t)
		}
	}
	rf.Tape = v.Tape
	if c, m, t, ok := once(); ok && c == v.Class {
		return save(c, m, t)
	}
	// state leaks from one run into the next: replay with its predecessors
	for _, n := range []int{1, 4, 16, 64, 256, 1 << 30} {
		rf.Prelude = nil
		for i := v.Idx - W; i >= 0 && len(rf.Prelude) < n; i -= W {
			rf.Prelude = append([]int{i}, rf.Prelude...)
		}
		if c, m, t, ok := once(); ok && c == v.Class {
			return save(c, m, t)
		}
	}
	return fmt.Sprintf("run %d: violation %s (%s) does not reproduce in a fresh process", v.Idx, v.Class, v.Msg)
}

// determinism runs the same seeds in several processes and worker counts and
// compares the full event logs.
func determinism(args []string) {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	n := fs.Int("n", 400, "")
	only := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	known := filepath.Join(*verif, "known_findings.json")
	tmp, _ := os.MkdirTemp("", "simdet")
	defer os.RemoveAll(tmp)
	var ids []string
	for id := range props.All {
		if *only == "" || *only == id {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	fail := false
	for _, id := range ids {
		logs := map[int]map[string]int{}
		procs := 0
		for _, W := range []int{1, 3, 8} {
			var cmds []*exec.Cmd
			var files []string
			for w := 0; w < W; w++ {
				f := filepath.Join(tmp, fmt.Sprintf("%s-%d-%d", id, W, w))
				c := self("worker", "-prop", id, "-seed", fmt.Sprint(*seed), "-w", fmt.Sprint(w), "-W", fmt.Sprint(W),
					"-count", fmt.Sprint(*n), "-deadline", "600", "-res", f, "-known", known, "-text")
				c.Stderr = os.Stderr
				c.Env = append(os.Environ(), fmt.Sprintf("GOGC=%d", 20+W*30))
				c.Start()
				cmds = append(cmds, c)
				files = append(files, f)
				procs++
			}
			for i, c := range cmds {
				if err := c.Wait(); err != nil {
					die("%s: %v", id, err)
				}
				b, _ := os.ReadFile(files[i])
				var r wres
				json.Unmarshal(b, &r)
				if r.Bad != "" {
					die("%s: %s", id, r.Bad)
				}
				for j := 0; j+2 < len(r.Text); j += 3 {
					idx := int(r.Text[j])
					if logs[idx] == nil {
						logs[idx] = map[string]int{}
					}
					logs[idx][fmt.Sprintf("%x-%x", r.Text[j+1], r.Text[j+2])]++
				}
			}
		}
		diff := 0
		for i, m := range logs {
			if len(m) > 1 {
				diff++
				fmt.Printf("%s: run %d differs: %v\n", id, i, m)
			}
		}
		fmt.Printf("%s: %d seeds, 3 executions each in %d processes, %d differ\n", id, len(logs), procs, diff)
		fail = fail || diff > 0
	}
	if fail {
		os.Exit(exitErr)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simd check|worker|replay|determinism|list")
	}
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "min":
		minimise(os.Args[2:])
	case "determinism":
		determinism(os.Args[2:])
	case "list":
		var ids []string
		for id := range props.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		die("unknown command %s", os.Args[1])
	}
}
