package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- suites: kinds of cases the worker can run against the real code ----

// suite runs one case (JSON) against the real code and returns the observation (JSON object with at least id and crash)
type suite func(raw []byte) interface{}

var suites = map[string]suite{}

func workerMain(name string) {
	debug.SetMaxStack(128 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	run, ok := suites[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no suite", name)
		os.Exit(2)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.NewFile(uintptr(3), "out")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		res := guarded(run, line)
		b, err := json.Marshal(res)
		if err != nil {
			b, _ = json.Marshal(map[string]string{"crash": "harness: " + err.Error()})
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

// suiteBinary: suites that run in another binary than this one
var suiteBinary = map[string]string{}

func guarded(run suite, raw []byte) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			stack := string(debug.Stack())
			if strings.HasPrefix(msg, "harness:") {
				fmt.Fprintln(os.Stderr, msg)
				os.Exit(7)
			}
			res = map[string]interface{}{"crash": "panic: " + msg, "stack": stack}
		}
	}()
	return run(raw)
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	f   *os.File
	err *tailBuf
}

// tailBuf keeps the first bytes written to it
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 40000 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func startProc(suite string) (*proc, error) {
	bin := os.Args[0]
	if b := suiteBinary[suite]; b != "" {
		bin = b
	}
	cmd := exec.Command(bin, "worker", suite)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(pr, 1<<20), f: pr, err: tb}, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.f.Close()
}

// ask runs one case, dead = the worker is unusable afterwards
func (p *proc) ask(raw []byte, timeout time.Duration) (obs []byte, dead string) {
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := p.in.Write(append(append([]byte{}, raw...), '\n')); err != nil {
			ch <- res{nil, err}
			return
		}
		b, err := p.out.ReadBytes('\n')
		ch <- res{b, err}
	}()
	select {
	case r := <-ch:
		if r.err == nil {
			return bytes.TrimSpace(r.b), ""
		}
		p.in.Close()
		p.cmd.Wait()
		msg := string(p.err.b)
		if p.cmd.ProcessState != nil && p.cmd.ProcessState.ExitCode() == 7 {
			return nil, "harness: " + msg
		}
		if d := os.Getenv("YV_CRASH"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%d.txt", d, time.Now().UnixNano()), []byte(string(raw)+"\n"+msg), 0o644)
		}
		first := msg
		if i := strings.Index(first, "\n\n"); i > 0 {
			first = first[:i]
		}
		if len(first) > 1500 {
			first = first[:1500]
		}
		first = strings.ReplaceAll(first, "|", ";")
		return nil, "process died: " + strings.TrimSpace(first)
	case <-time.After(timeout):
		return nil, "no answer"
	}
}

const caseTimeout = 20 * time.Second

// runCases runs all cases in worker processes. A case that kills or hangs its worker is run again
// alone: only when that fails as well it is a crash of the code under test.
func runCases(suite string, cases [][]byte) ([][]byte, error) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if len(cases) < n {
		n = len(cases)
	}
	res := make([][]byte, len(cases))
	var mu sync.Mutex
	var firstErr error
	next := 0
	crashes := 0
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(cases) || firstErr != nil {
			return -1
		}
		next++
		return next - 1
	}
	fail := func(err error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = err
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				i := take()
				if i < 0 {
					return
				}
				for try := 0; ; try++ {
					if p == nil {
						var err error
						if p, err = startProc(suite); err != nil {
							fail(err)
							return
						}
					}
					mu.Lock()
					many := crashes > 5
					mu.Unlock()
					tm := caseTimeout
					if many {
						tm = 5 * time.Second
					}
					obs, dead := p.ask(cases[i], tm)
					if dead == "" {
						res[i] = obs
						break
					}
					p.stop()
					p = nil
					if strings.HasPrefix(dead, "harness:") {
						fail(fmt.Errorf("%s", dead))
						return
					}
					if try >= 1 || many || strings.Contains(dead, "DATA RACE") {
						mu.Lock()
						crashes++
						mu.Unlock()
						res[i], _ = json.Marshal(map[string]interface{}{"crash": dead})
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	return res, firstErr
}

// ---- TLC ----

type tlcResult struct {
	Out      string
	Gen      int
	Distinct int
	Lines    []string // strings printed by the specification
	Actions  map[string]int
}

var reStates = regexp.MustCompile(`(\d+) states generated, (\d+) distinct states found`)
var reCov = regexp.MustCompile(`(?m)^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)`)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// runTLC checks spec/<module>.tla with spec/<cfg>.cfg. Any outcome but success is an error
func runTLC(work, module, cfg string, env []string, timeout time.Duration, extra ...string) (*tlcResult, error) {
	meta, err := os.MkdirTemp(work, "tlc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(meta)
	spec := filepath.Join(verifDir(), "spec")
	args := []string{"-XX:+UseSerialGC", "-Xshare:auto", "-Xmx3g", "-Xss64m", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
		"tlc2.TLC", "-metadir", meta, "-config", filepath.Join(spec, cfg+".cfg")}
	args = append(args, extra...)
	args = append(args, filepath.Join(spec, module+".tla"))
	cmd := exec.Command("java", args...)
	cmd.Dir = meta
	cmd.Env = append(os.Environ(), env...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	res := &tlcResult{Out: out.String(), Actions: map[string]int{}}
	if err != nil {
		tail := res.Out
		if i := strings.Index(tail, "Error:"); i >= 0 {
			tail = tail[i:]
		}
		if i := strings.Index(tail, "The coverage statistics"); i > 0 {
			tail = tail[:i]
		}
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		return res, fmt.Errorf("TLC on %s/%s: %v\n%s", module, cfg, err, tail)
	}
	if ms := reStates.FindAllStringSubmatch(res.Out, -1); len(ms) > 0 {
		m := ms[len(ms)-1]
		res.Gen, _ = strconv.Atoi(m[1])
		res.Distinct, _ = strconv.Atoi(m[2])
	}
	for _, m := range reCov.FindAllStringSubmatch(res.Out, -1) {
		n, _ := strconv.Atoi(m[4])
		res.Actions[m[1]] = n // the last report counts
	}
	for _, l := range strings.Split(res.Out, "\n") {
		if len(l) > 1 && l[0] == '"' && strings.HasSuffix(l, `"`) {
			res.Lines = append(res.Lines, tlcUnquote(l[1:len(l)-1]))
		}
	}
	return res, nil
}

func tlcUnquote(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case 'f':
				b.WriteByte('\f')
			default:
				b.WriteByte(s[i])
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// ---- a check run ----

type mismatch struct {
	ID   int             `json:"id"`
	What string          `json:"what"`
	Want string          `json:"specification"`
	Case json.RawMessage `json:"case"`
	Obs  json.RawMessage `json:"observed"`
	Spec string          `json:"spec"`
}

type run struct {
	id, tier string
	seed     int64
	work     string
	start    time.Time
	rng      *rand.Rand

	states, trans, traces int
	evals                 int
	distinct              map[string]bool
	nontrivial            int
	samples               []interface{}
	actions               map[string]int
	notes                 map[string]interface{}
	mism                  []mismatch
	assumptions           []string
	exhaustive            []string
}

func (r *run) quick() bool { return r.tier != "thorough" }

// n picks a size by tier
func (r *run) n(quick, thorough int) int {
	if r.quick() {
		return quick
	}
	return thorough
}

func (r *run) addTLC(t *tlcResult) {
	r.states += t.Distinct
	r.trans += t.Gen
	for k, v := range t.Actions {
		r.actions[k] += v
	}
}

func joinJSON(xs [][]byte) []byte {
	var b bytes.Buffer
	b.WriteByte('[')
	for i, x := range xs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('\n')
		b.Write(x)
	}
	b.WriteString("\n]\n")
	return b.Bytes()
}

// tlcSafe removes what the TLC Json module cannot hold: null and empty objects are never generated by us,
// numbers have to fit in 32 bits
var fileNr int

func (r *run) tmp(name string, data []byte) (string, error) {
	fileNr++
	p := filepath.Join(r.work, fmt.Sprintf("%d-%s", fileNr, name))
	return p, os.WriteFile(p, data, 0o644)
}

// validate runs the cases (any JSON-able values) in the suite and lets TLC compare every observation with the
// trace specification. Case ids are given here.
func (r *run) validate(suiteName, module string, cases []interface{}, mask []string) error {
	raws := make([][]byte, len(cases))
	for i, c := range cases {
		b, err := json.Marshal(c)
		if err != nil {
			return err
		}
		raws[i] = b
	}
	return r.validateRaw(suiteName, module, raws, mask, true)
}

var reOK = regexp.MustCompile(`^OK (\d+)$`)
var reMM = regexp.MustCompile(`(?s)^MISMATCH (\d+) ([^|]*)\|(.*)$`)

const batchSize = 4000

func (r *run) validateRaw(suiteName, module string, raws [][]byte, mask []string, first bool) error {
	for len(raws) > batchSize {
		if err := r.validateRaw(suiteName, module, raws[:batchSize], mask, first); err != nil {
			return err
		}
		raws = raws[batchSize:]
	}
	if len(raws) == 0 {
		return nil
	}
	obs, err := runCases(suiteName, raws)
	if err != nil {
		return err
	}
	mm, err := r.compare(module, raws, obs, mask)
	if err != nil {
		return err
	}
	if len(mm) > 0 {
		// only what happens again when run alone counts
		limit := 12
		if len(mm) > limit {
			mm = mm[:limit]
		}
		again := make([][]byte, len(mm))
		for i, m := range mm {
			again[i] = m.Case
		}
		races := []mismatch{}
		for _, m := range mm {
			// the race detector reports what happened, also when it does not happen the next time
			if bytes.Contains(m.Obs, []byte("DATA RACE")) {
				races = append(races, m)
			}
		}
		obs2, err := runCases(suiteName, again)
		if err != nil {
			return err
		}
		mm2, err := r.compare(module, again, obs2, mask)
		if err != nil {
			return err
		}
		if len(mm2) == 0 {
			mm2 = races
		}
		if len(mm2) == 0 {
			// maybe it depends on the requests that ran before it in the same process: run everything again
			if obs2, err = runCases(suiteName, raws); err != nil {
				return err
			}
			if mm2, err = r.compare(module, raws, obs2, mask); err != nil {
				return err
			}
			if len(mm2) > limit {
				mm2 = mm2[:limit]
			}
		}
		if len(mm2) == 0 {
			for _, m := range mm[:1] {
				b, _ := json.MarshalIndent(m, "", " ")
				fmt.Fprintln(os.Stderr, string(b))
			}
			return fmt.Errorf("%d mismatches could not be reproduced, the first: %s", len(mm), mm[0].What)
		}
		r.mism = append(r.mism, mm2...)
	}
	r.evals += len(raws)
	r.traces += len(raws)
	for i := range raws {
		r.distinct[string(raws[i])] = true
		if len(r.samples) < 3 && i%(1+len(raws)/3) == 1 {
			r.samples = append(r.samples, map[string]interface{}{"spec": module, "case": json.RawMessage(clip(raws[i])), "observed": json.RawMessage(clip(obs[i]))})
		}
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) <= 6000 {
		return b
	}
	x, _ := json.Marshal(string(b[:6000]) + "...")
	return x
}

const shardSize = 250

// compare lets TLC check the observations, in parallel shards; the position of a case in its shard is its identity
func (r *run) compare(module string, raws, obs [][]byte, mask []string) ([]mismatch, error) {
	mb, _ := json.Marshal(mask)
	mf, err := r.tmp("mask.json", mb)
	if err != nil {
		return nil, err
	}
	type shard struct {
		from, to int
		cf, of   string
		mm       []mismatch
		t        *tlcResult
		err      error
	}
	size := shardSize
	if s := (len(raws) + 7) / 8; s > size {
		size = s
	}
	shards := []*shard{}
	for from, to := 0, 0; from < len(raws); from = to {
		to = from + size
		if from == 0 && len(raws) > size {
			to = 50 // the actions are only counted in the first one, as that takes a lot of time
		}
		if to > len(raws) {
			to = len(raws)
		}
		sh := &shard{from: from, to: to}
		if sh.cf, err = r.tmp("cases.json", joinJSON(raws[from:to])); err != nil {
			return nil, err
		}
		if sh.of, err = r.tmp("obs.json", joinJSON(obs[from:to])); err != nil {
			return nil, err
		}
		shards = append(shards, sh)
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i, sh := range shards {
		wg.Add(1)
		go func(i int, sh *shard) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			extra := []string{"-workers", "1"}
			if i == 0 {
				extra = append(extra, "-coverage", "1")
			}
			sh.t, sh.err = runTLC(r.work, module, module, []string{"CASES=" + sh.cf, "OBS=" + sh.of, "MASK=" + mf}, 14*time.Minute, extra...)
			if sh.err != nil {
				return
			}
			if os.Getenv("YV_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "  shard %s of %d: %.1fs\n", filepath.Base(sh.cf), sh.to-sh.from, time.Since(t0).Seconds())
			}
			seen := map[int]bool{}
			for _, l := range sh.t.Lines {
				if m := reOK.FindStringSubmatch(l); m != nil {
					i, _ := strconv.Atoi(m[1])
					seen[i] = true
				} else if m := reMM.FindStringSubmatch(l); m != nil {
					i, _ := strconv.Atoi(m[1])
					if i < 1 || i > sh.to-sh.from {
						sh.err = fmt.Errorf("bad mismatch line %q", l)
						return
					}
					seen[i] = true
					sh.mm = append(sh.mm, mismatch{sh.from + i, m[2], m[3], raws[sh.from+i-1], obs[sh.from+i-1], module})
				}
			}
			if len(seen) != sh.to-sh.from {
				sh.err = fmt.Errorf("%s: %d of %d cases compared", module, len(seen), sh.to-sh.from)
			}
		}(i, sh)
	}
	wg.Wait()
	if os.Getenv("YV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "tlc %s %d cases %.1fs\n", module, len(raws), time.Since(t0).Seconds())
	}
	mm := []mismatch{}
	for _, sh := range shards {
		if sh.err != nil {
			if d := os.Getenv("YV_KEEP"); d != "" {
				_ = exec.Command("cp", sh.cf, sh.of, mf, d).Run()
			}
			return nil, sh.err
		}
		r.addTLC(sh.t)
		mm = append(mm, sh.mm...)
		os.Remove(sh.cf)
		os.Remove(sh.of)
	}
	return mm, nil
}

// ---- main of a check ----

type checkDef struct {
	id    string
	run   func(r *run) error
	level string
	rule  string
}

var checks = map[string]checkDef{}

func checkMain(id string) int {
	d, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	r := &run{id: id, tier: os.Getenv("VERIF_TIER"), start: time.Now(), distinct: map[string]bool{}, actions: map[string]int{}, notes: map[string]interface{}{}}
	if r.tier != "thorough" {
		r.tier = "quick"
	}
	r.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r.rng = rand.New(rand.NewSource(r.seed*7919 + int64(id[1])*100 + int64(id[2])))
	work, err := os.MkdirTemp("", "yv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r.work = work
	if os.Getenv("YV_CRASH") == "" {
		defer os.RemoveAll(work)
	}
	old, _ := filepath.Glob(filepath.Join(verifDir(), "replay", id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	err = d.run(r)
	if err != nil {
		fmt.Fprintf(os.Stderr, "check %s: %v\n", id, err)
		if len(r.mism) == 0 {
			return 2
		}
	}
	known, err := loadKnown(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	viol := 0
	said := map[string]bool{}
	for i, m := range r.mism {
		if k := known.match(m); k != "" {
			if !said[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			said[k] = true
			continue
		}
		viol++
		dir := filepath.Join(verifDir(), "replay")
		_ = os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(m, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  %s: %s\n", m.Spec, m.What)
		if viol >= 5 {
			break
		}
	}
	cov := map[string]interface{}{
		"states": r.states, "transitions": r.trans, "traces_validated_against_impl": r.traces,
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": d.rule, "samples": r.samples,
		"action_counts": r.actions,
	}
	if len(r.exhaustive) > 0 {
		cov["exhaustive_parts"] = r.exhaustive
	}
	for k, v := range r.notes {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": r.tier, "seed": r.seed, "level": d.level, "coverage": cov,
		"assumptions": r.assumptions, "wall_s": time.Since(r.start).Seconds(), "violations": viol,
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases against the real code, %d spec states, %d violations, %.1fs\n", id, r.tier, r.seed, r.traces, r.states, viol, time.Since(r.start).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

// ---- known findings ----

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding or fixed
	Case     string `json:"case"`   // regular expression on the case JSON that fails
	What     string `json:"what"`
	Text     string `json:"text"`
	re       *regexp.Regexp
}

type knownList []knownEntry

func loadKnown(id string) (knownList, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	res := knownList{}
	for _, e := range f.Findings {
		if e.Property == id && e.Status == "finding" {
			if e.re, err = regexp.Compile(e.Case); err != nil {
				return nil, err
			}
			res = append(res, e)
		}
	}
	return res, nil
}

func (k knownList) match(m mismatch) string {
	for _, e := range k {
		if e.re.Match(m.Case) && strings.Contains(m.What, e.What) {
			return e.Text
		}
	}
	return ""
}
