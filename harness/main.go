// Command zz_verif is the property-based test engine. It is compiled inside the
// module under test through a build overlay; see /verif/DESIGN.md.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	exitHang   = 97
	exitMemory = 98
	exitRace   = 66
	maxWorkers = 64
)

type caseFile struct {
	Property string    `json:"property"`
	Seed     uint64    `json:"seed"`
	Index    int64     `json:"index"` // -1: not generated (saved case)
	Message  string    `json:"message"`
	Readable []string  `json:"readable,omitempty"`
	Beside   int64     `json:"beside,omitempty"` // number of generated cases before and after Index to run in the same process
	Case     *testCase `json:"case"`
}

// result is what the child process leaves for its parent.
type result struct {
	Evaluations int64            `json:"evaluations"`
	Corpus      int64            `json:"corpus"`
	Nontrivial  int64            `json:"nontrivial"`
	Distinct    int64            `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Failure     *caseFile        `json:"failure,omitempty"`
	First       *caseFile        `json:"first,omitempty"` // the failure before shrinking
	Complete    bool             `json:"complete"`
}

var (
	fProp    = flag.String("prop", "", "property id")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fCases   = flag.Int("cases", 0, "override the number of cases")
	fCorpus  = flag.String("corpus", "", "directory with saved cases, run first")
	fScratch = flag.String("scratch", "", "scratch directory")
	fReplays = flag.String("replays", "", "directory for replay files")
	fEvid    = flag.String("evidence", "", "evidence file")
	fChild   = flag.Bool("child", false, "internal: run the cases")
	fOne     = flag.String("one", "", "internal: run the single case in this file")
	fReplay  = flag.String("replay", "", "replay a case file")
	fWorkers = flag.Int("workers", 0, "workers (0: number of CPUs)")
	fStat    = flag.Bool("stat", false, "print the distribution of generated cases")
	fKnown   = flag.String("known", "", "known-findings file")
)

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	switch {
	case *fOne != "":
		os.Exit(runOne(*fOne))
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	}
	p := propByID(*fProp)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if *fStat {
		statistics(p)
		return
	}
	if *fChild {
		child(p)
		return
	}
	os.Exit(parent(p))
}

func hashCase(c *testCase) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, ops := range [][]op{c.Ops, c.Ops2} {
		for i := range ops {
			o := &ops[i]
			h.Write([]byte(o.O))
			h.Write(o.K)
			h.Write([]byte{0xfe})
			h.Write(o.S)
			binary.LittleEndian.PutUint64(b[:], uint64(o.N)|uint64(o.A)<<16|uint64(o.B)<<32|uint64(o.X)<<48)
			h.Write(b[:])
		}
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

func numCases(p *property) int {
	if *fCases > 0 {
		return *fCases
	}
	if *fTier == "thorough" {
		return p.thorough
	}
	return p.quick
}

func workers(p *property) int {
	n := *fWorkers
	if n <= 0 {
		n = runtime.NumCPU()
	}
	if p.id == "C18" && n > 3 {
		n = 3
	}
	if n > maxWorkers {
		n = maxWorkers
	}
	return n
}

// ------------------------------------------------------------------ child

// progress is a shared-memory table telling the parent which case each worker is
// running, so that a crash can be attributed.
type progress struct {
	b []byte
}

func openProgress(path string) *progress {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	if err := f.Truncate(maxWorkers * 16); err != nil {
		fatal(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, maxWorkers*16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	return &progress{b: b}
}

func (p *progress) set(w int, id int64) {
	binary.LittleEndian.PutUint64(p.b[w*16:], uint64(id))
}

func (p *progress) get(w int) int64 { return int64(binary.LittleEndian.Uint64(p.b[w*16:])) }

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(3)
}

func loadCorpus(p *property) []*caseFile {
	if *fCorpus == "" {
		return nil
	}
	names, _ := filepath.Glob(filepath.Join(*fCorpus, p.id+"*.json"))
	sort.Strings(names)
	var out []*caseFile
	for _, n := range names {
		cf, err := readCase(n)
		if err != nil {
			fatal(fmt.Errorf("%s: %w", n, err))
		}
		out = append(out, cf)
	}
	return out
}

func readCase(path string) (*caseFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	cf := &caseFile{}
	if err := json.Unmarshal(b, cf); err != nil {
		return nil, err
	}
	if cf.Case == nil {
		return nil, fmt.Errorf("no case")
	}
	return cf, nil
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		fatal(err)
	}
}

func child(p *property) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	resFile := filepath.Join(*fScratch, "result.json")
	prog := openProgress(filepath.Join(*fScratch, "progress"))
	nw := workers(p)
	total := int64(numCases(p))
	corpus := loadCorpus(p)
	res := &result{Counters: map[string]int64{}}

	// Watchdog: a case that does not finish or eats memory ends the process;
	// the parent then examines the case on its own.
	var started [maxWorkers]atomic.Int64
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().UnixNano()
			for w := range started {
				if t := started[w].Load(); t != 0 && now-t > int64(60*time.Second) {
					fmt.Fprintf(os.Stderr, "worker %d: case did not finish\n", w)
					os.Exit(exitHang)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 9<<30 {
				fmt.Fprintln(os.Stderr, "heap limit exceeded")
				os.Exit(exitMemory)
			}
		}
	}()

	var mu sync.Mutex
	best := int64(1) << 62 // lowest failing index; corpus entries are negative
	var bestCase *caseFile
	fail := func(id int64, cf *caseFile) {
		mu.Lock()
		if id < best {
			best, bestCase = id, cf
		}
		mu.Unlock()
	}
	var bestA atomic.Int64
	bestA.Store(best)

	var next atomic.Int64
	next.Store(-int64(len(corpus)))
	type acc struct {
		evals, nontriv, corpus int64
		hashes                 map[uint64]struct{}
		cnt                    [16]int64
		samples                []string
		sampleIdx              []int64
	}
	accs := make([]*acc, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		a := &acc{hashes: map[uint64]struct{}{}}
		accs[w] = a
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := next.Add(1) - 1
				if i >= total || i > bestA.Load() {
					break
				}
				var c *testCase
				cf := &caseFile{Property: p.id, Seed: *fSeed, Index: i}
				if i < 0 {
					c = corpus[int64(len(corpus))+i].Case
					cf.Index = -1
				} else {
					c = genCase(p, *fSeed, uint64(i))
				}
				cf.Case = c
				prog.set(w, i+1+(1<<40))
				started[w].Store(time.Now().UnixNano())
				msg, st := runCase(p, c)
				started[w].Store(0)
				prog.set(w, 0)
				a.evals++
				if i < 0 {
					a.corpus++
				}
				if p.nontrivial(&st) {
					a.nontriv++
					if len(a.hashes) < 4<<20 {
						a.hashes[hashCase(c)] = struct{}{}
					}
					if i >= 0 && len(a.samples) < 2 && len(c.Ops) <= 30 {
						a.samples = append(a.samples, fmt.Sprintf("case %d: %s", i, c.describe(14)))
						a.sampleIdx = append(a.sampleIdx, i)
					}
				}
				bump(&a.cnt, &st)
				if msg != "" {
					cf.Message = msg
					fail(i, cf)
					for {
						b := bestA.Load()
						if i >= b || bestA.CompareAndSwap(b, i) {
							break
						}
					}
				}
			}
		}(w)
	}
	wg.Wait()
	all := map[uint64]struct{}{}
	var cnt [16]int64
	for _, a := range accs {
		res.Evaluations += a.evals
		res.Corpus += a.corpus
		res.Nontrivial += a.nontriv
		for h := range a.hashes {
			all[h] = struct{}{}
		}
		for i := range cnt {
			cnt[i] += a.cnt[i]
		}
		if len(res.Samples) < 5 {
			res.Samples = append(res.Samples, a.samples...)
		}
	}
	if len(res.Samples) > 5 {
		res.Samples = res.Samples[:5]
	}
	res.Distinct = int64(len(all))
	for i, n := range counterNames {
		res.Counters[n] = cnt[i]
	}
	if bestCase != nil {
		bestCase.Readable = readable(bestCase.Case)
		res.Failure = bestCase
		res.First = bestCase
		writeJSON(resFile, res) // survives even if shrinking crashes
		orig := *bestCase
		started[0].Store(time.Now().UnixNano())
		tries := 1
		if p.id == "C18" {
			tries = 12
		}
		lastMsg := ""
		sc := shrink(orig.Case, func(c *testCase) bool {
			for t := 0; t < tries; t++ {
				started[0].Store(time.Now().UnixNano())
				m, _ := runCase(p, c)
				started[0].Store(0)
				if m != "" {
					lastMsg = m
					return true
				}
			}
			return false
		}, 20000, 40*time.Second)
		if lastMsg != "" {
			m := ""
			for t := 0; t < tries && m == ""; t++ {
				m, _ = runCase(p, sc)
			}
			if m == "" {
				m = lastMsg
			}
			bestCase = &caseFile{Property: p.id, Seed: orig.Seed, Index: orig.Index, Message: m, Case: sc, Readable: readable(sc)}
			res.Failure = bestCase
		}
	}
	res.Complete = true
	writeJSON(resFile, res)
	if res.Failure != nil {
		os.Exit(1)
	}
}

func readable(c *testCase) []string {
	var out []string
	for i, o := range c.Ops {
		if i >= 200 {
			out = append(out, fmt.Sprintf("... %d more", len(c.Ops)-i))
			break
		}
		out = append(out, o.String())
	}
	for _, o := range c.Ops2 {
		out = append(out, "continuation: "+o.String())
	}
	return out
}

var counterNames = []string{"inserts", "updates", "deletes", "deletes_of_absent", "prefix_deletes", "commits", "notifications", "abandoned", "txn_clones", "forks", "txn_writes", "queries", "watches", "watches_required_to_fire", "non_empty_answers", "cases_over_16_keys"}

func bump(c *[16]int64, st *stats) {
	for i, v := range []int{st.inserts, st.updates, st.deletes, st.misses, st.dlps, st.commits, st.notifies, st.aborts, st.clones, st.forks, st.txWrites, st.queries, st.watches, st.mustFired, st.nonEmptyQueries} {
		c[i] += int64(v)
	}
	if st.maxKeys > 16 {
		c[15]++
	}
}

// runOne runs one case in this process: exit 0 held, 1 violated (message on
// stdout), anything else: crashed.
func runOne(path string) int {
	cf, err := readCase(path)
	if err != nil {
		fatal(err)
	}
	p := propByID(cf.Property)
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", cf.Property))
	}
	debug.SetMemoryLimit(3 << 30)
	out := os.Stdout
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				os.Exit(exitMemory)
			}
		}
	}()
	tries := 1
	if p.id == "C18" {
		tries = 200
	}
	if cf.Beside > 0 {
		if msg := runBeside(p, cf); msg != "" {
			fmt.Fprintln(out, msg)
			return 1
		}
	}
	for i := 0; i < tries; i++ {
		if msg, _ := runCase(p, cf.Case); msg != "" {
			fmt.Fprintln(out, msg)
			return 1
		}
	}
	return 0
}

// ------------------------------------------------------------------ parent

// isolated runs one case in a process of its own. It returns a description of
// what went wrong, or "".
func isolated(cf *caseFile, limit time.Duration) (string, error) {
	path := filepath.Join(*fScratch, "one.json")
	writeJSON(path, cf)
	cmd := exec.Command(os.Args[0], "-one", path)
	cmd.Env = raceEnv()
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		text := out.String()
		if len(text) > 3000 {
			text = text[:3000]
		}
		if err == nil {
			return "", nil
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return "", err
		}
		switch ee.ExitCode() {
		case 1:
			return strings.TrimSpace(text), nil
		case 3:
			return "", fmt.Errorf("isolated run: %s", text)
		case exitMemory:
			return "the case allocates memory without bound", nil
		case exitRace:
			return "data race: " + text, nil
		case 2: // Go runtime crash
			return "the process crashed: " + text, nil
		}
		if strings.Contains(text, "fatal error: stack overflow") || strings.Contains(text, "goroutine stack exceeds") {
			return "stack overflow: " + text, nil
		}
		return "", fmt.Errorf("isolated run ended with %v: %s", err, text)
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return fmt.Sprintf("the case did not finish within %s", limit), nil
	}
}

func raceEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(exitRace))
}

func parent(p *property) int {
	start := time.Now()
	resFile := filepath.Join(*fScratch, "result.json")
	os.Remove(resFile)
	args := []string{"-child", "-prop", p.id, "-seed", fmt.Sprint(*fSeed), "-tier", *fTier, "-cases", fmt.Sprint(*fCases), "-corpus", *fCorpus, "-scratch", *fScratch, "-workers", fmt.Sprint(*fWorkers)}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = raceEnv()
	errFile := filepath.Join(*fScratch, "stderr")
	ef, err := os.Create(errFile)
	if err != nil {
		fatal(err)
	}
	cmd.Stdout = ef
	cmd.Stderr = ef
	prog := openProgress(filepath.Join(*fScratch, "progress"))
	runErr := cmd.Run()
	ef.Close()
	stderrB, _ := os.ReadFile(errFile)
	stderr := string(stderrB)
	if len(stderr) > 6000 {
		stderr = stderr[:6000]
	}

	res := &result{Counters: map[string]int64{}}
	if b, err := os.ReadFile(resFile); err == nil {
		if err := json.Unmarshal(b, res); err != nil {
			fatal(err)
		}
	}
	code := 0
	if runErr != nil {
		ee, ok := runErr.(*exec.ExitError)
		if !ok {
			fatal(runErr)
		}
		code = ee.ExitCode()
	}
	switch {
	case code == 0 && res.Complete && res.Failure == nil:
	case res.Failure != nil:
		if res.First != nil {
			res.Failure = confirm(p, res.Failure, res.First)
		}
	case code == 3:
		fmt.Fprint(os.Stderr, stderr)
		return 3
	default:
		f, err := examineCrash(p, prog, code, stderr)
		if err != nil {
			fmt.Fprintf(os.Stderr, "the test process ended with code %d (%v) and no case reproduces it: %v\n%s\n", code, runErr, err, stderr)
			return 3
		}
		res.Failure = f
	}

	violations := []map[string]any{}
	exit := 0
	if res.Failure != nil {
		f := res.Failure
		h := fnv.New32a()
		b, _ := json.Marshal(f.Case)
		h.Write(b)
		name := fmt.Sprintf("%s-%08x.json", p.id, h.Sum32())
		if known := knownFinding(p.id, name); known != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, known)
		} else {
			os.MkdirAll(*fReplays, 0o755)
			path := filepath.Join(*fReplays, name)
			writeJSON(path, f)
			fmt.Printf("%s\n", strings.TrimSpace(f.Message))
			for i, l := range f.Readable {
				if i > 40 {
					fmt.Println("  ...")
					break
				}
				fmt.Println("  " + l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
			violations = append(violations, map[string]any{"replay": path, "message": firstLine(f.Message)})
			exit = 1
		}
	}
	if *fEvid != "" {
		writeEvidence(p, res, violations, time.Since(start))
	}
	if exit == 0 {
		fmt.Printf("property %s held: %d cases, %d distinct non-trivial, %.1f s\n", p.id, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	}
	return exit
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// knownFinding looks the failure up in the known-findings file. Entries name the
// replay file of the specific input.
func knownFinding(prop, name string) string {
	if *fKnown == "" {
		return ""
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" case="+name+" ")
		if ok {
			return rest
		}
	}
	return ""
}

// runBeside runs the case and its neighbours in eight goroutines, several times.
func runBeside(p *property, cf *caseFile) string {
	var next atomic.Int64
	var msg atomic.Pointer[string]
	var wg sync.WaitGroup
	from := max(cf.Index-cf.Beside, 0)
	count := cf.Index + cf.Beside + 1 - from
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for msg.Load() == nil {
				n := next.Add(1) - 1
				if n >= 10*count {
					return
				}
				i := from + n%count
				c := cf.Case
				if i != cf.Index {
					c = genCase(p, cf.Seed, uint64(i))
				}
				if m, _ := runCase(p, c); m != "" {
					m = fmt.Sprintf("case %d: %s", i, m)
					msg.CompareAndSwap(nil, &m)
				}
			}
		}()
	}
	wg.Wait()
	if m := msg.Load(); m != nil {
		return *m
	}
	return ""
}

// confirm makes sure that the case written to the replay file fails in a process of
// its own. That may not be so if the code under test keeps state outside of the trees.
func confirm(p *property, f, first *caseFile) *caseFile {
	if p.id == "C18" {
		return f
	}
	if m, err := isolated(f, 60*time.Second); err != nil || m != "" {
		return f
	}
	last, err := isolated(first, 60*time.Second)
	if err != nil {
		return f
	}
	if last != "" {
		sc := shrink(first.Case, func(c *testCase) bool {
			m, err := isolated(&caseFile{Property: p.id, Seed: *fSeed, Index: -1, Case: c}, 10*time.Second)
			if err == nil && m != "" {
				last = m
				return true
			}
			return false
		}, 1000, 40*time.Second)
		return &caseFile{Property: p.id, Seed: *fSeed, Index: first.Index, Message: last, Case: sc, Readable: readable(sc)}
	}
	for _, n := range []int64{50, 1000} {
		c := *first
		c.Index = max(c.Index, 0)
		c.Beside = n
		if m, err := isolated(&c, 60*time.Second); err == nil && m != "" {
			c.Message = "cases run side by side, each on trees of its own: " + m
			return &c
		}
	}
	c := *first
	c.Message += " (in a process that runs other cases, on trees of their own, at the same time or before)"
	return &c
}

// examineCrash re-runs, each in its own process, the cases that were in flight
// when the child died.
func examineCrash(p *property, prog *progress, code int, stderr string) (*caseFile, error) {
	corpus := loadCorpus(p)
	var ids []int64
	for w := 0; w < maxWorkers; w++ {
		if v := prog.get(w); v != 0 {
			ids = append(ids, v-1-(1<<40))
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) == 0 {
		return nil, fmt.Errorf("no case was in flight")
	}
	mk := func(id int64) *caseFile {
		cf := &caseFile{Property: p.id, Seed: *fSeed, Index: id}
		if id < 0 {
			if int(-id) > len(corpus) {
				return nil
			}
			cf.Case = corpus[int64(len(corpus))+id].Case
			cf.Index = -1
		} else {
			cf.Case = genCase(p, *fSeed, uint64(id))
		}
		cf.Readable = readable(cf.Case)
		return cf
	}
	for _, id := range ids {
		cf := mk(id)
		if cf == nil {
			continue
		}
		msg, err := isolated(cf, 90*time.Second)
		if err != nil {
			return nil, err
		}
		if msg == "" {
			continue
		}
		hang := strings.Contains(msg, "did not finish")
		deadline := time.Now().Add(100 * time.Second)
		limit := 20 * time.Second
		if hang {
			limit = 10 * time.Second
		}
		last := msg
		sc := shrink(cf.Case, func(c *testCase) bool {
			if time.Now().After(deadline) {
				return false
			}
			m, err := isolated(&caseFile{Property: p.id, Seed: *fSeed, Index: -1, Case: c}, limit)
			if err == nil && m != "" {
				last = m
				return true
			}
			return false
		}, 400, 100*time.Second)
		return &caseFile{Property: p.id, Seed: *fSeed, Index: cf.Index, Message: last, Case: sc, Readable: readable(sc)}, nil
	}
	if code == exitRace && strings.Contains(stderr, "DATA RACE") {
		// The detector has no false positives: the report stands even if the
		// schedule does not come back in isolation.
		cf := mk(ids[0])
		cf.Message = "data race (reported once; the schedule did not recur in isolation): " + stderr
		return cf, nil
	}
	if strings.Contains(stderr, "fatal error: concurrent map") && faultInLibrary(stderr) {
		// Cases run side by side share no tree, so the code under test shares state
		// between unrelated trees without synchronisation.
		cf := mk(ids[0])
		cf.Index, cf.Beside = max(cf.Index, 0), 1000
		cf.Message = "unrelated trees used by different goroutines (cases run side by side): " + stderr
		return cf, nil
	}
	return nil, fmt.Errorf("%d cases in flight, none fails in isolation", len(ids))
}

// faultInLibrary tells whether the innermost frame of the first goroutine listed
// that is not of the runtime belongs to the code under test.
func faultInLibrary(trace string) bool {
	_, trace, _ = strings.Cut(trace, "[running]:")
	for _, l := range strings.Split(trace, "\n") {
		switch {
		case l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "internal/runtime"):
		case strings.HasPrefix(l, "github.com/absolutelightning/go-immutable-adaptive-radix."):
			return true
		default:
			return false
		}
	}
	return false
}

func replay(path string) int {
	cf, err := readCase(path)
	if err != nil {
		fatal(err)
	}
	if propByID(cf.Property) == nil {
		fatal(fmt.Errorf("unknown property %q", cf.Property))
	}
	msg, err := isolated(cf, 90*time.Second)
	if err != nil {
		fatal(err)
	}
	if msg != "" {
		fmt.Println(msg)
		for _, l := range readable(cf.Case) {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", cf.Property, path)
		return 1
	}
	fmt.Printf("property %s holds on %s\n", cf.Property, path)
	return 0
}

func writeEvidence(p *property, res *result, violations []map[string]any, wall time.Duration) {
	cov := map[string]any{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"nontrivial":          res.Nontrivial,
		"saved_cases":         res.Corpus,
		"rule":                p.rule,
		"samples":             res.Samples,
		"counters":            res.Counters,
	}
	if res.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": p.id,
		"tier":     *fTier,
		"seed":     *fSeed,
		"level":    "exploration",
		"coverage": cov,
		"wall_s":   wall.Seconds(),
		"assumptions": []string{
			"the reference model (a Go map with sorted keys) is right",
			"generated histories are representative; bounds are given in DESIGN.md",
		},
		"violations": len(violations),
	}
	if len(violations) > 0 {
		cov["violation_list"] = violations
	}
	os.MkdirAll(filepath.Dir(*fEvid), 0o755)
	writeJSON(*fEvid, ev)
}

// statistics prints what the generator produces.
func statistics(p *property) {
	n := numCases(p)
	hist := map[string]int{}
	keyLen := map[int]int{}
	opsN := 0
	for i := 0; i < n; i++ {
		c := genCase(p, *fSeed, uint64(i))
		opsN += len(c.Ops)
		for _, o := range c.Ops {
			hist[o.O]++
			b := len(o.K)
			switch {
			case b > 100:
				b = 101
			case b > 24:
				b = 25
			}
			keyLen[b]++
		}
	}
	fmt.Printf("%d cases, %.1f ops per case\n%v\n", n, float64(opsN)/float64(n), hist)
	var ls []int
	for l := range keyLen {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	for _, l := range ls {
		fmt.Printf("len %d: %d\n", l, keyLen[l])
	}
}
