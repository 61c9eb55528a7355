package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode"

	"pgregory.net/rapid"
)

// Case is one generated input, complete enough to be replayed on its own.
type Case struct {
	Prop     string            `json:"property"`
	Scenario string            `json:"scenario"`
	Schema   *Schema           `json:"schema,omitempty"`
	Schema2  *Schema           `json:"schema2,omitempty"`
	Raw      string            `json:"raw,omitempty"`
	RawB64   []byte            `json:"raw_b64,omitempty"`
	Opts     map[string]string `json:"opts,omitempty"`
	List     []string          `json:"list,omitempty"`
	Book     *Book             `json:"book,omitempty"`
	DDL      *DDL              `json:"ddl,omitempty"`
	OJ       *OJSchema         `json:"ojson,omitempty"`
	Star     *StarModel        `json:"staruml,omitempty"`
	Note     string            `json:"note,omitempty"`
}

func (c *Case) opt(k string) string { return c.Opts[k] }
func (c *Case) flag(k string) bool  { return c.Opts[k] != "" }

// Outcome of one case.  Fail is empty when the property held.
type Outcome struct {
	Fail   string
	Labels []string
}

func (o *Outcome) label(l ...string) { o.Labels = append(o.Labels, l...) }
func (o *Outcome) failf(format string, a ...interface{}) {
	if o.Fail == "" {
		o.Fail = fmt.Sprintf(format, a...)
	}
}

type Scenario struct {
	Name   string
	Weight int // share of the cases
	Gen    func(t *rapid.T) *Case
	Check  func(e *Env, c *Case) *Outcome
}

type Property struct {
	ID        string
	Title     string
	Rule      string
	Trivial   func(c *Case, o *Outcome) bool
	Quick     int // half the number of cases of the quick tier
	Thorough  int
	Scenarios []*Scenario
	Assume    []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func (p *Property) scenario(name string) *Scenario {
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

type workerReport struct {
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"` // of the non-trivial cases
	Labels      map[string]int `json:"labels"`
	Samples     []*Case        `json:"samples"`
	Fail        *Case          `json:"fail,omitempty"`
	FailMsg     string         `json:"fail_msg,omitempty"`
	FirstFail   *Case          `json:"first_fail,omitempty"`
	FirstMsg    string         `json:"first_msg,omitempty"`
	RapidLog    string         `json:"rapid_log,omitempty"`
}

type fakeTB struct {
	name   string
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (f *fakeTB) Helper()                           {}
func (f *fakeTB) Name() string                      { return f.name }
func (f *fakeTB) Logf(format string, args ...any)   { fmt.Fprintf(&f.log, format+"\n", args...) }
func (f *fakeTB) Log(args ...any)                   { fmt.Fprintln(&f.log, args...) }
func (f *fakeTB) Skipf(format string, args ...any)  { f.Logf(format, args...); panic(tbStop{}) }
func (f *fakeTB) Skip(args ...any)                  { f.Log(args...); panic(tbStop{}) }
func (f *fakeTB) SkipNow()                          { panic(tbStop{}) }
func (f *fakeTB) Errorf(format string, args ...any) { f.Logf(format, args...); f.failed = true }
func (f *fakeTB) Error(args ...any)                 { f.Log(args...); f.failed = true }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Logf(format, args...); f.FailNow() }
func (f *fakeTB) Fatal(args ...any)                 { f.Log(args...); f.FailNow() }
func (f *fakeTB) FailNow()                          { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

func caseHash(c *Case) string {
	b, err := json.Marshal(c)
	if err != nil {
		infra("marshal: %v", err)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// evaluate runs a case. A panic of the oracle while it reads an output (a reader running off the end of a truncated
// file, say) is a failure of the case: no output of the unchanged tree does that. Anything else becomes Infra.
func evaluate(e *Env, s *Scenario, c *Case) (o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(Infra); ok {
				panic(i)
			}
			if re, ok := r.(runtime.Error); ok {
				o = &Outcome{Fail: fmt.Sprintf("what oct wrote could not be read: %v\n%s", re, clip(string(debug.Stack()), 1500))}
				return
			}
			b, _ := json.Marshal(c)
			panic(Infra{fmt.Errorf("the harness panicked: %v\n%s\ncase: %s", r, debug.Stack(), b)})
		}
	}()
	return s.Check(e, c)
}

func runWorker(e *Env, p *Property, s *Scenario, out string) {
	rep := &workerReport{Labels: map[string]int{}}
	seen := map[string]bool{}
	failing := false
	prop := func(t *rapid.T) {
		c := s.Gen(t)
		c.Prop, c.Scenario = p.ID, s.Name
		var o *Outcome
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "%v\n", r)
					os.Exit(3)
				}
			}()
			o = evaluate(e, s, c)
		}()
		if o.Fail != "" {
			if !failing {
				failing = true
				rep.FirstFail, rep.FirstMsg = c, o.Fail
			}
			rep.Fail, rep.FailMsg = c, o.Fail
			t.Fatalf("property violated")
		}
		if failing {
			return // shrinking
		}
		rep.Evaluations++
		for _, l := range o.Labels {
			rep.Labels[l]++
		}
		if p.Trivial == nil || !p.Trivial(c, o) {
			h := caseHash(c)
			if !seen[h] {
				seen[h] = true
				rep.Hashes = append(rep.Hashes, h)
				if n := len(rep.Hashes); n == 3 || n == 40 {
					rep.Samples = append(rep.Samples, c)
				}
			}
		}
	}
	tb := &fakeTB{name: p.ID}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); ok {
					return
				}
				panic(r)
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed {
		rep.RapidLog = clip(tb.log.String(), 3000)
	}
	if tb.failed && rep.Fail == nil {
		fmt.Fprintf(os.Stderr, "generator trouble: %s\n", rep.RapidLog)
		os.Exit(3)
	}
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- driver

func die(format string, a ...interface{}) {
	fmt.Printf("ERROR "+format+"\n", a...)
	os.Exit(3)
}

func loadCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, fmt.Errorf("%s: %w", path, err)
	}
	return &c, nil
}

// replay runs a saved case n times without rapid and returns the first failure.
func replay(e *Env, c *Case, n int) string {
	p := properties[c.Prop]
	if p == nil {
		die("case names unknown property %q", c.Prop)
	}
	s := p.scenario(c.Scenario)
	if s == nil {
		die("case names unknown scenario %q of %s", c.Scenario, c.Prop)
	}
	for i := 0; i < n; i++ {
		if o := evaluate(e, s, c); o.Fail != "" {
			return o.Fail
		}
	}
	return ""
}

type job struct {
	scn    *Scenario
	checks int
	seed   uint64
	rep    *workerReport
	err    error
}

func seedFor(parts ...string) uint64 {
	h := sha256.Sum256([]byte(strings.Join(parts, "|")))
	var v uint64
	for _, b := range h[:7] {
		v = v<<8 | uint64(b)
	}
	if v == 0 {
		v = 1
	}
	return v
}

type knownFinding struct{ prop, file, text string }

func readFindings(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		die("known findings: %v", err)
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := knownFinding{}
		var rest []string
		for _, w := range strings.Fields(strings.TrimPrefix(l, "finding:")) {
			switch {
			case k.prop == "" && strings.HasPrefix(w, "property="):
				k.prop = strings.TrimPrefix(w, "property=")
			case k.file == "" && strings.HasPrefix(w, "case="):
				k.file = strings.TrimPrefix(w, "case=")
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		r = append(r, k)
	}
	return r
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("ERROR %v\n", r)
			if _, ok := r.(Infra); !ok {
				debug.PrintStack()
			}
			os.Exit(3)
		}
	}()
	var (
		propID   = flag.String("property", "", "property id")
		scnName  = flag.String("scenario", "", "worker: scenario")
		outFile  = flag.String("out", "", "worker: report file")
		octBin   = flag.String("oct", "", "oct binary")
		helper   = flag.String("helper", "", "helper binary")
		root     = flag.String("scratch", "", "scratch directory")
		verif    = flag.String("verif", "/verif", "verification directory")
		replayF  = flag.String("replay", "", "replay a saved case and exit")
		worker   = flag.Bool("worker", false, "run as a worker")
		onlyScn  = flag.String("only", "", "driver: run just this scenario")
		count    = flag.Int("count", 0, "driver: override the number of cases")
		genOnly  = flag.Int("gen", 0, "print this many generated cases and exit")
		listFlag = flag.Bool("list", false, "list properties")
	)
	testing.Init()
	flag.Parse()
	e := &Env{Oct: *octBin, Helper: *helper, Root: *root}
	if *listFlag {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, properties[id].Title)
		}
		return
	}
	if *replayF != "" {
		limitMemory()
		c, err := loadCase(*replayF)
		if err != nil {
			die("%v", err)
		}
		if msg := replay(e, c, 8); msg != "" {
			fmt.Printf("REPLAY-FAIL %s\n%s\n", *replayF, printable(msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, *replayF)
			os.Exit(1)
		}
		fmt.Printf("REPLAY-OK %s\n", *replayF)
		return
	}
	p := properties[*propID]
	if p == nil {
		die("unknown property %q", *propID)
	}
	if *genOnly > 0 {
		s := p.Scenarios[0]
		if *onlyScn != "" {
			s = p.scenario(*onlyScn)
		}
		g := rapid.Custom(func(t *rapid.T) *Case { return s.Gen(t) })
		for i := 0; i < *genOnly; i++ {
			b, _ := json.MarshalIndent(g.Example(i+1), "", " ")
			fmt.Println(string(b))
		}
		return
	}
	if *worker {
		limitMemory()
		runWorker(e, p, p.scenario(*scnName), *outFile)
		return
	}
	limitMemory()
	drive(e, p, *verif, *onlyScn, *count)
}

func drive(e *Env, p *Property, verif, onlyScn string, count int) {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	nontrivial := map[string]bool{}
	labels := map[string]int{}
	perScn := map[string]int{}
	var samples []*Case
	evaluations := 0
	var violations []string // messages
	var vcases []*Case

	// 1. saved cases: inputs that once failed
	regress, _ := filepath.Glob(filepath.Join(verif, "regress", p.ID, "*.json"))
	sort.Strings(regress)
	replayed := 0
	for _, f := range regress {
		c, err := loadCase(f)
		if err != nil {
			die("%v", err)
		}
		replayed++
		evaluations++
		if msg := replay(e, c, 3); msg != "" {
			violations = append(violations, fmt.Sprintf("saved case %s: %s", filepath.Base(f), msg))
			vcases = append(vcases, c)
		}
	}

	// 2. known findings
	known := 0
	for _, k := range readFindings(filepath.Join(verif, "known_findings.txt")) {
		if k.prop != p.ID {
			continue
		}
		c, err := loadCase(filepath.Join(verif, k.file))
		if err != nil {
			die("%v", err)
		}
		if msg := replay(e, c, 20); msg != "" {
			known++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.text)
		} else {
			fmt.Printf("note: the recorded finding %s did not fail this time\n", k.file)
		}
	}

	// 3. generated cases
	total := 2 * p.Quick
	if tier == "thorough" {
		total = p.Thorough
		if total == 0 {
			total = 20 * p.Quick
		}
	}
	if count > 0 {
		total = count
	}
	const nWorkers = 8
	weight := 0
	for _, s := range p.Scenarios {
		if onlyScn == "" || s.Name == onlyScn {
			weight += s.Weight
		}
	}
	var jobs []*job
	for _, s := range p.Scenarios {
		if onlyScn != "" && s.Name != onlyScn {
			continue
		}
		n := total * s.Weight / weight
		if n < 8 {
			n = 8
		}
		parts := nWorkers
		if n < 160 {
			parts = (n + 19) / 20
		}
		for i := 0; i < parts; i++ {
			k := n / parts
			if i < n%parts {
				k++
			}
			if k == 0 {
				continue
			}
			jobs = append(jobs, &job{scn: s, checks: k, seed: seedFor(p.ID, s.Name, strconv.Itoa(seed), strconv.Itoa(i))})
		}
	}
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	if len(violations) == 0 {
		ch := make(chan *job)
		var wg sync.WaitGroup
		var stop atomic.Bool
		for w := 0; w < nWorkers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for j := range ch {
					if stop.Load() {
						continue // a violation is known: no need to look further
					}
					runJob(e, p, self, j)
					if j.rep != nil && j.rep.Fail != nil {
						stop.Store(true)
					}
				}
			}(w)
		}
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	for _, j := range jobs {
		if j.err != nil {
			die("worker %s/%s seed %d: %v", p.ID, j.scn.Name, j.seed, j.err)
		}
		if j.rep == nil {
			continue
		}
		r := j.rep
		evaluations += r.Evaluations
		perScn[j.scn.Name] += r.Evaluations
		for _, h := range r.Hashes {
			nontrivial[h] = true
		}
		for l, n := range r.Labels {
			labels[l] += n
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
		if r.Fail != nil {
			c, msg := r.Fail, r.FailMsg
			if m := replay(e, c, 10); m != "" {
				msg = m
			} else if m := replay(e, r.FirstFail, 20); m != "" {
				c, msg = r.FirstFail, m
			} else {
				msg += "\n(seen while searching; the plain replay of the case did not show it again, so the output varies between runs)"
			}
			violations = append(violations, fmt.Sprintf("scenario %s: %s", j.scn.Name, msg))
			vcases = append(vcases, c)
		}
	}

	if len(samples) > 6 {
		samples = samples[:6]
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(violations),
		"coverage": map[string]interface{}{
			"evaluations":         evaluations,
			"distinct_nontrivial": len(nontrivial),
			"rule":                p.Rule,
			"samples":             samples,
			"per_scenario":        perScn,
			"labels":              labels,
			"saved_cases":         replayed,
			"known_findings":      known,
		},
		"assumptions": append([]string{
			"the oct binary built from /repo's working tree behaves like the one users build",
			"generated schemas stay inside the domain DESIGN.md gives for the property",
		}, p.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	write(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'))

	if len(violations) > 0 {
		dir := filepath.Join(verif, "evidence", "replay")
		shown := map[string]bool{}
		for i, c := range vcases {
			if shown[c.Scenario] {
				continue
			}
			shown[c.Scenario] = true
			c.Note = clip(violations[i], 4000)
			b, _ := json.MarshalIndent(c, "", " ")
			f := filepath.Join(dir, fmt.Sprintf("%s-%s.json", p.ID, caseHash(c)))
			write(f, b)
			fmt.Printf("%s\n", printable(clip(violations[i], 3000)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d saved=%d known=%d wall=%.1fs\n",
		p.ID, tier, seed, evaluations, len(nontrivial), replayed, known, time.Since(start).Seconds())
}

func runJob(e *Env, p *Property, self string, j *job) {
	dir, err := os.MkdirTemp(e.Root, "worker")
	if err != nil {
		j.err = err
		return
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "report.json")
	shrink := "15s"
	if s := os.Getenv("VERIF_SHRINK"); s != "" { // for sweeps over many changes
		shrink = s
	}
	cmd := exec.Command(self, "-worker", "-property", p.ID, "-scenario", j.scn.Name, "-out", out,
		"-oct", e.Oct, "-helper", e.Helper, "-scratch", dir,
		"-rapid.seed", strconv.FormatUint(j.seed, 10), "-rapid.checks", strconv.Itoa(j.checks),
		"-rapid.nofailfile", "-rapid.shrinktime", shrink)
	cmd.Dir = dir
	var so strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &so
	if err := cmd.Run(); err != nil {
		j.err = fmt.Errorf("%v: %s", err, clip(so.String(), 3000))
		return
	}
	b, err := os.ReadFile(out)
	if err != nil {
		j.err = err
		return
	}
	var rep workerReport
	if err := json.Unmarshal(b, &rep); err != nil {
		j.err = err
		return
	}
	j.rep = &rep
}

// printable keeps damaged files from garbling the output.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || unicode.IsPrint(r) && r != unicode.ReplacementChar {
			return r
		}
		return '?'
	}, s)
}
