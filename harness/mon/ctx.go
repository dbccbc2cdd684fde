// Package mon is the runtime-monitoring kernel: it runs workload cases against
// the real code, counts what the monitors observed, records violations with
// their witnesses, and watches for panics, non-termination and deadlock.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Violation is a witnessed violation (or known finding candidate).
type Violation struct {
	Key    string `json:"key"`    // stable identification of what failed
	What   string `json:"what"`   // one line
	Detail string `json:"detail"` // witness: input, expected, observed
	Case   string `json:"case"`   // sub-workload and case index
}

// Result is what the run reports to the driver.
type Result struct {
	Property   string           `json:"property"`
	Done       bool             `json:"done"`
	Evals      int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct_nontrivial"`
	Trivial    int64            `json:"trivial"`
	Rule       string           `json:"rule"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	NumViol    int64            `json:"num_violations"`
	Inconc     []string         `json:"inconclusive"`
	Exhaustive []string         `json:"exhaustive"`
	Seconds    float64          `json:"seconds"`
}

// Ctx is the context of one check run.
type Ctx struct {
	T     *testing.T
	ID    string
	Seed  uint64
	Tier  string
	Race  bool // race-instrumented build
	Out   string
	Round int // repetition, for checks which run in several fresh processes
	// Budget limits the time spent, being when the remaining cases are left.
	Budget  time.Duration
	stopped bool
	start   time.Time

	mu      sync.Mutex
	res     Result
	hashes  map[uint64]struct{}
	samples map[string]int
	keys    map[string]int

	sub      atomic.Pointer[string]
	idx      atomic.Int64
	beat     atomic.Int64
	desc     atomic.Pointer[func() string]
	finished atomic.Bool
	evals    atomic.Int64
}

// New creates a Ctx.
func New(t *testing.T, id string, seed uint64, tier string, race bool, out string) *Ctx {
	c := &Ctx{T: t, ID: id, Seed: seed, Tier: tier, Race: race, Out: out, start: time.Now()}
	c.res.Property = id
	c.res.Counters = map[string]int64{}
	c.hashes = map[uint64]struct{}{}
	c.samples = map[string]int{}
	c.keys = map[string]int{}
	s := "init"
	c.sub.Store(&s)
	go c.watchdog()
	return c
}

// Thorough is true in the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases: quick, multiplied in the thorough tier, and
// divided for race instrumented builds.
func (c *Ctx) N(quick int) int {
	n := quick * 3
	if c.Thorough() {
		n = quick * 25
	}
	if c.Race {
		n /= 8
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Rng returns a PRNG determined by the run seed, the sub-workload and index.
func (c *Ctx) Rng(sub string, i int) *Rng {
	h := fnv.New64a()
	h.Write([]byte(sub))
	return &Rng{rand.New(rand.NewPCG(c.Seed^h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+h.Sum64()))}
}

// Rng adds helpers to rand.Rand.
type Rng struct{ *rand.Rand }

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// Bool returns true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.IntN(den) < num }

// Range returns an int in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

// Rule describes the workload for the evidence.
func (c *Ctx) Rule(s string) { c.res.Rule = s }

// Run runs n cases of the sub-workload sub. Panics of the code under test are
// violations.
func (c *Ctx) Run(sub string, n int, f func(k *Case)) {
	c.sub.Store(&sub)
	before := c.viols()
	for i := 0; i < n; i++ {
		c.idx.Store(int64(i))
		c.beat.Add(1)
		k := &Case{C: c, Sub: sub, I: i}
		c.one(k, f)
		if c.viols()-before > 500 {
			n = i + 1 // enough of these, but the rest of the check goes on
		}
		if c.Budget > 0 && time.Since(c.start) > c.Budget {
			c.Count("stopped_by_budget."+sub, int64(n-i-1))
			c.stopped = true
			n = i + 1
		}
	}
	c.desc.Store(nil)
	c.beat.Add(1)
	c.mu.Lock()
	c.res.Counters["cases."+sub] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) viols() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.res.NumViol
}

func (c *Ctx) one(k *Case, f func(k *Case)) {
	d := k.describe
	c.desc.Store(&d)
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(string); ok && strings.HasPrefix(x, "harness:") {
				panic(r)
			}
			st := string(debug.Stack())
			key, what := "panic:"+k.Sub, fmt.Sprintf("panic in the code under test: %v", r)
			if !strings.Contains(st, "github.com/warthog618/sms") {
				// the oracle indexed or converted a result which no correct
				// execution has the shape of.
				key, what = "malformed:"+k.Sub, fmt.Sprintf("result is malformed beyond what the oracle can read: %v", r)
			}
			c.Viol(key, what, k.describe()+"\n"+st, k.id())
		}
	}()
	f(k)
}

// Case is one workload case.
type Case struct {
	C    *Ctx
	Sub  string
	I    int
	rng  *Rng
	info []any
	mu   sync.Mutex
}

func (k *Case) id() string { return fmt.Sprintf("%s#%d", k.Sub, k.I) }

// R is the case's PRNG.
func (k *Case) R() *Rng {
	if k.rng == nil {
		k.rng = k.C.Rng(k.Sub, k.I)
	}
	return k.rng
}

// Reset forgets the recorded input, for cases which make several.
func (k *Case) Reset() {
	k.mu.Lock()
	k.info = nil
	k.mu.Unlock()
}

// Input records the case's input for replay; alternate names and values.
func (k *Case) Input(kv ...any) {
	k.mu.Lock()
	k.info = append(k.info, kv...)
	k.mu.Unlock()
}

// Describe returns the witness text.
func (k *Case) Describe() string { return k.describe() }

func (k *Case) describe() string {
	k.mu.Lock()
	defer k.mu.Unlock()
	var sb strings.Builder
	fmt.Fprintf(&sb, "workload %s case %d seed %d", k.Sub, k.I, k.C.Seed)
	for i := 0; i+1 < len(k.info); i += 2 {
		v := k.info[i+1]
		var s string
		switch x := v.(type) {
		case []byte:
			s = fmt.Sprintf("hex %x", x)
		case string:
			s = fmt.Sprintf("%q", x)
		default:
			s = fmt.Sprintf("%+v", v)
		}
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		fmt.Fprintf(&sb, "\n  %v: %s", k.info[i], s)
	}
	return sb.String()
}

// Fail records a violation witnessed by this case.
func (k *Case) Fail(key, format string, args ...any) {
	k.C.Viol(key, fmt.Sprintf(format, args...), k.describe(), k.id())
}

// Seen records an observed evaluation. The parts identify the behaviour class
// or the input, for counting distinct observations.
func (k *Case) Seen(parts ...any) {
	k.C.Eval(parts...)
	k.C.mu.Lock()
	n := k.C.samples[k.Sub]
	if n < 2 && len(k.C.res.Samples) < 24 {
		k.C.samples[k.Sub]++
		k.C.mu.Unlock()
		d := k.describe()
		if len(d) > 700 {
			d = d[:700] + "..."
		}
		k.C.mu.Lock()
		k.C.res.Samples = append(k.C.res.Samples, d)
	}
	k.C.mu.Unlock()
}

// Eval counts an evaluation of an oracle; parts identify it.
func (c *Ctx) Eval(parts ...any) {
	c.evals.Add(1)
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff, 0})
	}
	s := h.Sum64()
	c.mu.Lock()
	if len(c.hashes) < 4000000 {
		c.hashes[s] = struct{}{}
	}
	c.mu.Unlock()
}

// Trivial counts an evaluation which was trivial.
func (c *Ctx) Trivial() {
	c.mu.Lock()
	c.res.Trivial++
	c.mu.Unlock()
}

// Count adds to a named measured counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.res.Counters[name] += n
	c.mu.Unlock()
}

// Max records the largest value of a measure.
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	c.res.Counters["max_"+name] = max(c.res.Counters["max_"+name], n)
	c.mu.Unlock()
}

// Exhaustive notes a finite space that has been completely enumerated.
func (c *Ctx) Exhaustive(what string) {
	if c.stopped {
		return
	}
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, what)
	c.mu.Unlock()
}

// Viol records a violation.
func (c *Ctx) Viol(key, what, detail, cs string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.NumViol++
	c.keys[key]++
	if c.keys[key] > 3 || len(c.res.Violations) >= 40 {
		return
	}
	c.res.Violations = append(c.res.Violations, Violation{key, what, detail, cs})
}

// Inconclusive records that part of the run could not be decided.
func (c *Ctx) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	c.res.Inconc = append(c.res.Inconc, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// Beat marks progress, for the watchdog.
func (c *Ctx) Beat() { c.beat.Add(1) }

// Write writes the result file.
func (c *Ctx) Write(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = done
	c.res.Evals = c.evals.Load()
	c.res.Distinct = int64(len(c.hashes))
	c.res.Seconds = time.Since(c.start).Seconds()
	sort.Strings(c.res.Exhaustive)
	b, err := json.MarshalIndent(&c.res, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.Out, b, 0o644); err != nil {
		panic(err)
	}
	h := make([]byte, 0, 8*len(c.hashes))
	for x := range c.hashes {
		h = binary.LittleEndian.AppendUint64(h, x)
	}
	if err := os.WriteFile(c.Out+".hashes", h, 0o644); err != nil {
		panic(err)
	}
}

// Finish completes the run.
func (c *Ctx) Finish() {
	c.finished.Store(true)
	c.Write(true)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	caseCPU   = 40 * time.Second // cpu time spent in a single case (normally microseconds)
	stallWall = 12 * time.Second
	memLimit  = 6 << 30
)

// watchdog detects non-termination (a single case burning CPU time or memory
// far beyond anything legitimate) and deadlock (no progress, and every
// goroutine blocked, with a goroutine blocked on a lock inside the code under
// test).
func (c *Ctx) watchdog() {
	var last int64 = -1
	var cpu0 time.Duration
	var wall0 time.Time
	var stuckDump int
	for {
		time.Sleep(200 * time.Millisecond)
		if c.finished.Load() {
			return
		}
		b := c.beat.Load()
		now := cpuTime()
		if b != last {
			last, cpu0, wall0, stuckDump = b, now, time.Now(), 0
			continue
		}
		where := fmt.Sprintf("%s#%d", *c.sub.Load(), c.idx.Load())
		d := "(no case)"
		if f := c.desc.Load(); f != nil {
			d = (*f)()
		}
		limit := caseCPU
		if c.Race {
			limit *= 4
		}
		if now-cpu0 > limit {
			st := stacks()
			if strings.Contains(st, "github.com/warthog618/sms") {
				c.Viol("hang:"+*c.sub.Load(), "does not terminate: a single case consumed excessive CPU time", d+"\n"+st, where)
				c.Write(true)
				os.Exit(3)
			}
			c.Inconclusive("case %s consumed %v of CPU outside the code under test", where, now-cpu0)
			c.Write(true)
			os.Exit(4)
		}
		var ms runtime.MemStats
		if time.Since(wall0) > time.Second {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				c.Viol("memory:"+*c.sub.Load(), fmt.Sprintf("unbounded memory growth: heap of %d bytes in a single case", ms.HeapAlloc), d+"\n"+stacks(), where)
				c.Write(true)
				os.Exit(3)
			}
		}
		if time.Since(wall0) > stallWall && now-cpu0 < stallWall/3 {
			st := stacks()
			if deadlocked(st) {
				stuckDump++
				if stuckDump >= 15 { // 3s of unchanged all-blocked state
					c.Viol("deadlock:"+*c.sub.Load(), "deadlock: all goroutines blocked, with one blocked on a lock taken by the code under test", d+"\n"+st, where)
					c.Write(true)
					os.Exit(3)
				}
			} else {
				stuckDump = 0
			}
		}
	}
}

func stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// deadlocked is true if no goroutine other than the watchdog can run and at
// least one is blocked on a lock with frames of the code under test.
func deadlocked(st string) bool {
	lockedInSms := false
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "mon.(*Ctx).watchdog") {
			continue
		}
		nl := strings.IndexByte(g, '\n')
		if nl < 0 {
			continue
		}
		head := g[:nl]
		if strings.Contains(head, "synctest bubble") && strings.Contains(head, "[sleep") {
			continue // virtual time only advances once nothing in the bubble is on a lock
		}
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") || strings.Contains(head, "[syscall") || strings.Contains(head, "[sleep") || strings.Contains(head, "[IO wait") {
			return false
		}
		if (strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "semacquire") || strings.Contains(head, "chan ") || strings.Contains(head, "sync.WaitGroup")) &&
			strings.Contains(g, "github.com/warthog618/sms") {
			lockedInSms = true
		}
	}
	return lockedInSms
}
