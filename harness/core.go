package main

// The exploration framework: properties consist of spaces, spaces enumerate
// items in a deterministic order, items are sharded over worker processes.
// A worker's current item is visible to the supervisor through an mmapped
// file, so that crashes and hangs are attributed to the item that caused them.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/zyedidia/gpeg/pattern"
)

// A Space is one finite set of behaviours that is enumerated completely.
type Space struct {
	Name string
	// Desc says what is enumerated, with the bounds.
	Desc string
	Run  func(c *Ctx)
}

// A Property is decided by exploring its spaces.
type Property struct {
	ID      string
	Title   string
	Assume  []string
	Spaces  func(thorough bool) []Space
	Trusted string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// extras are further spaces of properties.
var extras = map[string][]func(th bool) []Space{}

func extend(id string, f func(th bool) []Space) { extras[id] = append(extras[id], f) }

func (p *Property) spaces(th bool) []Space {
	s := p.Spaces(th)
	for _, f := range extras[p.ID] {
		s = append(s, f(th)...)
	}
	return s
}

type spaceStats struct {
	Name       string  `json:"name"`
	Desc       string  `json:"desc,omitempty"`
	Items      int64   `json:"items"`
	States     int64   `json:"states"`
	Trans      int64   `json:"transitions"`
	Traces     int64   `json:"traces"`
	Skipped    int64   `json:"skipped"`
	Incomplete bool    `json:"incomplete,omitempty"`
	CPU        float64 `json:"worker_seconds"`
}

type event struct {
	Type     string              `json:"type"` // violation, known, stats
	Space    string              `json:"space,omitempty"`
	SpaceIdx int                 `json:"space_idx"`
	Item     int64               `json:"item"`
	Key      string              `json:"key,omitempty"`
	Detail   string              `json:"detail,omitempty"`
	Kind     string              `json:"kind,omitempty"`
	Stats    []spaceStats        `json:"stats,omitempty"`
	Outcomes []uint64            `json:"outcomes,omitempty"`
	Samples  []string            `json:"samples,omitempty"`
	Notes    map[string]int64    `json:"notes,omitempty"`
	Done     bool                `json:"done,omitempty"`
	Recycle  bool                `json:"recycle,omitempty"`
	Extra    map[string][]string `json:"extra,omitempty"`
}

type progress struct {
	space int64
	item  int64
	seq   int64
}

// Ctx is handed to a space's Run function.
type Ctx struct {
	Thorough bool
	worker   int64
	workers  int64
	resumeSp int
	resumeIt int64
	only     bool
	onlySp   int
	onlyIt   int64
	deadline time.Time

	spaceIdx int
	idx      int64
	stopped  bool // stop everything
	recycle  bool
	cur      *spaceStats
	prog     *progress
	known    map[string]string
	nviol    int
	outcomes map[uint64]struct{}
	outTick  int
	samples  []string
	sampleIn map[string]int
	notes    map[string]int64
	property string
	itemViol bool
	verbose  bool
	heavy    bool // items of this space use up many memo ids

	// number of items run, when to look at the memo ids again, and what they
	// were when we looked last
	ran, nextCheck, lastRan, lastIds int
}

func (c *Ctx) emit(e event) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

type stopItem struct{}

// Item runs fn as the next item of the space if it belongs to this worker's
// shard. It returns false if the space should stop enumerating.
func (c *Ctx) Item(fn func()) bool {
	if c.stopped {
		return false
	}
	i := c.idx
	c.idx++
	if c.only {
		if i < c.onlyIt {
			return true
		}
		if i > c.onlyIt {
			return false
		}
	} else {
		if i%c.workers != c.worker {
			return true
		}
		if c.spaceIdx == c.resumeSp && i < c.resumeIt {
			return true
		}
		if c.nviol >= 3 {
			c.stopped = true
			c.cur.Incomplete = true
			return false
		}
		if c.cur.Items&15 == 0 && time.Now().After(c.deadline) {
			c.cur.Incomplete = true
			c.stopped = true
			return false
		}
		c.ran++
		if c.heavy || c.ran >= c.nextCheck {
			// look again before a quarter of the ids that are left are used
			// up, at the rate seen so far
			n := memoCounter()
			rate := (n-c.lastIds)/(c.ran-c.lastRan) + 1
			c.lastIds, c.lastRan = n, c.ran
			c.nextCheck = c.ran + max(1, min(64, (32000-n)/(4*rate)))
			if n > 24000 {
				c.recycle = true
				c.stopped = true
				c.resumeIt = i
				c.resumeSp = c.spaceIdx
				return false
			}
		}
	}
	atomic.StoreInt64(&c.prog.space, int64(c.spaceIdx))
	atomic.StoreInt64(&c.prog.item, i)
	atomic.AddInt64(&c.prog.seq, 1)
	c.cur.Items++
	c.itemViol = false
	c.runItem(fn)
	return !c.stopped
}

func (c *Ctx) runItem(fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopItem); ok {
				return
			}
			st := string(debug.Stack())
			c.Violate("", "panic: %v\n%s", r, trimStack(st))
		}
	}()
	fn()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "harness/") {
			if i > 0 {
				out = append(out, lines[i-1])
			}
			out = append(out, l)
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Guard runs fn and reports a panic as a violation described by desc, without
// abandoning the item.
func (c *Ctx) Guard(desc func() string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isStop := r.(stopItem); isStop {
				panic(r)
			}
			c.Violate("", "%s\npanic: %v\n%s", desc(), r, trimStack(string(debug.Stack())))
			ok = false
		}
	}()
	fn()
	return true
}

// Violate reports that the property does not hold in the current item. key
// identifies the specific failure for the known-findings file ("" if none).
func (c *Ctx) Violate(key string, format string, args ...interface{}) {
	detail := fmt.Sprintf(format, args...)
	if len(detail) > 6000 {
		detail = detail[:6000] + "..."
	}
	if key != "" {
		if _, ok := c.known[key]; ok {
			c.notes["known:"+key]++
			if c.notes["known:"+key] == 1 {
				c.emit(event{Type: "known", Space: c.cur.Name, SpaceIdx: c.spaceIdx, Item: c.idx - 1, Key: key, Detail: detail})
			}
			return
		}
	}
	if c.itemViol {
		return // one report per item
	}
	c.itemViol = true
	c.nviol++
	c.emit(event{Type: "violation", Space: c.cur.Name, SpaceIdx: c.spaceIdx, Item: c.idx - 1, Key: key, Detail: detail, Kind: "mismatch"})
}

// Tick tells the supervisor that a long item makes progress. It returns false
// if the time for the whole check is over.
func (c *Ctx) Tick() bool {
	atomic.AddInt64(&c.prog.seq, 1)
	if c.prog.seq&255 == 0 && !c.only && time.Now().After(c.deadline) {
		c.cur.Incomplete = true
		c.stopped = true
	}
	return !c.stopped
}

func (c *Ctx) States(n int)  { c.cur.States += int64(n) }
func (c *Ctx) Trans(n int)   { c.cur.Trans += int64(n) }
func (c *Ctx) Traces(n int)  { c.cur.Traces += int64(n) }
func (c *Ctx) Skip(n int)    { c.cur.Skipped += int64(n) }
func (c *Ctx) Note(k string) { c.notes[k]++ }

// Outcome records an observed outcome; the number of distinct ones is reported.
func (c *Ctx) Outcome(s string) {
	if len(c.outcomes) > 20000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = struct{}{}
}

// Outcomes is Outcome for every 16th call only.
func (c *Ctx) Outcomes(f func() string) {
	c.outTick++
	if c.outTick&15 == 1 {
		c.Outcome(f())
	}
}

// Sample records a written-out case (a few per space are kept).
func (c *Ctx) Sample(f func() string) {
	if c.sampleIn[c.cur.Name] >= 2 {
		return
	}
	// not the very first items, which tend to be degenerate
	if c.cur.Items < 5 {
		return
	}
	c.sampleIn[c.cur.Name]++
	s := f()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.samples = append(c.samples, c.cur.Name+": "+s)
}

// memoCounter reads the process-wide memo id counter (this consumes one id).
func memoCounter() int {
	return pattern.Memo(&pattern.EmptyNode{}).(*pattern.MemoNode).Id
}

func (c *Ctx) runAll(spaces []Space) event {
	stats := make([]spaceStats, len(spaces))
	for i := range spaces {
		stats[i].Name = spaces[i].Name
	}
	for i, s := range spaces {
		if i < c.resumeSp || (c.only && i != c.onlySp) {
			continue
		}
		if c.stopped {
			if !c.recycle {
				stats[i].Incomplete = true
			}
			continue
		}
		c.spaceIdx = i
		c.idx = 0
		c.cur = &stats[i]
		c.heavy = false
		t0 := time.Now()
		s.Run(c)
		c.cur.CPU += time.Since(t0).Seconds()
	}
	ev := event{Type: "stats", Stats: stats, Samples: c.samples, Notes: c.notes, Done: true, Recycle: c.recycle}
	if c.recycle {
		ev.SpaceIdx = c.resumeSp
		ev.Item = c.resumeIt
	}
	for h := range c.outcomes {
		ev.Outcomes = append(ev.Outcomes, h)
	}
	sort.Slice(ev.Outcomes, func(i, j int) bool { return ev.Outcomes[i] < ev.Outcomes[j] })
	return ev
}

func mapProgress(file string) *progress {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return (*progress)(unsafe.Pointer(&b[0]))
}
