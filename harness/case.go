package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
	"pgregory.net/rapid"
)

// A Check decides one property: cases are drawn by rapid, judged by f, and counted.
type Check struct {
	prop string
	rule string
	f    func(g *G, c *Case)

	evaluations int
	nontrivial  map[uint64]bool
	samples     []string
	stats       map[string]int
	last        string
	started     int64 // of the current case, in nanoseconds
	executing   int32 // calls of the current case are known and executed
	journal     *os.File
}

// Case is one generated case.
type Case struct {
	ck         *Check
	g          *G
	src        string
	text       string
	want       string
	nontrivial bool
}

type failure struct {
	Property string `json:"property"`
	Message  string `json:"message"`
	Calls    string `json:"calls"`
	Text     string `json:"text,omitempty"`
	Want     string `json:"expected_tree,omitempty"`
}

func out(name string) string {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		dir = os.TempDir()
	}
	return dir + "/" + name
}

// calls tells what the case consists of, before anything of it is executed.
func (c *Case) calls(src string) {
	c.src = src
	atomic.StoreInt32(&c.ck.executing, 1)
	if j := c.ck.journal; j != nil {
		_ = j.Truncate(0)
		_, _ = j.WriteAt([]byte(src), 0)
	}
}

// fail reports that the property does not hold for the case.
func (c *Case) fail(format string, a ...interface{}) {
	panic(failed{fmt.Sprintf(format, a...)})
}

type failed struct{ msg string }

func (ck *Check) run(t *testing.T) {
	debug.SetMaxStack(256 << 20) // no case needs more than some kilobytes
	ck.nontrivial = map[uint64]bool{}
	ck.stats = map[string]int{}
	if os.Getenv("VERIF_OUT") != "" {
		ck.journal, _ = os.Create(out("journal.txt"))
		b, _ := json.Marshal(dict)
		_ = os.WriteFile(out("dict.json"), b, 0o644)
	}
	stop := make(chan bool)
	defer close(stop)
	go ck.watch(stop)
	rapid.Check(t, ck.one)
	if !t.Failed() {
		ck.report()
	}
}

// fuzz lets the coverage of the code under test lead the search. The bytes are what rapid draws from; behind their end
// the numbers of a generator follow.
func (ck *Check) fuzz(f *testing.F) {
	debug.SetMaxStack(256 << 20)
	ck.nontrivial = map[uint64]bool{}
	ck.stats = map[string]int{}
	if os.Getenv("VERIF_OUT") != "" {
		b, _ := json.Marshal(dict)
		_ = os.WriteFile(out("dict.json"), b, 0o644)
	}
	r := rand.New(rand.NewSource(int64(seedOf("VERIF_FUZZ_SEED"))))
	for i := 0; i < 100; i++ {
		b := make([]byte, 64+r.Intn(4000))
		_, _ = r.Read(b)
		f.Add(b)
	}
	one := rapid.MakeFuzz(ck.one)
	stop := make(chan bool)
	f.Cleanup(func() { close(stop) })
	go ck.watch(stop)
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 1<<16 {
			t.Skip()
		}
		var h uint64 = 1
		if len(b) >= 8 {
			h += binary.LittleEndian.Uint64(b)
		}
		full := make([]byte, len(b), 1<<17)
		copy(full, b)
		for len(full)+8 <= cap(full) {
			h += 0x9e3779b97f4a7c15
			z := (h ^ h>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			full = binary.LittleEndian.AppendUint64(full, z^z>>31)
		}
		defer func() {
			if t.Failed() {
				_ = os.WriteFile(out("input.txt"), []byte(fmt.Sprintf("go test fuzz v1\n[]byte(%q)\n", b)), 0o644)
			}
		}()
		one(t, full)
	})
}

func seedOf(name string) int {
	k, _ := strconv.Atoi(os.Getenv(name))
	return k
}

// one draws a case and judges it.
func (ck *Check) one(rt *rapid.T) {
	g := newG(rt)
	c := &Case{ck: ck, g: g}
	atomic.StoreInt32(&ck.executing, 0)
	atomic.StoreInt64(&ck.started, time.Now().UnixNano())
	msg := c.judge()
	atomic.StoreInt64(&ck.started, 0)
	ck.evaluations++
	for k, v := range g.stats {
		ck.stats[k] += v
	}
	if msg != "" {
		b, _ := json.MarshalIndent(failure{ck.prop, msg, c.src, c.text, c.want}, "", " ")
		_ = os.WriteFile(out("failure.json"), b, 0o644)
		rt.Fatalf("%s\n calls: %s\n text: %s", msg, c.src, c.text)
	}
	if c.nontrivial {
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.src))
		k := h.Sum64()
		if !ck.nontrivial[k] {
			ck.nontrivial[k] = true
			if s := len(ck.nontrivial); s&(s-1) == 0 && len(c.src) < 3000 {
				ck.samples = append(ck.samples, c.src+"  ==>  "+c.text)
			}
		}
	}
}

// judge runs the check on the case and gives what is wrong.
func (c *Case) judge() (msg string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case failed:
			msg = e.msg
		case buildErr:
			msg = "a statement of valid parts is refused: " + e.err.Error()
		case perr:
			msg = e.msg
		case runtime.Error:
			msg = "panic: " + e.Error() + "\n" + stack()
		default:
			if s := fmt.Sprintf("%T", e); strings.HasPrefix(s, "rapid.") || strings.HasPrefix(s, "*rapid.") {
				panic(e)
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, stack())
		}
	}()
	c.ck.f(c.g, c)
	return ""
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

const hang = 100 * time.Second
const memory = 3 << 30 // no case needs more than some megabytes

// watch ends the process if a case does not end.
func (ck *Check) watch(stop chan bool) {
	used := [1]metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-stop:
			return
		case <-time.After(50 * time.Millisecond):
		}
		metrics.Read(used[:])
		if used[0].Value.Uint64() > memory {
			fmt.Println("MEMORY: more than", memory, "bytes in use")
			os.Exit(ck.blame())
		}
		if s := atomic.LoadInt64(&ck.started); s != 0 && time.Since(time.Unix(0, s)) > hang {
			fmt.Println("HANG")
			os.Exit(ck.blame())
		}
	}
}

// blame is 3 while the library is called, and 4 while a case is drawn.
func (ck *Check) blame() int { return 4 - int(atomic.LoadInt32(&ck.executing)) }

type report struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Stats       map[string]int `json:"stats"`
}

func (ck *Check) report() {
	r := report{Evaluations: ck.evaluations, Rule: ck.rule, Samples: ck.samples, Stats: ck.stats}
	for h := range ck.nontrivial {
		r.Nontrivial = append(r.Nontrivial, h)
	}
	sort.Slice(r.Nontrivial, func(i, j int) bool { return r.Nontrivial[i] < r.Nontrivial[j] })
	b, _ := json.Marshal(r)
	_ = os.WriteFile(out("report.json"), b, 0o644)
}

// ---- judging statements

// render builds and renders a statement, any error is a failure.
func (c *Case) render(e *Env, st *St) string {
	s := e.must(st)
	if s == nil {
		c.fail("building gives no statement and no error")
	}
	text, err := cy.NewRenderer().Render(s)
	if err != nil {
		c.fail("a statement of valid parts is refused: %v", err)
	}
	return text
}

// read parses a text.
func (c *Case) read(text string) *N {
	c.text = text
	got, err := Parse(text)
	if err != nil {
		c.fail("the text is no query: %v", err)
	}
	return got
}

// agree checks that a text denotes the tree of the statement, and gives the tree.
func (c *Case) agree(st *St, text string) *N {
	want := st.cn(newSc())
	c.want = want.String()
	c.text = text
	got := c.read(text)
	if d := same(want, got); d != "" {
		c.fail("the text means something else\n%s", d)
	}
	if d := bind(want, got); d != "" {
		c.fail("%s", d)
	}
	return got
}

// faithful builds and renders the statement and checks what the text denotes.
func (c *Case) faithful(st *St) *N {
	c.calls(st.src)
	return c.agree(st, c.render(newEnv(), st))
}
