package main

import (
	"fmt"
	"strings"
	"time"
)

// Sequential histories: one client, the reference model as oracle.

type Step struct {
	Args []string
	Adv  int64 // clock advance in ms when Args is nil
}

func (s Step) String() string {
	if s.Args == nil {
		return fmt.Sprintf("(clock +%d ms)", s.Adv)
	}
	return showCmd(s.Args)
}

// Runner drives one server with one client and one model.
type Runner struct {
	c    *Ctx
	s    *Server
	cl   *Client
	m    *Model
	hist []Step
	log  []string
	pend [][]string
	seen map[string]bool // keys ever named, for the final comparison
}

func (c *Ctx) NewRunner(o ServerOpt) (*Runner, error) {
	if o.Bin == "" {
		b, err := c.Bin()
		if err != nil {
			return nil, err
		}
		o.Bin = b
	}
	s, err := c.StartServer(o)
	if err != nil {
		return nil, err
	}
	cl, err := s.Dial()
	if err != nil {
		return nil, err
	}
	return &Runner{c: c, s: s, cl: cl, m: NewModel(s.Now())}, nil
}

func (q *Runner) Close() {
	q.c.noteServer(q.s)
	q.cl.Close()
	q.s.Close()
}

// Do executes commands as one pipeline and checks each reply.
func (q *Runner) Do(cmds ...[]string) error {
	if len(cmds) == 0 {
		return nil
	}
	for _, a := range cmds {
		q.hist = append(q.hist, Step{Args: a})
	}
	rs, err := q.cl.Pipeline(cmds)
	for i, r := range rs {
		a := cmds[i]
		q.c.Eval(1)
		before := q.m.typeOfFirst(a)
		w := q.m.Apply(a, r)
		q.c.Case(strings.ToLower(a[0]) + before + showCmd(a[1:]) + "\x00" + r.String())
		if w != "" {
			return viol("%s\n  %s", showCmd(a), w)
		}
	}
	return err
}

func (m *Model) typeOfFirst(a []string) string {
	if len(a) < 2 {
		return "-"
	}
	return m.typeName(a[1])
}

// Advance moves the virtual clock, avoiding the grace second of any key.
func (q *Runner) Advance(ms int64) {
	t := q.m.Now + ms
	for q.m.Ambiguous(t) {
		for _, e := range q.m.M {
			if e.D != 0 && t >= e.D && t < e.D+1000 {
				t = e.D + 1000
			}
		}
	}
	q.hist = append(q.hist, Step{Adv: t - q.m.Now})
	q.s.SetNow(t)
	q.m.Now = t
}

// ClockStep picks an interesting time to go to.
func (q *Runner) ClockStep(g *Gen) {
	var ds []int64
	for _, k := range g.keys {
		if e := q.m.get(k); e != nil && e.D != 0 && e.D < q.m.Now+10_000_000 {
			ds = append(ds, e.D)
		}
	}
	if len(ds) > 0 && g.p(0.75) {
		d := ds[g.n(len(ds))]
		t := oneOf(g, d-1, d+1000, d-1, d+1000, d+1001, d-999, d+5000)
		if t > q.m.Now {
			q.Advance(t - q.m.Now)
			return
		}
	}
	q.Advance(oneOf(g, int64(1), 100, 599, 600, 999, 1000, 1001, 2500, 10_000, 61_000))
}

// CheckState compares the whole visible state with the model.
func (q *Runner) CheckState(keys []string, deep bool) error {
	return q.Do(stateReads(q.m, keys, deep)...)
}

// Reset deletes everything and starts a new recorded history.
func (q *Runner) Reset(keys []string) error {
	set := map[string]bool{}
	for _, k := range keys {
		set[k] = true
	}
	for k := range q.m.M {
		set[k] = true
	}
	if len(set) > 0 {
		a := []string{"DEL"}
		for k := range set {
			a = append(a, k)
		}
		if err := q.Do(a, []string{"KEYS", "*"}); err != nil {
			return err
		}
	}
	q.hist = nil
	return nil
}

// ---- replay and shrinking --------------------------------------------------

func (c *Ctx) replay(o ServerOpt, steps []Step) error {
	q, err := c.NewRunner(o)
	if err != nil {
		return err
	}
	defer q.Close()
	for _, st := range steps {
		if st.Args == nil {
			q.Advance(st.Adv)
			continue
		}
		if err := q.Do(st.Args); err != nil {
			return err
		}
	}
	return nil
}

func (c *Ctx) shrink(o ServerOpt, steps []Step, orig error) error {
	msg, _ := asViol(orig)
	deadline := time.Now().Add(40 * time.Second)
	fails := func(s []Step) (string, bool) {
		if time.Now().After(deadline) {
			return "", false
		}
		m, ok := asViol(c.replay(o, s))
		return m, ok
	}
	t0 := time.Now()
	m, ok := fails(steps)
	if !ok {
		return viol("%s\nfull history (does not fail when replayed alone on a fresh server):\n%s", msg, showSteps(steps))
	}
	msg = m
	if time.Since(t0) < 5*time.Second {
		for n := len(steps) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(steps); {
				try := append(append([]Step(nil), steps[:i]...), steps[i+n:]...)
				if m, ok := fails(try); ok {
					steps, msg = try, m
				} else {
					i += n
				}
			}
		}
	}
	return viol("%s\nhistory (segnum %d, one client, virtual clock starting at %d ms):\n%s", msg, o.SegNum, max(o.Start, baseMs*int64(1-min(o.Start, 1))), showSteps(steps))
}

func showSteps(s []Step) string {
	var sb strings.Builder
	from := 0
	if len(s) > 400 {
		from = len(s) - 400
		fmt.Fprintf(&sb, "  ... %d earlier steps left out\n", from)
	}
	for i := from; i < len(s); i++ {
		fmt.Fprintf(&sb, "  %s\n", s[i])
	}
	return sb.String()
}

// ---- random histories ------------------------------------------------------

type SeqSpec struct {
	Profiles [][]wcmd // one is chosen per history
	Hist     int
	Steps    int
	Clock    float64 // probability of a clock step between batches
	Segs     []int
	Keys     [2]int
	Elems    [2]int
	Aim      float64
	Deep     bool
	Big      int
	Chunk    int // histories per server
	// Next overrides command generation.
	Next func(g *Gen) []string
	// Each is called after each batch (for extra assertions).
	Each func(q *Runner, g *Gen) error
}

func (c *Ctx) RunSeq(sp SeqSpec) error {
	if sp.Segs == nil {
		sp.Segs = []int{1, 2, 7, 100}
	}
	if sp.Keys[1] == 0 {
		sp.Keys = [2]int{2, 6}
	}
	if sp.Elems[1] == 0 {
		sp.Elems = [2]int{2, 8}
	}
	if sp.Aim == 0 {
		sp.Aim = 0.85
	}
	if sp.Chunk == 0 {
		sp.Chunk = 50
	}
	chunks := (sp.Hist + sp.Chunk - 1) / sp.Chunk
	return c.Par(chunks, 8, func(ci int) error {
		o := ServerOpt{SegNum: sp.Segs[ci%len(sp.Segs)], Start: startOf(ci)}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		for h := ci * sp.Chunk; h < (ci+1)*sp.Chunk && h < sp.Hist; h++ {
			if err := c.oneHistory(q, sp, h); err != nil {
				if _, v := asViol(err); v {
					o.Bin = q.s.opt.Bin
					return c.shrink(o, q.hist, err)
				}
				return err
			}
		}
		return nil
	})
}

func (c *Ctx) oneHistory(q *Runner, sp SeqSpec, h int) error {
	r := c.Rand(1, uint64(h))
	g := NewGen(r, q.m, sp.Keys[0]+r.IntN(sp.Keys[1]-sp.Keys[0]+1), sp.Elems[0]+r.IntN(sp.Elems[1]-sp.Elems[0]+1))
	g.Aim = sp.Aim
	g.Big = sp.Big
	steps := sp.Steps
	// every profile gets its share
	block := h / max(1, len(sp.Profiles)) % 40
	if block == 7 {
		g.Grow()
		steps = steps/3 + 1
		c.Count("histories_at_scale", 1)
	}
	var prof []wcmd
	if len(sp.Profiles) > 0 {
		prof = sp.Profiles[h%len(sp.Profiles)]
	}
	maxBatch := oneOf(g, 1, 1, 4, 16)
	if block == 27 {
		g.Widen()
		steps = steps/3 + 1
		c.Count("histories_with_many_keys", 1)
		if err := q.Do(g.wideSetup(prof)...); err != nil {
			return err
		}
	}
	for done := 0; done < steps; {
		n := 1 + g.n(maxBatch)
		var batch [][]string
		for i := 0; i < n; i++ {
			if sp.Next != nil {
				batch = append(batch, sp.Next(g))
			} else {
				batch = append(batch, g.Cmd(pickW(g, prof)))
			}
		}
		done += n
		if err := q.Do(batch...); err != nil {
			return err
		}
		if sp.Each != nil {
			if err := sp.Each(q, g); err != nil {
				return err
			}
		}
		if sp.Clock > 0 && g.p(sp.Clock) {
			q.ClockStep(g)
		}
	}
	if err := q.CheckState(g.keys, sp.Deep); err != nil {
		return err
	}
	if h%97 == 0 {
		c.Sample(map[string]any{"segnum": q.s.opt.SegNum, "steps": sampleSteps(q.hist, 25)})
	}
	c.Count("histories", 1)
	return q.Reset(g.keys)
}

func sampleSteps(h []Step, n int) []string {
	var out []string
	for i := 0; i < len(h) && i < n; i++ {
		out = append(out, strings.ToValidUTF8(h[i].String(), "."))
	}
	return out
}
