package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
)

// ConcCase is a schedule of two operations; see cmd/conc.
type ConcCase struct {
	A, B   int
	SwA    []int
	SwB    []int
	Warm   bool
	Times  int
	Race   bool
	Where  string
	Msg    string
	Expect [2]string
	Texts  *[2][5][2]string
}

type concReport struct {
	A, B      int
	Schedules int
	Steps     int64
	Points    [2]int
	Preempt   int
	Two       int
	Steals    int
	Bad       *ConcCase
}

func concBin(race bool) string {
	b := filepath.Join(os.Getenv("VERIF_WORK"), "bin.conc")
	if race {
		b += ".race"
	}
	return b
}

type concSeq struct {
	Names   []string
	Results []string
	Texts   *[2][5][2]string
}

func concResults() (concSeq, error) {
	var s concSeq
	out, err := exec.Command(concBin(false), "seq").Output()
	if err != nil {
		return s, errf("the sequential run failed: %v", err)
	}
	return s, json.Unmarshal(out, &s)
}

// confirm re-executes a schedule in fresh processes; it says how it fails, or "" when it does not.
func confirm(c ConcCase) string {
	for _, warm := range []bool{c.Warm, false, true} {
		d := c
		d.Warm = warm
		js, _ := json.Marshal(d)
		cmd := exec.Command(concBin(c.Race), "one", string(js))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
		var e bytes.Buffer
		cmd.Stderr = &e
		out, err := cmd.Output()
		if err != nil {
			return strings.TrimSpace(string(out)) + "\n" + tail(e.String(), 3000)
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type concSub struct {
	name string
	race bool
}

func (s concSub) Name() string { return s.name }

func (s concSub) ReplayCase(raw json.RawMessage) error {
	var c ConcCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return err
	}
	if seq, err := concResults(); err == nil {
		c.Expect, c.Texts = [2]string{seq.Results[c.A], seq.Results[c.B]}, seq.Texts
	}
	if m := confirm(c); m != "" {
		return errf("%s", m)
	}
	return nil
}

// Explore hands the pairs of operations to worker processes (each explores with one processor).
func (s concSub) Explore(r *core.Run) {
	if r.Violated() {
		return
	}
	t0 := time.Now()
	seq, err := concResults()
	if err != nil {
		r.Fail(s.name, nil, err.Error(), "")
		return
	}
	r.Param("operations", seq.Names)
	type pair struct{ a, b int }
	pairs := make(chan pair, 4*len(seq.Results)*len(seq.Results))
	n := 0
	// the dearest first, to end together
	for same := 0; same < 2; same++ {
		for a := len(seq.Names) - 1; a >= 0; a-- {
			for b := len(seq.Names) - 1; b >= 0; b-- {
				if (a != b) == (same == 1) {
					pairs <- pair{2 * a, 2*b + 1}
					n++
				}
			}
		}
	}
	close(pairs)
	var mu sync.Mutex
	total := core.NewCounter()
	var schedules, steps int64
	var two, places, steals, skipped int
	complete := true
	var wg sync.WaitGroup
	var internal error
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(concBin(s.race), "pairs", r.Tier)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
			in, _ := cmd.StdinPipe()
			outp, _ := cmd.StdoutPipe()
			var e limited
			cmd.Stderr = &e
			if err := cmd.Start(); err != nil {
				internal = err
				return
			}
			defer func() { in.Close(); io.Copy(io.Discard, outp); cmd.Wait() }()
			rd := bufio.NewReaderSize(outp, 1<<20)
			for p := range pairs {
				mu.Lock()
				late := time.Now().After(r.Deadline)
				if late {
					complete = false
				}
				mu.Unlock()
				if late || r.Violated() {
					return
				}
				c := ConcCase{A: p.a, B: p.b, Race: s.race, Expect: [2]string{seq.Results[p.a], seq.Results[p.b]}}
				js, _ := json.Marshal(c)
				if _, err := in.Write(append(js, '\n')); err != nil {
					break
				}
				line, err := rd.ReadBytes('\n')
				var rep concReport
				if err != nil || json.Unmarshal(line, &rep) != nil {
					// the process died: a runtime abort under some schedule of this pair
					cmd.Wait()
					c.Where = "the process was aborted while exploring this pair"
					msg := e.String()
					if strings.Contains(msg, "fatal error") || strings.Contains(msg, "panic") {
						r.Fail(s.name, c, msg, "not re-run")
					} else {
						mu.Lock()
						internal = errf("worker: %v %s", err, msg)
						mu.Unlock()
					}
					return
				}
				mu.Lock()
				schedules += int64(rep.Schedules)
				steps += rep.Steps
				two += rep.Two
				places += rep.Preempt
				steals += rep.Steals
				total.StateS(fmt.Sprint(rep.A, rep.B, rep.Points))
				r.Sample(map[string]any{"sub": s.name, "first thread": seq.Names[rep.A/2], "second thread": seq.Names[rep.B/2], "schedules": rep.Schedules, "points": rep.Points, "preemption places": rep.Preempt})
				total.Op(int(rep.Steps))
				total.Outcome(map[bool]string{true: "pairs agreeing", false: "pairs differing"}[rep.Bad == nil])
				mu.Unlock()
				if rep.Bad != nil {
					rep.Bad.Texts = seq.Texts
					how := confirm(*rep.Bad)
					if how == "" {
						// only in the explorer's own process: its resetting of variables is to blame, not the library
						mu.Lock()
						skipped++
						mu.Unlock()
						continue
					}
					b := *rep.Bad
					b.Msg = ""
					r.Fail(s.name, b, fmt.Sprintf("%s || %s (%s): %s", seq.Names[b.A/2], seq.Names[b.B/2], b.Where, how), "failed again in a fresh process")
				}
			}
		}()
	}
	wg.Wait()
	if internal != nil {
		fmt.Println("check error:", internal)
		os.Exit(3)
	}
	r.Param(s.name+".pairs", n)
	r.Param(s.name+".preemption_places", places)
	r.Param(s.name+".two_preemption_schedules", two)
	r.Param(s.name+".turns_taken_from_blocked_threads", steals)
	r.Param(s.name+".not_confirmed_in_a_fresh_process", skipped)
	r.AddReport(s.name, schedules, total, complete, time.Since(t0).Seconds())
}

// limited keeps the beginning of what is written to it.
type limited struct {
	mu sync.Mutex
	b  []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 20000 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *limited) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return tail(string(l.b), 4000)
}

func init() {
	core.Register(&core.Prop{
		ID: "C27", Level: "model_checking",
		Subs:       []core.Sub{concSub{"schedules", false}, concSub{"schedules-race-monitor", true}},
		Exhaustive: "all ordered pairs of operations on two threads: every schedule with at most one preemption of the first thread at the first two and the last occurrence of every statement (curve arithmetic: the first), from the initial state and from the warmed-up state (there the second thread runs a short operation eight times over), and with one preemption in each thread at first occurrences for pairs of the same operation; serial schedules of all pairs and one-preemption schedules of same-operation pairs under the race detector",
		Assumptions: []string{"statements of the library are the scheduling points; calls into other modules are atomic for the result comparison (the race monitor sees inside them)",
			"a thread blocked on a lock is disabled until it is released"},
	})
}
