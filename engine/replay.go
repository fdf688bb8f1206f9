package main

// Native replay: the harness package is compiled against the real code and
// run on a concrete case; only what fails there is reported.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Case struct {
	Prop    string             `json:"property"`
	Harness string             `json:"harness"`
	Nums    map[string]float64 `json:"nums"`
	Ints    map[string]int64   `json:"ints"`
	Bools   map[string]bool    `json:"bools"`
	Choices map[string]int64   `json:"choices"`
	Derivs  map[string]float64 `json:"derivs"`
	Stale   bool               `json:"-"`
	Thor    bool               `json:"thorough"`
	Tight   bool               `json:"tight,omitempty"`  // tolerance of a few units of float64
	Repeat  int                `json:"repeat,omitempty"` // runs, where the order of map keys matters
	Warm    []*Case            `json:"warm,omitempty"`   // run before, in order
	Label   string             `json:"label,omitempty"`
	Detail  string             `json:"detail,omitempty"`
}

type Fail struct{ Label, Detail string }

type NatObs struct {
	Label string
	Eq    bool
	A, B  float64
}

type Result struct {
	Fails []Fail
	Obs   []NatObs
	Out   string
}

type Native struct {
	repo, verif string
	scratch     string
	race        bool
	thorough    bool
	once        sync.Once
	bin         string
	err         error
	harnesses   []string
	runs        int
	mu          sync.Mutex
	buildS      float64
	idle        []*server
	sem         chan struct{}
}

// overlayFiles maps paths under /repo/zz_verif to files of /verif/harness.
func overlayFiles(repo, verif string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"vh", "h"} {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			m[filepath.Join(repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	return m, nil
}

func goEnv() []string {
	env := []string{}
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOSUMDB": true, "GOWORK": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	return env
}

func (n *Native) build() {
	t0 := time.Now()
	defer func() { n.buildS = time.Since(t0).Seconds() }()
	m, err := overlayFiles(n.repo, n.verif)
	if err != nil {
		n.err = err
		return
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"github.com/sahandsafizadeh/qeep/zz_verif/h\"\n\t\"github.com/sahandsafizadeh/qeep/zz_verif/vh\"\n)\n\nfunc main() {\n\tvh.Main(map[string]func(){\n")
	for _, x := range n.harnesses {
		fmt.Fprintf(&b, "\t\t%q: h.%s,\n", x, x)
	}
	b.WriteString("\t})\n}\n")
	main := filepath.Join(n.scratch, "main.go")
	if n.err = os.WriteFile(main, b.Bytes(), 0o644); n.err != nil {
		return
	}
	m[filepath.Join(n.repo, "zz_verif", "replay", "main.go")] = main
	ov := filepath.Join(n.scratch, "overlay.json")
	js, _ := json.Marshal(map[string]any{"Replace": m})
	if n.err = os.WriteFile(ov, js, 0o644); n.err != nil {
		return
	}
	n.bin = filepath.Join(n.scratch, "replay")
	args := []string{"build", "-overlay", ov, "-o", n.bin}
	if n.race {
		args = append(args, "-race")
	}
	args = append(args, "./zz_verif/replay")
	c := exec.Command("go", args...)
	c.Dir = n.repo
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("replay build: %v\n%s", err, out)
	}
}

// Run runs a case in a fresh process, or in several until one fails.
func (n *Native) Run(c *Case, limit time.Duration) *Result {
	r := n.run(c, limit)
	for i := 1; i < c.Repeat && r != nil && len(r.Fails) == 0; i++ {
		r = n.run(c, limit)
	}
	return r
}

func (n *Native) run(c *Case, limit time.Duration) *Result {
	n.once.Do(n.build)
	if n.err != nil {
		return nil
	}
	c.Thor = n.thorough
	js, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	n.sem <- struct{}{}
	defer func() { <-n.sem }()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 16000000; exec \"$0\"", n.bin)
	if n.race {
		cmd = exec.CommandContext(ctx, n.bin)
		cmd.Env = append(os.Environ(), raceOpts)
	}
	cmd.Stdin = bytes.NewReader(js)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	n.mu.Lock()
	n.runs++
	n.mu.Unlock()
	r := &Result{}
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if !r.line(sc.Text()) {
			return nil
		}
	}
	if ctx.Err() != nil {
		r.Fails = append(r.Fails, Fail{"hang", "no result within " + limit.String()})
	} else if err != nil {
		e := errb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		switch {
		case strings.Contains(e, "DATA RACE"):
			r.Fails = append(r.Fails, Fail{"race", e})
		case strings.Contains(e, "concurrent map"):
			r.Fails = append(r.Fails, Fail{"race", e})
		case strings.Contains(e, "stack overflow") || strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate memory"):
			r.Fails = append(r.Fails, Fail{"hang", e})
		default:
			r.Fails = append(r.Fails, Fail{"panic", e})
		}
	}
	r.Out = errb.String()
	return r
}

func jsonFloats(m map[string]float64) map[string]float64 {
	for k, v := range m {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			delete(m, k)
		}
	}
	return m
}

// line takes one line of output; false if the case could not be run.
func (r *Result) line(t string) bool {
	f := strings.Split(t, "\t")
	switch f[0] {
	case "EQ":
		a, _ := strconv.ParseFloat(f[2], 64)
		b, _ := strconv.ParseFloat(f[3], 64)
		r.Obs = append(r.Obs, NatObs{f[1], true, a, b})
		if f[4] == "0" {
			r.Fails = append(r.Fails, Fail{f[1], fmt.Sprintf("got %v want %v", a, b)})
		}
	case "AS":
		r.Obs = append(r.Obs, NatObs{Label: f[1]})
		if f[2] == "0" {
			r.Fails = append(r.Fails, Fail{f[1], "assertion false"})
		}
	case "ASSUME":
		r.Fails = append(r.Fails, Fail{"assume", ""})
	case "PANIC":
		r.Fails = append(r.Fails, Fail{"panic", strings.Join(f[1:], " ")})
		r.Obs = append(r.Obs, NatObs{Label: "panic"})
	case "ERR":
		return false
	}
	return true
}

// server is a replay process that takes one case after another.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Scanner
}

const raceOpts = "GORACE=exitcode=66 halt_on_error=1 atexit_sleep_ms=0"

func (n *Native) start() *server {
	s := &server{cmd: exec.Command("bash", "-c", "ulimit -v 16000000; exec \"$0\" serve", n.bin)}
	if n.race {
		s.cmd = exec.Command(n.bin, "serve")
		s.cmd.Env = append(os.Environ(), raceOpts)
	}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil
	}
	s.out = bufio.NewScanner(o)
	s.out.Buffer(make([]byte, 1<<20), 1<<26)
	if s.cmd.Start() != nil {
		return nil
	}
	return s
}

func (s *server) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// RunFast runs a case in a long-lived process and, if anything about it is out
// of the ordinary, again in a fresh one.
func (n *Native) RunFast(c *Case, limit time.Duration) *Result {
	n.once.Do(n.build)
	if n.err != nil {
		return nil
	}
	n.sem <- struct{}{}
	r := n.fast(c, limit)
	for i := 1; i < min(c.Repeat, 4) && r != nil && len(r.Fails) == 0; i++ {
		r = n.fast(c, limit)
	}
	<-n.sem
	if r == nil || len(r.Fails) > 0 {
		return n.Run(c, limit)
	}
	return r
}

func (n *Native) fast(c *Case, limit time.Duration) *Result {
	n.mu.Lock()
	var s *server
	if k := len(n.idle); k > 0 {
		s = n.idle[k-1]
		n.idle = n.idle[:k-1]
	}
	n.runs++
	n.mu.Unlock()
	if s == nil {
		if s = n.start(); s == nil {
			return nil
		}
	}
	c.Thor = n.thorough
	js, _ := json.Marshal(c)
	timer := time.AfterFunc(limit, func() { s.cmd.Process.Kill() })
	_, err := s.in.Write(append(js, '\n'))
	r := &Result{}
	ok := false
	if err == nil {
		for s.out.Scan() {
			t := s.out.Text()
			if t == "END" {
				ok = true
				break
			}
			if !r.line(t) {
				break
			}
		}
	}
	if !timer.Stop() || !ok {
		s.stop()
		return nil
	}
	n.mu.Lock()
	n.idle = append(n.idle, s)
	n.mu.Unlock()
	return r
}

func (n *Native) close() {
	for _, s := range n.idle {
		s.stop()
	}
	n.idle = nil
}
