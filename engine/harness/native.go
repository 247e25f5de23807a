// Package harness ties the symbolic executor, the script interpreters and the native build
// of the current tree together.
package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// RepoDir is the tree under check.
var RepoDir = "/repo"

const driverMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/transpiler"
)

type step struct {
	Path, Target string
	Cwd          string
	Fresh        bool              // use a new transpiler object
	Clear        string            // directory that is removed first
	Files        map[string][]byte // files that are written first
}

type req struct {
	Path   string
	Target string
	Seq    []step
}

type resp struct {
	Out   []byte
	Err   string
	IsErr bool
	Panic string
	Outs  []resp
}

func one(t interface {
	Transpile(string, transpiler.Converter) (string, error)
}, path, target string) (r resp) {
	defer func() {
		if e := recover(); e != nil {
			r = resp{Panic: "panic: " + fmt.Sprint(e)}
		}
	}()
	var c transpiler.Converter = bash.New()
	if target == "batch" {
		c = batch.New()
	}
	out, err := t.Transpile(path, c)
	r.Out = []byte(out)
	if err != nil {
		r.IsErr = true
		r.Err = err.Error()
	}
	return
}

func main() {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if json.Unmarshal(line, &q) != nil {
			return
		}
		t := transpiler.New()
		if len(q.Seq) > 0 {
			r := resp{}
			for _, s := range q.Seq {
				if s.Clear != "" {
					os.RemoveAll(s.Clear)
				}
				for f, b := range s.Files {
					os.MkdirAll(filepath.Dir(f), 0755)
					os.WriteFile(f, b, 0644)
				}
				if s.Cwd != "" {
					os.Chdir(s.Cwd)
				}
				if s.Fresh {
					n := transpiler.New()
					r.Outs = append(r.Outs, one(&n, s.Path, s.Target))
				} else {
					r.Outs = append(r.Outs, one(&t, s.Path, s.Target))
				}
			}
			enc.Encode(r)
		} else {
			enc.Encode(one(&t, q.Path, q.Target))
		}
		out.Flush()
	}
}
`

const lexMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/monstermichl/typeshell/lexer"
)

type tok struct {
	T    int
	V    []byte
	R, C int
}

type resp struct {
	Toks  []tok
	IsErr bool
	Err   string
	Panic string
}

func one(src []byte) (r resp) {
	defer func() {
		if e := recover(); e != nil {
			r = resp{Panic: "panic: " + fmt.Sprint(e)}
		}
	}()
	ts, err := lexer.Tokenize(string(src))
	for _, t := range ts {
		r.Toks = append(r.Toks, tok{int(t.Type()), []byte(t.Value()), t.Row(), t.Column()})
	}
	if err != nil {
		r.IsErr = true
		r.Err = err.Error()
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q []byte
		if json.Unmarshal(line, &q) != nil {
			return
		}
		enc.Encode(one(q))
		out.Flush()
	}
}
`

// Native is the natively compiled code under check.
type Native struct {
	Dir     string // scratch directory owned by this run
	Driver  string
	Lexer   string
	Tsh     string
	mu      sync.Mutex
	procs   chan *proc
	nproc   int
	Timeout time.Duration
	Calls   int64
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// Result of one native transpilation.
type Result struct {
	Out   string `json:"-"`
	OutB  []byte `json:"Out"`
	Err   string
	IsErr bool
	Panic string // recovered panic, crash or hang
	Outs  []Result
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
}

// BuildNative compiles the drivers from the current tree (overlay; nothing is written there).
func BuildNative(scratch string, lexer, tsh bool) (*Native, error) {
	n := &Native{Dir: scratch, Timeout: 20 * time.Second, procs: make(chan *proc, 64)}
	build := func(name, src string) (string, error) {
		f := filepath.Join(scratch, name+".go")
		if err := os.WriteFile(f, []byte(src), 0644); err != nil {
			return "", err
		}
		ov := filepath.Join(scratch, name+".json")
		virt := filepath.Join(RepoDir, "zz_verif_"+name, "main.go")
		b, _ := json.Marshal(map[string]any{"Replace": map[string]string{virt: f}})
		if err := os.WriteFile(ov, b, 0644); err != nil {
			return "", err
		}
		bin := filepath.Join(scratch, name)
		cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zz_verif_"+name)
		cmd.Dir = RepoDir
		cmd.Env = goEnv()
		if o, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("build %s: %v\n%s", name, err, o)
		}
		return bin, nil
	}
	var err error
	if n.Driver, err = build("driver", driverMain); err != nil {
		return nil, err
	}
	if lexer {
		if n.Lexer, err = build("lexdriver", lexMain); err != nil {
			return nil, err
		}
	}
	if tsh {
		n.Tsh = filepath.Join(scratch, "tsh")
		cmd := exec.Command("go", "build", "-o", n.Tsh, ".")
		cmd.Dir = RepoDir
		cmd.Env = goEnv()
		if o, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("build tsh: %v\n%s", err, o)
		}
	}
	// std lookup happens next to the executable
	std := filepath.Join(scratch, "std")
	os.MkdirAll(std, 0755)
	fs, _ := filepath.Glob(filepath.Join(RepoDir, "std", "*"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(std, filepath.Base(f)), b, 0644)
	}
	return n, nil
}

func startProc(bin string, env ...string) (*proc, error) {
	cmd := exec.Command(bin)
	cmd.Env = append(append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single"), env...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	var eb strings.Builder
	cmd.Stderr = &limitWriter{&eb, 4000}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

type limitWriter struct {
	sb *strings.Builder
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		k := min(len(p), l.n-l.sb.Len())
		l.sb.Write(p[:k])
	}
	return len(p), nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (n *Native) ask(bin string, q any, res any) (crash string) {
	var p *proc
	n.mu.Lock()
	n.Calls++
	n.mu.Unlock()
	if bin == n.Driver {
		select {
		case p = <-n.procs:
		default:
		}
	}
	if p == nil {
		var err error
		if p, err = startProc(bin); err != nil {
			return "cannot start driver: " + err.Error()
		}
	}
	if c := n.askProc(p, q, res); c != "" {
		return c
	}
	if bin == n.Driver {
		select {
		case n.procs <- p:
		default:
			p.kill()
		}
	} else {
		p.kill()
	}
	return ""
}

// askProc asks one process; it is ended when it gives no answer.
func (n *Native) askProc(p *proc, q any, res any) (crash string) {
	b, _ := json.Marshal(q)
	type lr struct {
		l   []byte
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		p.in.Write(append(b, '\n'))
		l, err := p.out.ReadBytes('\n')
		ch <- lr{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			p.kill()
			return "driver crashed (fatal error or stack overflow)"
		}
		json.Unmarshal(r.l, res)
	case <-time.After(n.Timeout):
		p.kill()
		<-ch
		return fmt.Sprintf("no answer within %s", n.Timeout)
	}
	return ""
}

// Transpile runs the real transpiler on a file.
func (n *Native) Transpile(path, target string) Result {
	var r Result
	if c := n.ask(n.Driver, map[string]any{"Path": path, "Target": target}, &r); c != "" {
		r.Panic = c
	}
	r.Out = string(r.OutB)
	return r
}

// Step is one transpilation of a sequence.
type Step struct {
	Path, Target string
	Cwd          string
	Fresh        bool
	Clear        string
	Files        map[string][]byte
}

// TranspileSeq runs several transpilations on one transpiler object in a new process.
func (n *Native) TranspileSeq(seq []Step, env ...string) Result {
	var r Result
	n.mu.Lock()
	n.Calls++
	n.mu.Unlock()
	p, err := startProc(n.Driver, env...)
	if err != nil {
		return Result{Panic: err.Error()}
	}
	if c := n.askProc(p, map[string]any{"Seq": seq}, &r); c != "" {
		r.Panic = c
	} else {
		p.kill()
	}
	for i := range r.Outs {
		r.Outs[i].Out = string(r.Outs[i].OutB)
	}
	return r
}

// Tok is one native token.
type Tok struct {
	T    int
	V    []byte
	R, C int
}

type LexResult struct {
	Toks  []Tok
	IsErr bool
	Err   string
	Panic string
}

func (n *Native) Tokenize(src string) LexResult {
	var r LexResult
	if c := n.ask(n.Lexer, []byte(src), &r); c != "" {
		r.Panic = c
	}
	return r
}

func (n *Native) Close() {
	for {
		select {
		case p := <-n.procs:
			p.kill()
		default:
			return
		}
	}
}

// RunResult is the outcome of executing a script.
type RunResult struct {
	Stdout, Stderr string
	Exit           int
	TimedOut       bool
}

// RunBash runs script with /bin/bash in an empty environment inside dir (created fresh).
func RunBash(script, dir, stdin string, timeout time.Duration, env ...string) RunResult {
	f := filepath.Join(dir, ".script.sh")
	os.WriteFile(f, []byte(script), 0644)
	defer os.Remove(f)
	cmd := exec.Command("/bin/bash", f)
	wd := filepath.Join(dir, "w")
	os.MkdirAll(wd, 0755)
	cmd.Dir = wd
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	var o, e strings.Builder
	lo, le := &limitWriter{&o, 1 << 20}, &limitWriter{&e, 1 << 20}
	cmd.Stdout, cmd.Stderr = lo, le
	cmd.WaitDelay = time.Second
	cmd.SysProcAttr = procAttr()
	var r RunResult
	if err := cmd.Start(); err != nil {
		r.Exit = -1
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		killGroup(cmd)
		<-done
		r.TimedOut = true
	}
	r.Stdout, r.Stderr = o.String(), e.String()
	if cmd.ProcessState != nil {
		r.Exit = cmd.ProcessState.ExitCode()
	}
	return r
}
