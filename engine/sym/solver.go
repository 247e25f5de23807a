package sym

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Stats counts solver work.
type Stats struct {
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Errors   int64
	Time     time.Duration
	Restarts int64
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Errors += o.Errors
	s.Time += o.Time
	s.Restarts += o.Restarts
}

// Solver drives one `z3 -in` process; owned by one goroutine.
type Solver struct {
	F         *Factory
	Bin       string
	TimeoutMS int
	Stats     Stats

	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[int]bool
	stack    []*Term // asserted literals, one push level each
	buf      strings.Builder
	ncmds    int
}

func NewSolver(f *Factory) *Solver {
	return &Solver{F: f, Bin: "z3", TimeoutMS: 4000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.Bin, "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.declared = map[int]bool{}
	s.stack = nil
	s.ncmds = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.TimeoutMS)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset drops the process (used when the factory changes).
func (s *Solver) Reset(f *Factory) {
	s.F = f
	if s.cmd != nil {
		// keep the process, wipe its state
		s.buf.Reset()
		s.buf.WriteString("(reset)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.TimeoutMS)
		s.declared = map[int]bool{}
		s.stack = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return smtConst(t)
	case OVar:
		if !s.declared[t.ID] {
			s.declared[t.ID] = true
			fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", smtName(t.Name), smtSort(t.W))
		}
		return smtName(t.Name)
	}
	if t.size <= 6 {
		kids := make([]string, t.NA)
		for i := range kids {
			kids[i] = s.ref(t.A[i])
		}
		return smtApp(t, kids)
	}
	n := "t" + strconv.Itoa(t.ID)
	if !s.declared[t.ID] {
		s.declared[t.ID] = true
		kids := make([]string, t.NA)
		for i := range kids {
			kids[i] = s.ref(t.A[i])
		}
		fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", n, smtSort(t.W), smtApp(t, kids))
	}
	return n
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction of lits; returns a model over all declared variables on Sat.
func (s *Solver) Check(lits []*Term) (Result, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	defer func() { s.Stats.Time += time.Since(t0) }()
	for _, l := range lits {
		if l.IsFalse() {
			s.Stats.Unsat++
			return Unsat, nil
		}
	}
	if s.cmd == nil || s.ncmds > 200000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Stats.Errors++
			return Unknown, nil
		}
	}
	// sync assertion stack
	k := 0
	for k < len(s.stack) && k < len(lits) && s.stack[k] == lits[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", d)
		s.stack = s.stack[:k]
	}
	for _, l := range lits[k:] {
		r := s.ref(l)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, l)
		s.ncmds++
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		return s.fail()
	}
	s.buf.Reset()
	line, err := s.readLine()
	if err != nil {
		return s.fail()
	}
	switch line {
	case "unsat":
		s.Stats.Unsat++
		return Unsat, nil
	case "sat":
		s.Stats.Sat++
		return Sat, s.model(lits)
	case "unknown", "timeout":
		s.Stats.Unknown++
		return Unknown, nil
	}
	return s.fail()
}

func (s *Solver) fail() (Result, Model) {
	s.Stats.Errors++
	s.Stats.Unknown++
	s.Stats.Restarts++
	s.Close()
	return Unknown, nil
}

func (s *Solver) model(lits []*Term) Model {
	m := Model{}
	vars := []*Term{}
	for _, v := range s.F.Vars {
		if s.declared[v.ID] {
			vars = append(vars, v)
		}
	}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(smtName(v.Name))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	depth, started := 0, false
	var out strings.Builder
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return m
		}
		inq := false
		for _, c := range l {
			switch {
			case c == '|':
				inq = !inq
			case inq:
			case c == '(':
				depth++
				started = true
			case c == ')':
				depth--
			}
		}
		out.WriteString(l)
	}
	txt := out.String()
	if strings.Contains(txt, "error") {
		s.Stats.Errors++
	}
	// ((|a| #x..) (|b| true) ...)
	pos := 0
	for _, v := range vars {
		n := smtName(v.Name)
		i := strings.Index(txt[pos:], "("+n+" ")
		if i < 0 {
			continue
		}
		pos += i + len(n) + 2
		j := strings.IndexByte(txt[pos:], ')')
		val := strings.TrimSpace(txt[pos : pos+j])
		pos += j
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v] = u
		}
	}
	return m
}
