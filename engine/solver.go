package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver keeps one z3 process alive. Each path pushes one scope; definitions
// and path conditions are added to it lazily; queries use an inner scope.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[*Term]bool
	open    bool
	path    []*Term // asserted path conditions
	Queries int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	bin     string
	tmo     int
	log     io.Writer
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, tmo: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :global-declarations false)\n", s.tmo)
	s.defined = map[*Term]bool{}
	s.open = false
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Flush()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// Reset forgets the current path.
func (s *Solver) Reset() {
	if s.open {
		s.w("(pop 1)\n")
		s.open = false
	}
	s.path = s.path[:0]
	if len(s.defined) > 0 {
		s.defined = map[*Term]bool{}
	}
}

func (s *Solver) w(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) define(x *Term) {
	if x.op == OConst || s.defined[x] {
		return
	}
	if x.op == OVar {
		s.w(fmt.Sprintf("(declare-const v%d %s)\n", x.n, sortName(x.w)))
		s.defined[x] = true
		return
	}
	if x.a != nil {
		s.define(x.a)
	}
	if x.b != nil {
		s.define(x.b)
	}
	if x.c != nil {
		s.define(x.c)
	}
	s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), bodyStr(x)))
	s.defined[x] = true
}

// Sync asserts the path conditions not yet asserted.
func (s *Solver) sync(pc []*Term) {
	if !s.open {
		s.w("(push 1)\n")
		s.open = true
	}
	for i := len(s.path); i < len(pc); i++ {
		s.define(pc[i])
		s.w("(assert " + refName(pc[i]) + ")\n")
		s.path = append(s.path, pc[i])
	}
}

// Check decides satisfiability of pc and extra. On sat it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (res string, m Model) {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		s.Queries++
		switch res {
		case "sat":
			s.Sat++
		case "unsat":
			s.Unsat++
		default:
			s.Unknown++
		}
	}()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		s.w("(push 1)\n(assert " + refName(extra) + ")\n")
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.restart()
		s.path = nil
		return "unknown", nil
	}
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", line)
		s.restart()
		s.path = nil
		return "unknown", nil
	}
	res = line
	if res == "sat" {
		m = Model{}
		var vs []*Term
		for x := range s.defined {
			if x.op == OVar {
				vs = append(vs, x)
			}
		}
		if len(vs) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vs {
				sb.WriteString(" v" + strconv.FormatUint(v.n, 10))
			}
			sb.WriteString("))\n")
			s.w(sb.String())
			s.in.Flush()
			txt := s.readSexp()
			if !parseModel(txt, m) {
				s.restart()
				s.path = nil
				return "unknown", nil
			}
		}
	}
	if extra != nil {
		s.w("(pop 1)\n")
	}
	return
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		sb.WriteString(line)
		for _, c := range line {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return sb.String()
		}
	}
}

// parseModel reads ((v0 #x00) (v1 true) ...).
func parseModel(txt string, m Model) bool {
	if strings.Contains(txt, "error") || txt == "" {
		return false
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); i += 2 {
		if toks[i][0] != 'v' {
			return false
		}
		idx, err := strconv.ParseUint(toks[i][1:], 10, 64)
		if err != nil {
			return false
		}
		v := toks[i+1]
		switch {
		case v == "true":
			m[idx] = 1
		case v == "false":
			m[idx] = 0
		case strings.HasPrefix(v, "#x"):
			n, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return false
			}
			m[idx] = n
		case strings.HasPrefix(v, "#b"):
			n, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return false
			}
			m[idx] = n
		default:
			return false
		}
	}
	return true
}
