package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver is an incremental SMT-LIB solver process.
type Solver struct {
	path    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[*Expr]bool
	stack   []*Expr // asserted path constraints, one scope each
	ndef    int
	timeout int // ms

	queries  int64
	unknowns int64
	time     time.Duration
	log      *strings.Builder
}

func NewSolver(path string, timeoutMS int) *Solver {
	return &Solver{path: path, args: []string{"-in", "-smt2"}, timeout: timeoutMS}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Errorf("cannot start solver %s: %v", s.path, err))
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Expr]bool{}
	s.stack = nil
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sname(e *Expr) string { return "e" + strconv.Itoa(int(e.id)) }

func (s *Solver) ref(e *Expr) string {
	if e.op == OpConst {
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		if e.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", e.w/4, e.val)
		}
		return fmt.Sprintf("#b%0*b", e.w, e.val)
	}
	return sname(e)
}

func sortOf(e *Expr) string {
	if e.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", e.w)
}

func (s *Solver) define(e *Expr) {
	if e.op == OpConst || s.defined[e] {
		return
	}
	s.defined[e] = true
	s.ndef++
	if e.op == OpVar || e.op == OpByteOf {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", sname(e), sortOf(e))
		return
	}
	for _, a := range e.args {
		s.define(a)
	}
	w := s.in
	fmt.Fprintf(w, "(define-fun %s () %s (", sname(e), sortOf(e))
	switch e.op {
	case OpExtract:
		fmt.Fprintf(w, "(_ extract %d %d)", e.lo+e.w-1, e.lo)
	case OpSext:
		fmt.Fprintf(w, "(_ sign_extend %d)", e.w-e.args[0].w)
	case OpDur:
		fmt.Fprintf(w, "bvadd (bvmul %s (_ bv%d 64)) %s))\n", s.ref(e.args[0]), second, s.ref(e.args[1]))
		return
	default:
		w.WriteString(opName[e.op])
	}
	for _, a := range e.args {
		w.WriteByte(' ')
		w.WriteString(s.ref(a))
	}
	w.WriteString("))\n")
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Expr) {
	if s.cmd == nil {
		s.start()
	}
	if s.ndef > 150000 {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, e := range pc[n:] {
		s.define(e)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(e))
		s.stack = append(s.stack, e)
	}
}

// Check decides satisfiability of pc AND extra (extra may be nil).  On Sat a
// model of the variables is returned.
func (s *Solver) Check(pc []*Expr, extra *Expr, vars []*Expr) (Result, Model) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(extra))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		m = s.getModel(vars)
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
		s.unknowns++
	default:
		panic("solver said: " + line)
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(fmt.Errorf("solver died: %v", err))
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) getModel(vars []*Expr) Model {
	m := Model{}
	var q []*Expr
	for _, v := range vars {
		if s.defined[v] {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range q {
		s.in.WriteString(sname(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(fmt.Errorf("solver died: %v", err))
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
	if len(toks) != 2*len(q) {
		panic("bad get-value answer: " + sb.String())
	}
	for i, v := range q {
		t := toks[2*i+1]
		var x uint64
		var err error
		switch {
		case t == "true":
			x = 1
		case t == "false":
			x = 0
		case strings.HasPrefix(t, "#x"):
			x, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			x, err = strconv.ParseUint(t[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", t)
		}
		if err != nil {
			panic(err)
		}
		m[v] = x
	}
	return m
}
