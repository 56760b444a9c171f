package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result uint8

const (
	Unknown Result = iota
	Sat
	Unsat
)

type SolverStats struct {
	Queries  int     `json:"queries"`
	Sat      int     `json:"sat"`
	Unsat    int     `json:"unsat"`
	Unknown  int     `json:"unknown"`
	Seconds  float64 `json:"seconds"`
	MaxQuery float64 `json:"max_query_seconds"`
	Restarts int     `json:"restarts"`
}

type Solver struct {
	bin       string
	timeoutMs int
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	defined   map[int32]bool
	declared  map[int32]bool
	ndef      int
	stats     SolverStats
	dump      io.Writer
}

func NewSolver(bin string, timeoutMs int) *Solver {
	return &Solver{bin: bin, timeoutMs: timeoutMs}
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2", "-memory:2000"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--force-logic=QF_BV"}
	}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.declared = map[int32]bool{}
	s.ndef = 0
	if strings.Contains(s.bin, "cvc5") {
		s.send("(set-option :global-declarations true)\n")
		s.send("(set-option :tlimit-per " + strconv.Itoa(s.timeoutMs) + ")\n(set-logic QF_BV)\n")
	} else {
		s.send("(set-option :global-declarations true)\n(set-option :timeout " + strconv.Itoa(s.timeoutMs) + ")\n")
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) name(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		s.declare(t)
		return t.varName()
	}
	s.define(t)
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) declare(v *Term) {
	if !s.declared[v.id] {
		s.declared[v.id] = true
		s.send(fmt.Sprintf("(declare-const %s %s)\n", v.varName(), sortSMT(v.w)))
	}
}

func (s *Solver) define(t *Term) {
	if s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		var ch *Term
		switch f.i {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		}
		if f.i < 3 {
			f.i++
			if ch != nil && ch.op != OConst && !s.defined[ch.id] {
				if ch.op == OVar {
					s.declare(ch)
				} else {
					stack = append(stack, fr{ch, 0})
				}
			}
			continue
		}
		tt := f.t
		stack = stack[:len(stack)-1]
		if s.defined[tt.id] {
			continue
		}
		s.defined[tt.id] = true
		s.ndef++
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", tt.id, sortSMT(tt.w), tt.smtBody(func(c *Term) string {
			switch c.op {
			case OConst:
				return constSMT(c)
			case OVar:
				return c.varName()
			}
			return "t" + strconv.Itoa(int(c.id))
		})))
	}
}

type domCon struct {
	v *Term
	d [4]uint64
}

// Check decides the conjunction of terms and domain constraints. If wantModel, it returns the values of vars.
func (s *Solver) Check(ts []*Term, doms []domCon, wantVars []*Term) (Result, map[int32]uint64) {
	if s.cmd != nil && s.ndef > 60000 {
		s.Close()
		s.stats.Restarts++
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	names := make([]string, 0, len(ts)+len(doms))
	for _, d := range doms {
		names = append(names, domSMT(s.name(d.v), &d.d))
	}
	for _, t := range ts {
		names = append(names, s.name(t))
	}
	var wn []string
	for _, v := range wantVars {
		wn = append(wn, s.name(v))
	}
	s.send("(push 1)\n")
	for _, n := range names {
		s.send("(assert " + n + ")\n")
	}
	s.send("(check-sat)\n")
	// the solver's own limit does not hold everywhere in it
	p := s.cmd.Process
	guard := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*3/2+5*time.Second, func() { p.Kill() })
	s.in.Flush()
	res := Unknown
	line, err := s.out.ReadString('\n')
	guard.Stop()
	line = strings.TrimSpace(line)
	if err != nil {
		s.Close()
		s.account(t0, Unknown)
		return Unknown, nil
	}
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.Close()
			s.account(t0, Unknown)
			return Unknown, nil
		}
	}
	var model map[int32]uint64
	if res == Sat && len(wn) > 0 {
		model = map[int32]uint64{}
		s.send("(get-value (" + strings.Join(wn, " ") + "))\n")
		s.in.Flush()
		txt := ""
		depth := 0
		started := false
		for !started || depth > 0 {
			l, err := s.out.ReadString('\n')
			if err != nil {
				break
			}
			for _, c := range l {
				if c == '(' {
					depth++
					started = true
				} else if c == ')' {
					depth--
				}
			}
			txt += l
		}
		if strings.HasPrefix(txt, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", txt)
			res = Unknown
		}
		f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		for i := 0; i < len(f); i++ {
			if f[i][0] == 'v' && i+1 < len(f) {
				idx, _ := strconv.Atoi(f[i][1:strings.IndexByte(f[i], 'w')])
				val := f[i+1]
				var x uint64
				switch {
				case strings.HasPrefix(val, "#x"):
					x, _ = strconv.ParseUint(val[2:], 16, 64)
				case strings.HasPrefix(val, "#b"):
					x, _ = strconv.ParseUint(val[2:], 2, 64)
				case val == "true":
					x = 1
				case val == "_" && i+2 < len(f):
					x, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
				}
				model[int32(idx)] = x
				i++
			}
		}
	}
	s.send("(pop 1)\n")
	s.account(t0, res)
	return res, model
}

func (s *Solver) account(t0 time.Time, r Result) {
	d := time.Since(t0).Seconds()
	s.stats.Queries++
	s.stats.Seconds += d
	if d > s.stats.MaxQuery {
		s.stats.MaxQuery = d
	}
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
}
