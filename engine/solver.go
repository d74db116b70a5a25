package main

// SMT-LIB2 front end: one live solver process per worker, incremental stack
// synchronised with the current path condition.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

const prelude = `(set-option :print-success false)
(set-option :produce-models true)
(set-option :global-declarations true)
`
const preludeDefs = `(define-fun b64enc ((x (_ BitVec 6))) (_ BitVec 8) (ite (bvult x #b011010) (bvadd #x41 (concat #b00 x)) (ite (bvult x #b110100) (bvadd #x47 (concat #b00 x)) (ite (bvult x #b111110) (bvsub (concat #b00 x) #x04) (ite (= x #b111110) #x2b #x2f)))))
(define-fun b64dec ((c (_ BitVec 8))) (_ BitVec 8) (ite (and (bvuge c #x41) (bvule c #x5a)) (bvsub c #x41) (ite (and (bvuge c #x61) (bvule c #x7a)) (bvsub c #x47) (ite (and (bvuge c #x30) (bvule c #x39)) (bvadd c #x04) (ite (= c #x2b) #x3e (ite (= c #x2f) #x3f #xff))))))
`

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback int
	Time                                   time.Duration
	CrossChecked, CrossDiff                int
}

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted, one push level each
	emitted map[int]bool
	decls   strings.Builder // all declarations/definitions so far (for the fallback)
	ufs     map[string]bool
	pool    *TermPool
	Stats   SolverStats
	timeout int // ms
	buf     strings.Builder
	log     *os.File
	cross   bool
	broken  bool
}

func NewSolver(pool *TermPool, timeoutMs int) *Solver {
	s := &Solver{bin: "z3-new", pool: pool, timeout: timeoutMs}
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		s.bin = b
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.emitted = map[int]bool{}
	s.ufs = map[string]bool{}
	s.stack = nil
	s.decls.Reset()
	s.buf.Reset()
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.WriteString(prelude)
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	s.buf.WriteString(preludeDefs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) flush() {
	str := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		s.log.WriteString(str)
	}
	if _, err := io.WriteString(s.in, str); err != nil {
		s.broken = true
	}
}

func (s *Solver) decl(line string) {
	s.buf.WriteString(line)
	s.decls.WriteString(line)
}

// ref emits definitions for t and returns its SMT text.
func (s *Solver) ref(t *Term) string {
	if t.Op == "const" {
		return t.constStr()
	}
	if t.Op == "var" {
		if !s.emitted[t.ID] {
			s.emitted[t.ID] = true
			s.decl("(declare-const |" + t.Name + "| " + t.S.String() + ")\n")
			if t.S.K == KInt && t.Lo != nil {
				// range facts are asserted with the path condition (see Path.newInt)
			}
		}
		return "|" + t.Name + "|"
	}
	name := "t" + strconv.Itoa(t.ID)
	if s.emitted[t.ID] {
		return name
	}
	// iterative post-order to bound recursion depth
	for _, a := range t.A {
		if !a.leaf() && !s.emitted[a.ID] {
			s.ref(a)
		}
	}
	var sb strings.Builder
	args := func() {
		for _, a := range t.A {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
	}
	switch t.Op {
	case "uf":
		if t.Name != "b64enc" && t.Name != "b64dec" && !s.ufs[t.Name] {
			s.ufs[t.Name] = true
			var d strings.Builder
			d.WriteString("(declare-fun |" + t.Name + "| (")
			for i, a := range t.A {
				if i > 0 {
					d.WriteByte(' ')
				}
				d.WriteString(a.S.String())
			}
			d.WriteString(") " + t.S.String() + ")\n")
			s.decl(d.String())
		}
		if len(t.A) == 0 {
			sb.WriteString("|" + t.Name + "|")
		} else {
			sb.WriteString("(|" + t.Name + "|")
			args()
			sb.WriteByte(')')
		}
	case "extract":
		fmt.Fprintf(&sb, "((_ extract %d %d)", t.P1, t.P2)
		args()
		sb.WriteByte(')')
	case "zext":
		fmt.Fprintf(&sb, "((_ zero_extend %d)", t.P1)
		args()
		sb.WriteByte(')')
	case "sext":
		fmt.Fprintf(&sb, "((_ sign_extend %d)", t.P1)
		args()
		sb.WriteByte(')')
	case "int2bv":
		fmt.Fprintf(&sb, "((_ int2bv %d)", t.P1)
		args()
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.Op)
		args()
		sb.WriteByte(')')
	}
	s.decl("(define-fun " + name + " () " + t.S.String() + " " + sb.String() + ")\n")
	s.emitted[t.ID] = true
	return name
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		s.buf.WriteString("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readAnswer() string {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.broken = true
			return "error eof"
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line
	}
}

// Check decides pc /\ extra. The extra term may be nil.
func (s *Solver) Check(pc []*Term, extra *Term) string {
	return s.check(pc, extra, nil, nil)
}

// Model decides pc /\ extra and, when satisfiable, evaluates the terms.
func (s *Solver) Model(pc []*Term, extra *Term, want []*Term) (string, []*Term) {
	var vals []*Term
	r := s.check(pc, extra, want, &vals)
	return r, vals
}

func (s *Solver) check(pc []*Term, extra *Term, want []*Term, vals *[]*Term) string {
	if extra != nil && extra.IsConst() {
		if !extra.B {
			return "unsat"
		}
		extra = nil
	}
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	if len(s.emitted) > 400000 {
		s.restart()
	}
	s.sync(pc)
	pushed := false
	if extra != nil {
		r := s.ref(extra)
		s.buf.WriteString("(push 1)\n(assert " + r + ")\n")
		pushed = true
	}
	wrefs := make([]string, len(want))
	for i, w := range want {
		wrefs[i] = s.ref(w)
	}
	s.buf.WriteString("(check-sat)\n")
	s.Stats.Queries++
	s.flush()
	if d := os.Getenv("VERIF_SLOWDUMP"); d != "" {
		t0 := time.Now()
		defer func() {
			if time.Since(t0) > 2*time.Second {
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, time.Now().UnixNano()), []byte(s.dump(pc, extra)), 0644)
			}
		}()
	}
	r := s.readAnswer()
	if strings.HasPrefix(r, "(error") || strings.HasPrefix(r, "error") {
		fmt.Fprintln(os.Stderr, "solver:", r)
		if d := os.Getenv("VERIF_SMTDUMP"); d != "" {
			os.WriteFile(d, []byte(s.dump(pc, extra)), 0644)
		}
		s.restart()
		s.Stats.Unknown++
		return "unknown"
	}
	if r == "sat" && vals != nil && len(want) > 0 {
		s.buf.WriteString("(get-value (" + strings.Join(wrefs, " ") + "))\n")
		s.flush()
		txt := s.readSexp()
		vs, err := parseValues(s.pool, txt, want)
		if err != nil {
			fmt.Fprintln(os.Stderr, "solver model:", err)
			r = "unknown"
		} else {
			*vals = vs
		}
	}
	if pushed {
		s.buf.WriteString("(pop 1)\n")
	}
	switch r {
	case "sat":
		s.Stats.Sat++
	case "unsat":
		s.Stats.Unsat++
		if s.cross {
			if o := s.cvc5(pc, extra, 20); o == "sat" {
				s.Stats.CrossDiff++
				return "unknown"
			} else if o == "unsat" {
				s.Stats.CrossChecked++
			}
		}
	default:
		o := s.cvc5(pc, extra, 20)
		s.Stats.Fallback++
		if o == "unsat" {
			s.Stats.Unsat++
			return o
		}
		s.Stats.Unknown++
		return "unknown"
	}
	return r
}

func (s *Solver) dump(pc []*Term, extra *Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString(preludeDefs)
	sb.WriteString(s.decls.String())
	for _, t := range pc {
		sb.WriteString("(assert " + s.ref(t) + ")\n")
	}
	if extra != nil {
		sb.WriteString("(assert " + s.ref(extra) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (s *Solver) cvc5(pc []*Term, extra *Term, sec int) string {
	txt := s.dump(pc, extra)
	cmd := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), "-")
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	r := strings.TrimSpace(string(out))
	if i := strings.IndexByte(r, '\n'); i >= 0 {
		r = r[:i]
	}
	return r
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	bar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.broken = true
			return sb.String()
		}
		if b == '|' {
			bar = !bar
		}
		if !bar {
			if b == '(' {
				depth++
				started = true
			}
			if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if started && depth == 0 {
			return sb.String()
		}
	}
}

type sexp struct {
	atom string
	l    []*sexp
}

func parseSexp(s string, i *int) *sexp {
	for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
		*i++
	}
	if *i >= len(s) {
		return nil
	}
	if s[*i] == '(' {
		*i++
		e := &sexp{l: []*sexp{}}
		for {
			for *i < len(s) && (s[*i] == ' ' || s[*i] == '\n' || s[*i] == '\t' || s[*i] == '\r') {
				*i++
			}
			if *i >= len(s) {
				return e
			}
			if s[*i] == ')' {
				*i++
				return e
			}
			e.l = append(e.l, parseSexp(s, i))
		}
	}
	j := *i
	if s[j] == '|' {
		j++
		for j < len(s) && s[j] != '|' {
			j++
		}
		j++
	} else {
		for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
			j++
		}
	}
	a := s[*i:j]
	*i = j
	return &sexp{atom: a}
}

func parseRat(e *sexp) *big.Rat {
	if e.l == nil {
		r, ok := new(big.Rat).SetString(e.atom)
		if !ok {
			return nil
		}
		return r
	}
	if len(e.l) == 2 && e.l[0].atom == "-" {
		r := parseRat(e.l[1])
		if r == nil {
			return nil
		}
		return r.Neg(r)
	}
	if len(e.l) == 3 && e.l[0].atom == "/" {
		a, b := parseRat(e.l[1]), parseRat(e.l[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return a.Quo(a, b)
	}
	return nil
}

func parseValues(p *TermPool, txt string, want []*Term) ([]*Term, error) {
	i := 0
	e := parseSexp(txt, &i)
	if e == nil || len(e.l) != len(want) {
		return nil, fmt.Errorf("bad get-value answer: %.200s", txt)
	}
	out := make([]*Term, len(want))
	for k, pr := range e.l {
		if len(pr.l) != 2 {
			return nil, fmt.Errorf("bad pair")
		}
		v := pr.l[1]
		switch want[k].S.K {
		case KBool:
			out[k] = p.Bool(v.atom == "true")
		case KBV:
			a := v.atom
			z := new(big.Int)
			ok := false
			if strings.HasPrefix(a, "#x") {
				_, ok = z.SetString(a[2:], 16)
			} else if strings.HasPrefix(a, "#b") {
				_, ok = z.SetString(a[2:], 2)
			}
			if !ok {
				return nil, fmt.Errorf("bad bv %s", a)
			}
			if want[k].S.W <= 64 {
				out[k] = p.BV(z.Uint64(), want[k].S.W)
			} else {
				out[k] = p.tFals // wide values are not needed
			}
		case KInt:
			r := parseRat(v)
			if r == nil || !r.IsInt() {
				return nil, fmt.Errorf("bad int")
			}
			out[k] = p.IntC(new(big.Int).Set(r.Num()))
		case KReal:
			r := parseRat(v)
			if r == nil {
				return nil, fmt.Errorf("bad real")
			}
			out[k] = p.RealC(r)
		}
	}
	return out, nil
}
