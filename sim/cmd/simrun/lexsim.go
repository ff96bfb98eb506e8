package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/token"

	"verif.local/sim/hook"
)

// A LexPlan is a set of lexers, each over a simulated reader, that caller threads run.
type LexPlan struct {
	Jobs []*LexJob `json:"jobs"`
}

// A LexJob is one lexer.
type LexJob struct {
	ID     int      `json:"id"`
	Th     int      `json:"th"`
	Text   []byte   `json:"text"`
	Chunks []*Chunk `json:"chunks,omitempty"` // what each Read gives; the rest comes in one piece
	Iter   bool     `json:"iter,omitempty"`   // through Iterator, instead of Next
	Extra  int      `json:"extra,omitempty"`  // calls of Next after the end
	EOFNow bool     `json:"eof_now,omitempty"`
	Shape  string   `json:"shape,omitempty"`  // what the reader can do besides Read
	Pre    []byte   `json:"pre,omitempty"`    // what lies before the text in a reader from memory, read already
	Post   []byte   `json:"post,omitempty"`   // what lies behind the text, for readers that end before it
	Sticky bool     `json:"sticky,omitempty"` // a failure stays
}

// A Chunk is the answer of one Read call.
type Chunk struct {
	N     int    `json:"n"`             // bytes
	Err   string `json:"err,omitempty"` // and an error along with them
	Fault string `json:"fault,omitempty"`
}

// LexObs is what one job saw.
type LexObs struct {
	Job    int      `json:"job"`
	St     string   `json:"st"`
	Msg    string   `json:"msg,omitempty"`
	Tokens []string `json:"tokens"`
	Failed bool     `json:"failed"` // the reader reported a failure
	Read   int      `json:"read"`   // bytes handed out
	Stuck  bool     `json:"stuck"`  // the reader gave nothing a hundred times in a row
	Fired  []string `json:"fired,omitempty"`
	done   bool
}

var errRead = errors.New("injected read failure")

// simReader is the reader of a job.
type simReader struct {
	job  *LexJob
	obs  *LexObs
	off  int
	i    int
	none int // reads in a row that gave nothing
	lex  *lexRun
	fail error // that stays
}

// passing is a failure that says it may pass.
type passing struct{}

func (passing) Error() string   { return "injected passing failure" }
func (passing) Temporary() bool { return true }
func (passing) Timeout() bool   { return true }

// ends is a failure that resembles the end of the input: in its text, or by what it says it is.
type ends struct{ is bool }

func (ends) Error() string          { return "EOF" }
func (e ends) Is(target error) bool { return e.is && target == io.EOF }

// manyErrs is a failure that cannot be compared.
type manyErrs []error

func (m manyErrs) Error() string { return "several failures" }

var readErrs = map[string]error{
	"fail": errRead, "unexpected": io.ErrUnexpectedEOF, "closed": io.ErrClosedPipe, "passing": passing{}, "deadline": os.ErrDeadlineExceeded,
	"eintr": syscall.EINTR, "eagain": syscall.EAGAIN, "wrapped": fmt.Errorf("reading: %w", errRead), "noprogress": io.ErrNoProgress,
	"short": io.ErrShortBuffer, "file": &os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	"wrapeof": fmt.Errorf("reading: %w", io.EOF), "texteof": ends{}, "iseof": ends{true}, "patheof": &os.PathError{Op: "read", Path: "x", Err: io.EOF},
	"gone": os.ErrClosed, "canceled": context.Canceled, "several": manyErrs{errRead, io.EOF},
}

// readErrKinds are those that a plan draws from.
var readErrKinds = []string{"fail", "fail", "unexpected", "closed", "passing", "passing", "deadline", "eintr", "eagain", "wrapped", "noprogress", "short", "file",
	"wrapeof", "texteof", "iseof", "patheof", "gone", "canceled", "several"}

// Read implements io.Reader.
func (r *simReader) Read(p []byte) (int, error) {
	hook.Pause()
	if r.fail != nil {
		return 0, r.fail
	}
	left := len(r.job.Text) - r.off
	n := left
	var c *Chunk
	if r.i < len(r.job.Chunks) {
		c = r.job.Chunks[r.i]
		r.i++
		n = c.N
	}
	if n > left {
		n = left
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p[:n], r.job.Text[r.off:])
	r.off += n
	r.obs.Read = r.off
	if c != nil {
		switch c.Fault {
		case "stall":
			r.obs.Fired = append(r.obs.Fired, "stall:reader")
			hook.Stall()
		case "panic":
			r.obs.Fired = append(r.obs.Fired, "panic:reader")
			r.obs.Failed = true
			panic(injected{"reader"})
		case "exit", "nil":
			r.obs.Fired = append(r.obs.Fired, "exit:reader")
			r.obs.Failed = true
			if c.Fault == "nil" {
				panic(nil) // to whoever recovers, it is as if nothing had happened
			}
			runtime.Goexit()
		case "reent":
			r.obs.Fired = append(r.obs.Fired, "reenter:reader")
			l := lexer.New(strings.NewReader("a = b, (c)"))
			l.Iterator()
		}
		if c.N == 0 {
			r.obs.Fired = append(r.obs.Fired, "zero-read")
		} else if n < left {
			r.obs.Fired = append(r.obs.Fired, "short-read")
		}
		if err := readErrs[c.Err]; err != nil {
			r.obs.Failed = true
			r.obs.Fired = append(r.obs.Fired, "read-error")
			if r.job.Sticky {
				r.fail = err
			}
			return n, err
		}
	}
	if n == left && r.job.EOFNow {
		if n > 0 {
			r.obs.Fired = append(r.obs.Fired, "eof-with-data")
		}
		return n, io.EOF
	}
	if left == 0 {
		return 0, io.EOF
	}
	r.none++
	if n > 0 {
		r.none = 0
	}
	if r.none == 100 {
		r.obs.Stuck = true
		r.obs.Fired = append(r.obs.Fired, "no-progress")
	}
	return n, nil
}

var readerShapes = []string{"runes", "runes", "bytes", "bytes", "rune", "byte", "bufio", "bufio16", "writerto", "closer", "strings", "bytes.Reader", "buffer", "bufio-memory", "section", "limited", "limited-sim", "multi", "tee", "seeked"}

// readers of a caller that can do more than Read; what else they can do reads on in the same text.
type (
	runeReader struct{ b *bufio.Reader }
	byteReader struct{ b *bufio.Reader }
	runeOnly   struct {
		io.Reader
		io.RuneReader
	}
	byteOnly struct {
		io.Reader
		io.ByteReader
	}
	writerTo struct{ b *bufio.Reader }
	closer   struct {
		io.Reader
		closed bool
	}
)

func (r *runeReader) Read(p []byte) (int, error)       { return r.b.Read(p) }
func (r *runeReader) ReadRune() (rune, int, error)     { return r.b.ReadRune() }
func (r *runeReader) UnreadRune() error                { return r.b.UnreadRune() }
func (r *byteReader) Read(p []byte) (int, error)       { return r.b.Read(p) }
func (r *byteReader) ReadByte() (byte, error)          { return r.b.ReadByte() }
func (r *byteReader) UnreadByte() error                { return r.b.UnreadByte() }
func (r *writerTo) Read(p []byte) (int, error)         { return r.b.Read(p) }
func (r *writerTo) WriteTo(w io.Writer) (int64, error) { return r.b.WriteTo(w) }

// Close is not the lexer's to call: who opened the reader closes it.
func (r *closer) Close() error { r.closed = true; return nil }

func (r *closer) Read(p []byte) (int, error) {
	if r.closed {
		return 0, io.ErrClosedPipe
	}
	return r.Reader.Read(p)
}

// shaped is the reader of the job in the shape that it asks for.
func shaped(job *LexJob, r *simReader) io.Reader {
	switch job.Shape {
	case "runes":
		return &runeReader{bufio.NewReaderSize(r, 16)}
	case "bytes":
		return &byteReader{bufio.NewReaderSize(r, 16)}
	case "rune":
		b := bufio.NewReaderSize(r, 16)
		return &runeOnly{b, b}
	case "byte":
		b := bufio.NewReaderSize(r, 16)
		return &byteOnly{b, b}
	case "bufio":
		return bufio.NewReader(r)
	case "bufio16":
		return bufio.NewReaderSize(r, 16)
	case "writerto":
		return &writerTo{bufio.NewReaderSize(r, 16)}
	case "closer":
		return &closer{Reader: r}
	case "limited-sim":
		return io.LimitReader(r, int64(len(job.Text)))
	case "tee":
		return io.TeeReader(r, &bytes.Buffer{})
	}
	// from memory: the chunks and their faults do not count
	all := append(append(append([]byte(nil), job.Pre...), job.Text...), job.Post...)
	pre, size := len(job.Pre), len(job.Text)
	to := all[:pre+size]
	var m io.Reader
	switch job.Shape {
	case "strings":
		m = strings.NewReader(string(to))
	case "bytes.Reader":
		m = bytes.NewReader(to)
	case "buffer":
		m = bytes.NewBuffer(to)
	case "bufio-memory":
		m = bufio.NewReader(strings.NewReader(string(to)))
	case "section":
		return io.NewSectionReader(bytes.NewReader(all), int64(pre), int64(size))
	case "multi":
		return io.MultiReader(bytes.NewReader(all[pre:pre+size/2]), strings.NewReader(string(all[pre+size/2:pre+size])))
	case "seeked":
		s := strings.NewReader(string(to))
		_, _ = s.Seek(int64(pre), io.SeekStart)
		return s
	case "limited":
		s := strings.NewReader(string(all))
		m = s
		_, _ = io.ReadFull(m, make([]byte, pre))
		return io.LimitReader(s, int64(size))
	default:
		return r
	}
	_, _ = io.ReadFull(m, make([]byte, pre))
	return m
}

type lexRun struct {
	plan *Plan
	obs  []*LexObs
	res  hook.Result
}

func tokenText(t token.Token) string { return string(t.Type) + "\x00" + t.Value }

func (l *lexRun) one(job *LexJob, ob *LexObs) (goOn bool) {
	finished := false
	defer func() {
		ob.done = true
		if finished {
			goOn = true
			return
		}
		if r := recover(); r != nil {
			ob.St, ob.Msg = "panic", panicText(r)
			goOn = true
			return
		}
		ob.St = "exit"
	}()
	r := &simReader{job: job, obs: ob, lex: l}
	lx := lexer.New(shaped(job, r))
	if job.Iter {
		it := lx.Iterator()
		for it.HasNext() {
			other := it.Is(token.EOF) || it.Is(token.Type("none"))
			var t token.Token
			for _, k := range []token.Type{token.Literal, token.Illegal} {
				if it.Is(k) {
					t.Type = k
				}
			}
			first := t.Type
			t = it.Next()
			s := tokenText(t)
			if (first == "") == (t.Type == token.Literal || t.Type == token.Illegal) || first != "" && first != t.Type || other {
				s += " Is says otherwise"
			}
			ob.Tokens = append(ob.Tokens, s)
		}
		if it.HasNext() || it.Is(token.Literal) || it.Is(token.EOF) {
			ob.Tokens = append(ob.Tokens, "HasNext or Is after the end")
		}
	} else {
		end := 0
		for len(ob.Tokens) < 2*len(job.Text)+16 {
			t := lx.Next()
			if t.Type == token.EOF {
				end++
				if end > job.Extra {
					break
				}
			}
			ob.Tokens = append(ob.Tokens, tokenText(t))
		}
	}
	ob.St = "ok"
	finished = true
	return true
}

func (l *lexRun) run() {
	p := l.plan
	hook.NewEpoch()
	per := make([][]int, p.Threads)
	for i, j := range p.Lex.Jobs {
		l.obs = append(l.obs, &LexObs{Job: j.ID})
		if j.Th < p.Threads {
			per[j.Th] = append(per[j.Th], i)
		}
	}
	bodies := make([]func(int), p.Threads)
	for t := range bodies {
		mine := per[t]
		bodies[t] = func(int) {
			for _, i := range mine {
				hook.Op(p.Lex.Jobs[i].ID)
				if !l.one(p.Lex.Jobs[i], l.obs[i]) {
					break
				}
			}
		}
	}
	l.res = hook.Run(hook.Cfg{
		MapSeed: p.MapSeed, Seed: p.Seed, PoolSeed: p.PoolSeed, Strategy: p.Strategy, P: p.P,
		Changes: p.Changes, Focus: p.Focus, Sync: p.Sync, Switches: p.Switches, StepCap: lexStepCap,
	}, bodies)
}

const lexStepCap = 20000000

func isIdentByte(c rune) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.' || c >= '0' && c <= '9'
}

var lexOps = map[rune]token.Type{
	'*': token.Asterisk, '=': token.Equals, ';': token.Semicolon, ',': token.Comma, ':': token.Colon, '(': token.LParen, ')': token.RParen,
}

var lexKeywords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING ORDER DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM") {
		m[w] = true
	}
	return m
}()

// lookup is the type of a word.
func lookup(w string) token.Type {
	if u := strings.ToUpper(w); lexKeywords[u] {
		return token.Type(u)
	}
	return token.Literal
}

// lexModel gives the tokens of a whole text: the sequence of Next, with extra further calls after the first
// end of input, or what Iterator yields.
func lexModel(text []byte, iter bool, extra int) []string {
	var out []string
	i := 0
	end := 0
	cur := func() (rune, int) {
		if i >= len(text) {
			return 0, 0
		}
		return utf8.DecodeRune(text[i:])
	}
	for {
		c, n := cur()
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i += n
			continue
		}
		if c == 0 {
			i += n
			if iter {
				return out
			}
			end++
			if end > extra {
				return out
			}
			out = append(out, tokenText(token.New(token.EOF, "")))
			if len(out) >= 2*len(text)+16 {
				return out
			}
			continue
		}
		if t, ok := lexOps[c]; ok {
			v := string(c)
			out = append(out, tokenText(token.New(t, v)))
			i += n
		} else if isIdentByte(c) {
			start := i
			for {
				c, n = cur()
				if !isIdentByte(c) {
					break
				}
				i += n
			}
			v := string(text[start:i])
			out = append(out, tokenText(token.New(lookup(v), v)))
		} else {
			out = append(out, tokenText(token.New(token.Illegal, string(c))))
			i += n
		}
		if len(out) >= 2*len(text)+16 && !iter {
			return out
		}
	}
}

// lexPieces are the sizes of the reads by which lone lexers get a text.
var lexPieces = []string{"", "1", "3", "509", "4095"}

// lexSolo runs a job alone, from memory, in reads of the given size at most.
func lexSolo(job *LexJob, piece string) *LexObs {
	j := *job
	j.Chunks, j.EOFNow, j.Th, j.Shape, j.Pre, j.Post = nil, false, 0, "", nil, nil
	if n, _ := strconv.Atoi(piece); n > 0 {
		for at := 0; at < len(j.Text); at += n {
			j.Chunks = append(j.Chunks, &Chunk{N: n})
		}
	}
	l := &lexRun{plan: &Plan{Threads: 1, MapSeed: 1, Lex: &LexPlan{Jobs: []*LexJob{&j}}}}
	l.run()
	return l.obs[0]
}

// cutRune says that the text ends within a character.
func cutRune(b []byte) bool {
	for i := 1; i <= utf8.UTFMax && i <= len(b); i++ {
		if c := b[len(b)-i]; utf8.RuneStart(c) {
			return c >= utf8.RuneSelf && !utf8.FullRune(b[len(b)-i:])
		}
	}
	return false
}

func equal(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func (l *lexRun) judge() *judged {
	j := &judged{stats: map[string]int{}}
	j.hash = 14695981039346656037
	add := func(ob *LexObs, relat bool, format string, a ...interface{}) {
		j.vs = append(j.vs, &Violation{Class: "lex", Slot: ob.Job, relat: relat, Op: ob.Job,
			Detail: fmt.Sprintf("lexer %d: ", ob.Job) + fmt.Sprintf(format, a...),
			Got:    ob.St + "\x02" + strings.Join(ob.Tokens, "\x02")})
	}
	if l.res.Deadlock {
		j.vs = append(j.vs, &Violation{Class: "deadlock", Detail: fmt.Sprintf("all remaining threads are blocked, in lexers %v", l.res.DeadOps)})
	}
	if l.res.BehindStall {
		j.vs = append(j.vs, &Violation{Class: "deadlock", Detail: fmt.Sprintf("lexers %v wait behind another lexer whose reader is stalled", l.res.DeadOps)})
	}
	if l.res.Overrun {
		j.vs = append(j.vs, &Violation{Class: "lex", Slot: l.res.DeadOps[0], Detail: fmt.Sprintf("no end after %d steps, in lexer %v", lexStepCap, l.res.DeadOps)})
	}
	for i, ob := range l.obs {
		job := l.plan.Lex.Jobs[i]
		for _, t := range ob.Tokens {
			for k := 0; k < len(t); k++ {
				j.hash = (j.hash ^ uint64(t[k])) * 1099511628211
			}
		}
		for k := 0; k < len(ob.St); k++ {
			j.hash = (j.hash ^ uint64(ob.St[k])) * 1099511628211
		}
		if !ob.done {
			continue
		}
		for _, f := range ob.Fired {
			j.stats["fault."+f]++
		}
		j.stats["op."+ob.St]++
		if job.Shape != "" {
			j.stats["shape."+job.Shape]++
		}
		j.stats["tokens"] += len(ob.Tokens)
		want := lexModel(job.Text, job.Iter, job.Extra)
		switch {
		case ob.Failed && ob.St == "ok" && bytes.IndexByte(job.Text, 0) >= 0:
			j.stats["ended-at-nul"]++ // a NUL ends the input, and the failure may lie behind it
		case ob.Failed && ob.St == "ok":
			add(ob, false, "its reader failed after %d bytes, and yet it ended as if the input were complete, with %d tokens", ob.Read, len(ob.Tokens))
		case ob.Failed || ob.Stuck && ob.St != "ok": // a reader that is stuck may be given up
			j.stats["failed-lexers"]++
			if got := job.Text[:ob.Read]; cutRune(got) {
				// the failure is in the middle of a character, whose first bytes count as illegal ones
				if t := lexModel(got, job.Iter, job.Extra); len(ob.Tokens) <= len(t) && equal(ob.Tokens, t[:len(ob.Tokens)]) {
					j.stats["cut-runes"]++
					continue
				}
			}
			if len(ob.Tokens) > len(want) {
				add(ob, true, "it gave %d tokens before its reader failed, of %d in the whole text", len(ob.Tokens), len(want))
				continue
			}
			for k := range ob.Tokens {
				if ob.Tokens[k] != want[k] {
					add(ob, true, "token %d before the read failure is %q instead of %q", k, ob.Tokens[k], want[k])
					break
				}
			}
		case ob.St == "panic":
			add(ob, true, "it panicked although its reader did not fail: %s", ob.Msg)
		case ob.St == "ok":
			j.stats["lexers"]++
			if len(want) != len(ob.Tokens) {
				add(ob, true, "it gave %d tokens instead of %d, as its reader cut the text", len(ob.Tokens), len(want))
				continue
			}
			for k := range want {
				if ob.Tokens[k] != want[k] {
					add(ob, true, "token %d is %q instead of %q", k, ob.Tokens[k], want[k])
					break
				}
			}
		}
	}
	return j
}

// lexGen draws a plan for the lexer.
func lexGen(g *gen, cold bool) *Plan {
	r := g.r
	p := g.p
	p.Threads = 1
	if cold || r.p(50) {
		p.Threads = 2 + r.n(4)
	}
	p.Lex = &LexPlan{}
	n := p.Threads + r.n(5)
	chorus := r.p(50)
	for i := 0; i < n; i++ {
		j := &LexJob{ID: i + 1, Th: i % p.Threads, Iter: r.p(40), Extra: r.n(3)}
		if j.Text = lexText(r); cold && i > 0 && chorus {
			j.Text = p.Lex.Jobs[0].Text
		}
		j.EOFNow = r.p(40)
		if r.p(35) {
			j.Shape = readerShapes[r.n(len(readerShapes))]
			if r.p(60) {
				j.Pre = []byte(r.pick("x", "SELECT ", "b, c = ", "é", strings.Repeat("u, ", 1400)))
				j.Post = []byte(r.pick("z", " = d", " AND", "\x00"))
			}
		}
		j.Sticky = r.p(50)
		chunks(r, j)
		p.Lex.Jobs = append(p.Lex.Jobs, j)
	}
	return p
}

var lexWords = []string{
	"SELECT", "select", "FROM", "INNER", "LEFT", "RIGHT", "JOIN", "ON", "AND", "OR", "WHERE", "IN", "AS", "t1.c1", "c2", "_x", "9a", "12", "a.b.c",
	"INSERT", "Into", "UPDATE", "SET", "limit", "x", "joins", "JOINT", "ORDER", "BY", "LEFTY",
	"=", "*", ",", ";", ":", "(", ")", "==", "((", "**", ":arg_1", "a=b", "a=b,c=d", "f(x)",
	"CROSS", "delete", "Group", "HAVING", "order", "DISTINCT", "Only", "USING", "returning", "VALUES", "conflict", "DO", "nothing", "With", "NOT", "exists", "COUNT", "max", "Min", "SUM", "offset", "DISTINCT ON",
	"\ufeff", "\ufeffSELECT", "\ufffd", "\ufffe", "\u200b", "\v", "\f", "\r", "\r\r\n", "\u0085", "\u0130", "ı", "ſelect", "K", "--", "/*", "*/",
	"é", "世界", "日", "naïve", "\xff", "\xe4\xb8", "𝒳", "\u00a0", "\u2028", "-", "'", `"`, "$1", "%", "\x00", "\x01", "#", "/",
}

func lexText(r *rng) []byte {
	var b []byte
	n := r.n(12)
	switch r.n(20) {
	case 0:
		n = 0
	case 1, 2:
		n = 50 + r.n(300)
	case 3:
		n = 1000 + r.n(3000) // beyond the size of the read buffer
	}
	long := r.p(10)
	if r.p(6) { // a character on the edge of the read buffer
		b = append(b, bytes.Repeat([]byte("ab "), 1360)...)
		b = append(b, strings.Repeat("c", 10+r.n(14))...)
	}
	for i := 0; i < n; i++ {
		w := lexWords[r.n(len(lexWords))]
		if r.p(3) {
			// binary noise
			w = ""
			for k := 1 + r.n(4); k > 0; k-- {
				w += string([]byte{byte(r.n(256))})
			}
		}
		if long && r.p(5) {
			w = strings.Repeat("w"+strconv.Itoa(r.n(10)), 1+r.n(3000))
			if r.p(8) {
				w = strings.Repeat("h", 65520+r.n(40))
			}
		}
		b = append(b, w...)
		if r.p(75) {
			b = append(b, r.pick(" ", " ", "\n", "\t", "  ", "\r\n")...)
		}
	}
	return b
}

// chunks decides how the reader of a job cuts its text, and how it fails.
func chunks(r *rng, j *LexJob) {
	size := len(j.Text)
	mode := r.n(6)
	switch mode {
	case 0: // one byte at a time
		for i := 0; i < size && i < 4000; i++ {
			j.Chunks = append(j.Chunks, &Chunk{N: 1})
		}
	case 1: // in one piece
	case 2: // in halves of the buffer
		for i := 0; i*512 < size; i++ {
			j.Chunks = append(j.Chunks, &Chunk{N: 512 + r.n(3)})
		}
	default:
		left := size
		for left > 0 && len(j.Chunks) < 2000 {
			n := 1 + r.n(1+left)
			if r.p(60) {
				n = 1 + r.n(4)
			}
			j.Chunks = append(j.Chunks, &Chunk{N: n})
			left -= n
		}
	}
	insert := func(c *Chunk) {
		i := 0
		if len(j.Chunks) > 0 {
			i = r.n(len(j.Chunks) + 1)
		}
		if i == len(j.Chunks) && r.p(50) && i > 0 {
			i--
		}
		j.Chunks = append(j.Chunks[:i:i], append([]*Chunk{c}, j.Chunks[i:]...)...)
	}
	for k := r.n(4); k > 0 && r.p(60); k-- {
		c := &Chunk{}
		if r.p(20) {
			c.N = 1 + r.n(3)
		}
		if r.p(30) {
			c.Fault = r.pick("stall", "reent")
		}
		insert(c)
	}
	if r.p(6) { // no progress
		i := 0
		if len(j.Chunks) > 0 {
			i = r.n(len(j.Chunks))
		}
		var zeros []*Chunk
		k := 1 + r.n(20)
		if r.p(40) {
			k = 95 + r.n(40)
		}
		for ; k > 0; k-- {
			zeros = append(zeros, &Chunk{})
		}
		j.Chunks = append(j.Chunks[:i:i], append(zeros, j.Chunks[i:]...)...)
	}
	if r.p(35) {
		c := &Chunk{N: r.n(3), Err: r.pick(readErrKinds...)}
		if r.p(15) {
			c = &Chunk{Fault: r.pick("panic", "panic", "exit", "nil")}
		}
		insert(c)
	}
}
