package main

// C15: sources of input.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

// step of a scripted reader: deliver n bytes together with err.
type step struct {
	n   int
	err error
}

type scriptReader struct {
	data  []byte
	steps []step
	i     int
	reads int
	over  bool // asked to deliver more than the buffer holds: split
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > 1_000_000 {
		panic("more than a million reads")
	}
	if r.i >= len(r.steps) {
		return 0, io.EOF
	}
	s := &r.steps[r.i]
	if s.n > len(p) {
		n := copy(p, r.data[:len(p)])
		r.data = r.data[n:]
		s.n -= n
		return n, nil
	}
	n := copy(p, r.data[:s.n])
	r.data = r.data[n:]
	r.i++
	if s.err != nil {
		r.i = len(r.steps)
		if s.err != io.EOF {
			r.steps = append(append([]step{}, r.steps...), step{0, s.err}) // a failed reader stays failed
		}
	}
	return n, s.err
}

type outcome struct {
	tree  string
	names string
	err   string
	bad   string
	e     error
}

func outcomeOf(pr *PR) outcome {
	o := outcome{bad: pr.bad(), e: pr.err}
	if pr.err != nil {
		o.err = pr.err.Error()
	}
	if pr.node != nil {
		o.tree = treeString(pr.node)
	}
	if pr.names != nil {
		o.names = fmt.Sprint(*pr.names)
	}
	return o
}

func (o outcome) same(p outcome) bool {
	return o.tree == p.tree && o.names == p.names && o.err == p.err && o.bad == p.bad
}

func (o outcome) String() string {
	if o.bad != "" {
		return o.bad
	}
	if o.err != "" {
		return "error: " + o.err
	}
	s := o.tree
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return "tree " + s
}

// long payloads: comparing large trees as text is too slow, so a digest
func outcomeDigest(pr *PR) outcome {
	o := outcome{bad: pr.bad(), e: pr.err}
	if pr.err != nil {
		o.err = pr.err.Error()
	}
	if pr.node != nil {
		h, n := uint64(14695981039346656037), 0
		st := []cst.Node{pr.node}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			n++
			for _, v := range []int{x.Type(), x.Pos(), x.End(), len(x.Childs())} {
				h = (h ^ uint64(v)) * 1099511628211
			}
			st = append(st, x.Childs()...)
		}
		o.tree = fmt.Sprintf("%d nodes, digest %x", n, h)
	}
	if pr.names != nil {
		o.names = fmt.Sprint(*pr.names)
	}
	return o
}

type srcParser struct {
	name string
	g    *Gram
	p    parser.LL1Parser
	t    *Theory
}

func srcParsers(c *Ctx) []srcParser {
	gs := []*Gram{
		mkGram(body(alt("a", 0), alt("b", 1), a0), body(alt("c", 0), a0)),
		mkGram(body(alt("ab", 1)), body(alt("a", 1), alt("b"))),
		mkGram(body(alt(1, 1)), body(a0)),
	}
	var r []srcParser
	for i, g := range gs {
		f := generate(c, g)
		if f.bad() != "" || f.err != nil {
			c.violate("no parser for an LL(1) grammar: "+f.bad()+fmt.Sprint(f.err), "grammar", g)
			return nil
		}
		r = append(r, srcParser{fmt.Sprint(i), g, parser.NewLL1Parser(*f.table, *f.names), analyse(g)})
	}
	return r
}

var errBroken = errors.New("the disk is on fire")

func srcFuel(n int) int64 { return 200_000 + 6000*int64(n) }

// scripts: all ways to deliver n bytes: every composition into chunks, with
// zero reads inserted by mask, ended in every way.
func scripts(n int, visit func(desc string, st []step, fail error) bool) {
	comps := [][]int{}
	if n == 0 {
		comps = [][]int{{}}
	} else {
		for m := 0; m < 1<<(n-1); m++ {
			var c []int
			cur := 1
			for k := 0; k < n-1; k++ {
				if m>>k&1 == 1 {
					c = append(c, cur)
					cur = 1
				} else {
					cur++
				}
			}
			comps = append(comps, append(c, cur))
		}
	}
	for _, comp := range comps {
		for z := 0; z < 1<<(len(comp)+1); z++ {
			var base []step
			for k, x := range comp {
				if z>>k&1 == 1 {
					base = append(base, step{0, nil})
				}
				base = append(base, step{x, nil})
			}
			if z>>len(comp)&1 == 1 {
				base = append(base, step{0, nil}, step{0, nil})
			}
			desc := fmt.Sprintf("reads %v", base)
			if !visit(desc+", end of input alone", base, nil) {
				return
			}
			if len(base) > 0 && z>>len(comp)&1 == 0 {
				w := append([]step{}, base...)
				w[len(w)-1].err = io.EOF
				if !visit(desc+", end of input with the last bytes", w, nil) {
					return
				}
			}
			for _, e := range []error{errBroken, io.ErrUnexpectedEOF} {
				for k := 0; k <= len(base); k++ {
					// failing alone after k reads
					w := append([]step{}, base[:k]...)
					if !visit(fmt.Sprintf("reads %v, then failing (%v)", w, e), append(w, step{0, e}), e) {
						return
					}
					if k > 0 {
						w := append([]step{}, base[:k]...)
						w[k-1].err = e
						if !visit(fmt.Sprintf("reads %v, failing (%v) together with the last bytes", w, e), w, e) {
							return
						}
					}
				}
			}
		}
	}
}

func isFailure(err, want error) bool {
	return err != nil && (errors.Is(err, want) || strings.Contains(err.Error(), want.Error()))
}

func checkScript(c *Ctx, sp srcParser, text string, want outcome, desc string, st []step, fail error, dig func(*PR) outcome) bool {
	c.st.Traces++
	c.st.Transitions += int64(len(st))
	own := []byte(text)
	rd := &scriptReader{data: own, steps: append([]step{}, st...)}
	pr := callParse(sp.p, rd, srcFuel(len(text)))
	o := dig(pr)
	if string(own) != text {
		c.violate("the bytes given were modified", "grammar", sp.g, "bytes", clip(text), "source", desc)
		return false
	}
	if fail == nil {
		if !o.same(want) {
			c.violate("the outcome depends on how the reader delivers the bytes", "grammar", sp.g, "bytes", clip(text), "source", desc, "as a string", want, "with this reader", o)
			return false
		}
		c.out("delivered completely")
		return true
	}
	if o.bad != "" || pr.err == nil || pr.node != nil || pr.names != nil || !isFailure(pr.err, fail) {
		c.violate("a reader failure is not returned", "grammar", sp.g, "bytes", clip(text), "source", desc, "got", o)
		return false
	}
	c.out("reader failure returned")
	return true
}

type kind struct {
	name string
	mk   func(w string) (src any, after func() string)
}

type hideReader struct{ r io.Reader }

func (h hideReader) Read(p []byte) (int, error) { return h.r.Read(p) }

func srcKinds(scratch string) []kind {
	none := func() string { return "" }
	return []kind{
		{"[]byte", func(w string) (any, func() string) {
			b := []byte(w)
			return b, func() string {
				if string(b) != w {
					return "the byte slice was modified"
				}
				return ""
			}
		}},
		{"[]byte inside a larger array", func(w string) (any, func() string) {
			big := []byte("<<" + w + "ab>>")
			return big[2 : 2+len(w)], func() string {
				if string(big) != "<<"+w+"ab>>" {
					return "memory around the byte slice was modified"
				}
				return ""
			}
		}},
		{"*bytes.Buffer", func(w string) (any, func() string) {
			b := bytes.NewBuffer([]byte(w))
			return b, func() string {
				if b.String() != w {
					return "the buffer was changed or consumed"
				}
				return ""
			}
		}},
		{"*bytes.Buffer partly consumed", func(w string) (any, func() string) {
			b := bytes.NewBufferString("xya" + w)
			b.Next(3)
			return b, none
		}},
		{"*bytes.Buffer written in pieces", func(w string) (any, func() string) {
			var b bytes.Buffer
			for i := range []byte(w) {
				b.WriteByte(w[i])
			}
			return &b, none
		}},
		{"*bytes.Buffer after an UnreadByte", func(w string) (any, func() string) {
			b := bytes.NewBufferString("q" + w)
			b.ReadByte()
			if len(w) > 0 {
				b.ReadByte()
				b.UnreadByte()
			}
			return b, none
		}},
		{"*strings.Reader", func(w string) (any, func() string) { return strings.NewReader(w), none }},
		{"*strings.Reader partly consumed", func(w string) (any, func() string) {
			r := strings.NewReader("ab" + w)
			r.Seek(2, io.SeekStart)
			return r, none
		}},
		{"*bytes.Reader", func(w string) (any, func() string) { return bytes.NewReader([]byte(w)), none }},
		{"*bytes.Reader partly consumed", func(w string) (any, func() string) {
			r := bytes.NewReader([]byte("ba" + w))
			r.ReadByte()
			r.ReadByte()
			return r, none
		}},
		{"*bufio.Reader", func(w string) (any, func() string) { return bufio.NewReaderSize(strings.NewReader(w), 16), none }},
		{"*io.LimitedReader", func(w string) (any, func() string) {
			return io.LimitReader(strings.NewReader(w+"abc"), int64(len(w))), none
		}},
		{"io.MultiReader", func(w string) (any, func() string) {
			return io.MultiReader(strings.NewReader(w[:len(w)/2]), strings.NewReader(""), bytes.NewBufferString(w[len(w)/2:])), none
		}},
		{"*io.SectionReader", func(w string) (any, func() string) {
			return io.NewSectionReader(strings.NewReader("a"+w+"b"), 1, int64(len(w))), none
		}},
		{"struct around a buffer whose Read delivers something else", func(w string) (any, func() string) {
			b := bytes.NewBufferString("abc")
			return maskBuffer{b, strings.NewReader(w)}, func() string {
				if b.String() != "abc" {
					return "the buffer behind the reader was consumed"
				}
				return ""
			}
		}},
		{"reader with many other methods", func(w string) (any, func() string) { return talkative{strings.NewReader(w)}, none }},
		{"pointer to a reader with many other methods", func(w string) (any, func() string) { return &talkative{strings.NewReader(w)}, none }},
		{"reader that is a string", func(w string) (any, func() string) { s := stringReader(w); return &s, none }},
		{"reader that is a byte slice", func(w string) (any, func() string) { s := bytesReader(w); return &s, none }},
		{"reader that is a function", func(w string) (any, func() string) { return funcReader(strings.NewReader(w).Read), none }},
		{"reader that uses the whole buffer as scratch space", func(w string) (any, func() string) { return greedy{strings.NewReader(w)}, none }},
		{"reader that delivers single bytes and uses the rest as scratch space", func(w string) (any, func() string) {
			return greedy{iotest.OneByteReader(strings.NewReader(w))}, none
		}},
		{"reader with the data and the end together", func(w string) (any, func() string) { return iotest.DataErrReader(strings.NewReader(w)), none }},
		{"io.TeeReader", func(w string) (any, func() string) {
			var b bytes.Buffer
			return io.TeeReader(strings.NewReader(w), &b), func() string {
				if b.String() != w {
					return "not exactly the delivered bytes were read"
				}
				return ""
			}
		}},
		{"*bufio.ReadWriter", func(w string) (any, func() string) {
			return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(w)), bufio.NewWriter(io.Discard)), none
		}},
		{"struct around a reader", func(w string) (any, func() string) { return hideReader{strings.NewReader(w)}, none }},
		{"*bytes.Buffer behind a plain reader", func(w string) (any, func() string) { return hideReader{bytes.NewBufferString(w)}, none }},
		{"*os.File", func(w string) (any, func() string) {
			f, err := os.CreateTemp(".", "src")
			must(err)
			os.Remove(f.Name())
			f.WriteString(w)
			f.Seek(0, io.SeekStart)
			return f, func() string { f.Close(); return "" }
		}},
		{"*io.PipeReader", func(w string) (any, func() string) {
			r, wr := io.Pipe()
			go func() {
				io.WriteString(wr, w)
				wr.Close()
			}()
			return r, func() string { r.Close(); return "" }
		}},
	}
}

type namedBytes []byte
type namedString string

// readers that are also something else: what Read delivers is what counts
type maskBuffer struct {
	*bytes.Buffer
	r io.Reader
}

func (m maskBuffer) Read(p []byte) (int, error) { return m.r.Read(p) }

// WriteTo agrees with Read, as its contract asks
func (m maskBuffer) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, hideReader{m.r}) }

type talkative struct{ r io.Reader }

func (t talkative) Read(p []byte) (int, error) { return t.r.Read(p) }
func (t talkative) String() string             { return "abc" }
func (t talkative) Bytes() []byte              { return []byte("aab") }
func (t talkative) Len() int                   { return 1 }
func (t talkative) Size() int64                { return 2 }
func (t talkative) Cap() int                   { return 0 }
func (t talkative) Name() string               { return "/dev/null" }
func (t talkative) Close() error               { return errBroken }
func (t talkative) Error() string              { return "not an error" }

type stringReader string

func (s *stringReader) Read(p []byte) (int, error) {
	if *s == "" {
		return 0, io.EOF
	}
	n := copy(p, *s)
	*s = (*s)[n:]
	return n, nil
}

type bytesReader []byte

func (b *bytesReader) Read(p []byte) (int, error) {
	if len(*b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, *b)
	*b = (*b)[n:]
	return n, nil
}

type funcReader func(p []byte) (int, error)

func (f funcReader) Read(p []byte) (int, error) { return f(p) }

// greedy: uses all of p as scratch space, as io.Reader allows
type greedy struct{ r io.Reader }

func (g greedy) Read(p []byte) (int, error) {
	n, err := g.r.Read(p)
	for i := n; i < len(p); i++ {
		p[i] = 'a'
	}
	return n, err
}

// mute errors: their texts and methods invite special treatment
type tempErr struct{ msg string }

func (e tempErr) Error() string   { return e.msg }
func (e tempErr) Temporary() bool { return true }
func (e tempErr) Timeout() bool   { return true }

var failures = []error{fmt.Errorf("broken pipe: %w", io.EOF), errors.New("EOF"), io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrShortWrite, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, bytes.ErrTooLarge, bufio.ErrBufferFull,
	errors.Join(io.EOF, io.ErrUnexpectedEOF), tempErr{"try again"}, tempErr{""}, &os.PathError{Op: "read", Path: "x", Err: io.EOF}, &os.PathError{Op: "read", Path: "x", Err: syscall.EAGAIN}, syscall.EINTR, syscall.EAGAIN, syscall.EIO}

func init() {
	register(&Property{ID: "C15", Title: "sources",
		Rule:   "states are (grammar, payload, delivery script) triples: every split of the payload into reads, every placement of empty reads, end of input alone or with the last bytes, a failure after every read with or without data; transitions are the reads; each script is executed on the real Parse and compared with the outcome for the plain string (which C01/C02/C08 bind to the reference)",
		Assume: []string{"readers honour the io.Reader contract and deliver a finite script", "the plain-string outcome is the baseline; its correctness is C01, C02 and C08"},
		Families: func(tier string) []Family {
			max := 4
			if tier == "thorough" {
				max = 6
			}
			payloads := allStrings("abc", max)
			if tier != "thorough" {
				payloads = append(payloads, "ababc", "aaaaa", "abaab", "bcbcb", "ab\x00ab", "\x00", "\xff\xfe")
			}
			var sps []srcParser
			ready := func(c *Ctx) bool {
				if sps == nil {
					sps = srcParsers(c)
				}
				return sps != nil
			}
			odd := append(append([]string{}, specialBytes...), dictWords()...)
			sizes := []int{}
			for i := 0; i <= 1200; i++ {
				if tier == "thorough" || i < 24 || (i > 500 && i < 530) || (i > 1010 && i < 1040) || i%97 == 0 {
					sizes = append(sizes, i)
				}
			}
			sizes = append(sizes, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32768, 32769, 65535, 65536, 65537, 100000)
			sizes = append(sizes, dictSizes(24, 1<<20)...)
			if tier == "thorough" {
				sizes = append(sizes, 1<<18, 1<<20, 1<<20+1)
			}
			return []Family{
				{Name: "scripts", Desc: fmt.Sprintf("3 grammars x %d payloads (all of length <=%d over a, b, c and special ones) x all delivery scripts", len(payloads), max), N: uint64(3 * len(payloads)), Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					sp, w := sps[i%3], payloads[i/3]
					pr := callParse(sp.p, w, srcFuel(len(w)))
					want := outcomeOf(pr)
					if ref := sp.t.run(w, false); want.bad != "" || (ref.Tree != nil) != (pr.err == nil) {
						c.violate("the plain string itself is parsed wrongly: "+want.String(), "grammar", sp.g, "input", clip(w))
						return
					}
					c.st.States++
					scripts(len(w), func(desc string, st []step, fail error) bool {
						c.st.States++
						return checkScript(c, sp, w, want, desc, st, fail, outcomeOf)
					})
					c.sample(func() string { return fmt.Sprintf("%s on %q: %s", sp.g, w, want) })
				}},
				{Name: "kinds", Desc: "every payload through strings, slices, buffers (also partly consumed), readers of the standard library, files and pipes, each parsed twice", N: uint64(3 * len(payloads)), Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					sp, w := sps[i%3], payloads[i/3]
					want := outcomeOf(callParse(sp.p, w, srcFuel(len(w))))
					for _, k := range srcKinds("") {
						src, after := k.mk(w)
						c.st.States++
						c.st.Traces++
						c.st.Transitions++
						o := outcomeOf(callParse(sp.p, src, srcFuel(len(w))))
						if !o.same(want) {
							c.violate("the outcome depends on the kind of source", "grammar", sp.g, "bytes", clip(w), "source", k.name, "as a string", want, "as this source", o)
							return
						}
						if d := after(); d != "" {
							c.violate(d, "grammar", sp.g, "bytes", clip(w), "source", k.name)
							return
						}
					}
				}},
				{Name: "failures", Desc: fmt.Sprintf("every payload x %d kinds of failures (wrapped and textual EOF, temporary, time-out, system errors) x after every byte, alone or with data, staying or followed by the rest of the bytes", len(failures)), N: uint64(3 * len(payloads)), Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					sp, w := sps[i%3], payloads[i/3]
					for _, e := range failures {
						for k := 0; k <= len(w); k++ {
							for mode := 0; mode < 4; mode++ {
								if k == 0 && mode&1 == 1 {
									continue
								}
								left, dead := w, false
								rd := funcReader(func(p []byte) (int, error) {
									if dead {
										if mode&2 == 0 {
											return 0, e // stays failed
										}
										if left == "" {
											return 0, io.EOF
										}
										n := copy(p, left)
										left = left[n:]
										return n, nil
									}
									at := len(w) - len(left)
									if at < k {
										n := copy(p, left[:k-at])
										left = left[n:]
										if mode&1 == 1 && len(w)-len(left) == k {
											dead = true
											return n, e
										}
										return n, nil
									}
									dead = true
									return 0, e
								})
								c.st.States++
								c.st.Traces++
								c.st.Transitions += int64(k + 1)
								pr := callParse(sp.p, rd, srcFuel(len(w)))
								if pr.bad() != "" || pr.err == nil || pr.node != nil || pr.names != nil || !isFailure(pr.err, e) {
									c.violate("a reader failure is not returned", "grammar", sp.g, "bytes", clip(w), "failure", fmt.Sprintf("%T %v after %d bytes, mode %d", e, e, k, mode), "got", outcomeOf(pr))
									return
								}
								c.out("reader failure returned")
							}
						}
					}
				}},
				{Name: "empty reads", Desc: "every payload with 1, 2, 50, 99, 100, 101, 128, 1000 and 5000 empty reads at the start, at the end, and between all bytes", N: uint64(3 * len(payloads)), Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					sp, w := sps[i%3], payloads[i/3]
					want := outcomeOf(callParse(sp.p, w, srcFuel(len(w))))
					for _, n := range []int{1, 2, 50, 99, 100, 101, 128, 1000, 5000} {
						idle := make([]step, n)
						for mode := 0; mode < 3; mode++ {
							if n == 5000 && i%5 != 0 {
								continue
							}
							var st []step
							if mode == 0 {
								st = append(st, idle...)
							}
							for range []byte(w) {
								st = append(st, step{1, nil})
								if mode == 2 {
									st = append(st, idle...)
								}
							}
							if mode == 1 {
								st = append(st, idle...)
							}
							c.st.States++
							if !checkScript(c, sp, w, want, fmt.Sprintf("%d empty reads, placement %d", n, mode), st, nil, outcomeOf) ||
								!checkScript(c, sp, w, want, fmt.Sprintf("%d empty reads, placement %d, then failing", n, mode), append(append([]step{}, st...), step{0, errBroken}), errBroken, outcomeOf) {
								return
							}
						}
					}
				}},
				{Name: "edges", Desc: fmt.Sprintf("a grammar of all byte strings: every byte pair, and %d special byte sequences at the start, end, middle and doubled, as string, slice, buffer and reader, compared with the reference machine", len(odd)), N: 65536 + uint64(len(odd)), Chunk: 64, Run: func(c *Ctx, i uint64) {
					if anyParser == nil {
						b := Body{a0}
						for k := 1; k < 256; k++ {
							b = append(b, alt(string([]byte{byte(k)}), 0))
						}
						g := mkGram(b)
						f := generate(c, g)
						if f.bad() != "" || f.err != nil {
							c.violate("no parser for an LL(1) grammar: "+f.bad()+fmt.Sprint(f.err), "grammar", g)
							return
						}
						anyParser = &srcParser{"any", g, parser.NewLL1Parser(*f.table, *f.names), analyse(g)}
					}
					var ws []string
					if i < 65536 {
						ws = []string{string([]byte{byte(i), byte(i >> 8)})}
						if i%16 == 0 {
							ws = append(ws, ws[0][:1], ws[0]+"x"+ws[0])
						}
					} else {
						s := odd[i-65536]
						ws = []string{s, s + "a", "a" + s, "a" + s + "b", s + s, s + "a" + s, s + s + "ab" + s + s}
						if len(s) < 12 {
							ws = append(ws, strings.Repeat(s, 400))
						}
					}
					for _, w := range ws {
						r := anyParser.t.run(w, false)
						c.st.States++
						var first outcome
						for k, src := range []any{w, []byte(w), bytes.NewBufferString(w), strings.NewReader(w), hideReader{strings.NewReader(w)}} {
							c.st.Traces++
							c.st.Transitions += int64(len(w) + 1)
							pr := callParse(anyParser.p, src, srcFuel(len(w)))
							o := outcomeOf(pr)
							if k == 0 {
								first = o
							}
							d := pr.bad()
							switch {
							case d != "":
							case r.Tree != nil && pr.err != nil:
								d = "a sentence is refused: " + pr.err.Error()
							case r.Tree == nil && pr.err == nil:
								d = "a string outside the language is accepted"
							case r.Tree != nil:
								d = diffTree(r.Tree, pr.node, "root")
							}
							if d == "" && !o.same(first) {
								d = "the outcome depends on the kind of source"
							}
							if d != "" {
								c.violate("the bytes parsed are not the bytes delivered: "+d, "bytes", clip(w), "source", fmt.Sprintf("%T", src))
								return
							}
						}
						c.out("delivered completely")
					}
				}},
				hugeFamily(false),
				{Name: "invalid", Desc: "nil and unsupported sources", N: 1, Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					s := "ab"
					var nb *bytes.Buffer
					var ni io.Reader
					bad := []any{nil, nb, ni, 1, 'a', 1.5, true, []rune("ab"), []string{"ab"}, &s, map[string]string{}, struct{}{}, bytes.Buffer{}, *bytes.NewBufferString("ab"), errBroken, func() string { return "ab" }, make(chan byte), namedBytes("ab"), namedString("ab"), [2]byte{'a', 'b'}, uintptr(3), byte('a')}
					for _, sp := range sps {
						for k, b := range bad {
							c.st.States++
							c.st.Traces++
							c.st.Transitions++
							pr := callParse(sp.p, b, 1_000_000)
							if pr.bad() != "" || pr.err == nil || pr.node != nil || pr.names != nil {
								c.violate("a nil or unsupported source is not refused with an error: "+outcomeOf(pr).String(), "grammar", sp.g, "source", fmt.Sprintf("%d: %T", k, b))
								return
							}
							c.out("refused")
						}
						// an empty slice is an empty text
						want := outcomeOf(callParse(sp.p, "", 1_000_000))
						for _, e := range []any{[]byte(nil), []byte{}, new(bytes.Buffer)} {
							if o := outcomeOf(callParse(sp.p, e, 1_000_000)); !o.same(want) {
								c.violate("an empty source is not the empty text", "grammar", sp.g, "source", fmt.Sprintf("%T", e), "got", o)
								return
							}
						}
					}
				}},
				{Name: "long", Desc: "payloads of sizes around 512, 1024, 4096, 65536 x chunk sizes 1, 7, 511, 512, 513, 4096, all x end of input alone/with data, and a failure at the very end and near buffer sizes", N: uint64(len(sizes)), Run: func(c *Ctx, i uint64) {
					if !ready(c) {
						return
					}
					n := sizes[i]
					sp := sps[0]
					w := strings.Repeat("abc", n/3+1)[:n]
					for _, text := range []string{w, w + "?"} {
						pr := callParse(sp.p, text, srcFuel(len(text)))
						want := outcomeDigest(pr)
						if want.bad != "" || (pr.err == nil) != (text == w) {
							c.violate("the plain string itself is parsed wrongly: "+want.String(), "grammar", sp.g, "input", clip(text))
							return
						}
						c.st.States++
						for _, ch := range []int{1, 7, 511, 512, 513, 4096, len(text) + 1} {
							if ch == 1 && n > 5000 {
								continue
							}
							var st []step
							for left := len(text); left > 0; left -= ch {
								st = append(st, step{min(left, ch), nil})
							}
							if !checkScript(c, sp, text, want, fmt.Sprintf("chunks of %d", ch), st, nil, outcomeDigest) {
								return
							}
							if len(st) == 0 {
								continue
							}
							st2 := append([]step{}, st...)
							st2[len(st2)-1].err = io.EOF
							if !checkScript(c, sp, text, want, fmt.Sprintf("chunks of %d, end of input with the last", ch), st2, nil, outcomeDigest) {
								return
							}
							st3 := append([]step{}, st...)
							st3[len(st3)-1].err = errBroken
							if !checkScript(c, sp, text, want, fmt.Sprintf("chunks of %d, failing with the last", ch), st3, errBroken, outcomeDigest) ||
								!checkScript(c, sp, text, want, fmt.Sprintf("chunks of %d, then failing", ch), append(append([]step{}, st...), step{0, errBroken}), errBroken, outcomeDigest) ||
								!checkScript(c, sp, text, want, fmt.Sprintf("chunks of %d, failing before the last", ch), append(append([]step{}, st[:len(st)-1]...), step{0, errBroken}), errBroken, outcomeDigest) {
								return
							}
						}
						for _, k := range srcKinds("") {
							src, after := k.mk(text)
							c.st.Traces++
							o := outcomeDigest(callParse(sp.p, src, srcFuel(len(text))))
							if !o.same(want) {
								c.violate("the outcome depends on the kind of source", "grammar", sp.g, "bytes", clip(text), "source", k.name, "as a string", want, "as this source", o)
								return
							}
							if d := after(); d != "" {
								c.violate(d, "grammar", sp.g, "bytes", clip(text), "source", k.name)
								return
							}
						}
					}
				}},
				{Name: "bnf", Desc: "the printed BNF grammar itself delivered to the BNF parser in chunks of every size 1..600 and by every kind of source", N: 600, Run: func(c *Ctx, i uint64) {
					if selfParser == nil {
						f := callFG(bnf.SelfGrammar(), 1<<40)
						if f.bad() != "" || f.err != nil {
							c.violate("no parser for the BNF grammar", "why", f.bad()+fmt.Sprint(f.err))
							return
						}
						selfParser = &srcParser{"bnf", bnfGram(), parser.NewLL1Parser(*f.table, *f.names), nil}
						selfText = bnf.SelfGrammar().String()
						selfWant = outcomeDigest(callParse(selfParser.p, selfText, 1<<40))
						if selfWant.bad != "" || selfWant.e != nil {
							c.violate("the printed BNF grammar is not parsed: "+selfWant.String(), "text", clip(selfText))
							return
						}
					}
					ch := int(i) + 1
					if tier != "thorough" && ch%10 > 1 {
						return
					}
					var st []step
					for left := len(selfText); left > 0; left -= ch {
						st = append(st, step{min(left, ch), nil})
					}
					c.st.States++
					checkScript(c, *selfParser, selfText, selfWant, fmt.Sprintf("chunks of %d", ch), st, nil, outcomeDigest)
				}},
			}
		}})
}

// byte sequences that programs are tempted to treat specially
var specialBytes = []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xff\xfe\x01\x01", "\x2b\x2f\x76", "\r\n", "\n", "\r", "\n\n", "\n\r", " ", "  ", "\t", "\v", "\f", "\x1a", "\x04", "\x7f", "\x1b[0m", "#!", "//", "\xc2\xa0", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\x8b", "\xe3\x80\x80",
	"\xc3\xa9", "e\xcc\x81", "\xc3", "\xa9\xc3", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xf0\x9f", "\xef\xbf\xbd", "\xef\xbf\xbe", "\xc0\x80", "\x00", "a\x00", "\\n", "\\0", "%00", "&amp;", "\x1f\x8b", "A", "\xc3\x89"}

var anyParser *srcParser

var selfParser *srcParser
var selfText string
var selfWant outcome
