package main

// C14: byte sets as mathematical sets.

import (
	"fmt"
	"math/bits"
	"strings"

	bs "github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
)

type mset [4]uint64

func (m *mset) add(b byte)     { m[b>>6] |= 1 << (b & 63) }
func (m *mset) remove(b byte)  { m[b>>6] &^= 1 << (b & 63) }
func (m mset) has(b byte) bool { return m[b>>6]>>(b&63)&1 == 1 }
func (m mset) list() []byte {
	r := []byte{}
	for i := 0; i < 256; i++ {
		if m.has(byte(i)) {
			r = append(r, byte(i))
		}
	}
	return r
}
func (m mset) len() int {
	n := 0
	for _, w := range m {
		n += bits.OnesCount64(w)
	}
	return n
}
func (m mset) union(o mset) mset {
	for i := range m {
		m[i] |= o[i]
	}
	return m
}
func (m mset) subset(o mset) bool {
	for i := range m {
		if m[i]&^o[i] != 0 {
			return false
		}
	}
	return true
}
func (m mset) String() string {
	l := m.list()
	if len(l) == 0 {
		return "[]"
	}
	var p []string
	for _, b := range l {
		p = append(p, fmt.Sprintf("%02X", b))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func build(m mset) bs.ByteSet {
	s := bs.New()
	for _, b := range m.list() {
		s.Add(b)
	}
	return s
}

// diffSet compares every query; "" when the set behaves as m.
func diffSet(m mset, s bs.ByteSet) string {
	for i := 0; i < 256; i++ {
		if s.Contains(byte(i)) != m.has(byte(i)) {
			return fmt.Sprintf("Contains(%d) = %v, want %v", i, s.Contains(byte(i)), m.has(byte(i)))
		}
	}
	return diffSetFew(m, s)
}

func diffSetFew(m mset, s bs.ByteSet) string {
	if s.Len() != m.len() {
		return fmt.Sprintf("Len() = %d, want %d", s.Len(), m.len())
	}
	l := s.Bytes()
	want := m.list()
	if string(l) != string(want) {
		return fmt.Sprintf("Bytes() = %v, want %v", l, want)
	}
	for i := range l {
		l[i] = ^l[i]
	}
	if string(s.Bytes()) != string(want) {
		return "changing the listing changed the set"
	}
	if s.String() != m.String() {
		return fmt.Sprintf("String() = %q, want %q", s.String(), m.String())
	}
	return ""
}

func diffPair(ma, mb mset, a, b bs.ByteSet) string {
	if a.Equal(b) != (ma == mb) {
		return fmt.Sprintf("Equal = %v, want %v", a.Equal(b), ma == mb)
	}
	if a.IsSubSet(b) != ma.subset(mb) {
		return fmt.Sprintf("IsSubSet = %v, want %v", a.IsSubSet(b), ma.subset(mb))
	}
	if a.IsSuperSet(b) != mb.subset(ma) {
		return fmt.Sprintf("IsSuperSet = %v, want %v", a.IsSuperSet(b), mb.subset(ma))
	}
	mu := ma.union(mb)
	u := a.Union(b)
	if d := diffSetFew(mu, u); d != "" {
		return "union: " + d
	}
	u.Add(7)
	u.Remove(255)
	u.Remove(0)
	if a.Len() != ma.len() || b.Len() != mb.len() {
		return "changing a union changed its operand"
	}
	return ""
}

var setBytes = []byte{0, 1, 63, 64, 127, 128, 191, 192, 254, 255, 62, 65}

func maskSet(k uint64) mset {
	var m mset
	for i, b := range setBytes {
		if k>>uint(i)&1 == 1 {
			m.add(b)
		}
	}
	return m
}

func pan(f func() string) (s string) {
	_, p, hang := guarded(5_000_000, func() { s = f() })
	if hang {
		return "an operation did not finish"
	}
	if p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return
}

func init() {
	register(&Property{ID: "C14", Title: "byte sets",
		Rule:   "states are byte sets (every subset of 10/12 boundary bytes, every set of one or two of the 256 values and their complements, every contiguous range), transitions are Add/Remove/Union on the real sets; every query is compared with a mathematical set in every state, every pair of explored states with each other",
		Assume: []string{"the reference is a 256-entry membership vector", "sets are reached through the exported operations only"},
		Families: func(tier string) []Family {
			nb := uint(10)
			depth := 5
			if tier == "thorough" {
				nb, depth = 12, 6
			}
			rep := func(c *Ctx, f func() string, what ...any) {
				if d := pan(f); d != "" {
					c.violate("a byte set misbehaves: "+d, what...)
				}
			}
			ops := []struct {
				n string
				f func(s *bs.ByteSet, m *mset)
			}{}
			for _, b := range []byte{0, 63, 64, 255} {
				b := b
				ops = append(ops, struct {
					n string
					f func(s *bs.ByteSet, m *mset)
				}{fmt.Sprintf("Add(%d)", b), func(s *bs.ByteSet, m *mset) { s.Add(b); m.add(b) }},
					struct {
						n string
						f func(s *bs.ByteSet, m *mset)
					}{fmt.Sprintf("Remove(%d)", b), func(s *bs.ByteSet, m *mset) { s.Remove(b); m.remove(b) }})
			}
			pow := uint64(1)
			for i := 0; i < depth; i++ {
				pow *= uint64(len(ops))
			}
			return []Family{
				{Name: "created", Desc: "New with every number of values from 0 to 1300 and around larger powers of two: all bytes in turn upwards, downwards and in strides, one byte repeated, a last byte unlike the others", N: 1300 + 3*6, Chunk: 8, Run: func(c *Ctx, i uint64) {
					n := int(i)
					if n >= 1300 {
						n = 1<<(11+(n-1300)/3) + (n-1300)%3 - 1
					}
					rep(c, func() string {
						for form := 0; form < 7; form++ {
							v := make([]byte, n)
							var m mset
							for k := range v {
								switch form {
								case 0:
									v[k] = byte(k)
								case 1:
									v[k] = byte(255 - k)
								case 2:
									v[k] = byte(k * 37)
								case 3:
									v[k] = 0
								case 4:
									v[k] = 200
								case 5:
									v[k] = 'a'
									if k == n-1 {
										v[k] = 'b'
									}
								case 6:
									v[k] = 128
									if k == 0 {
										v[k] = 127
									}
								}
								m.add(v[k])
							}
							was := string(v)
							c.st.States++
							c.st.Transitions += int64(n)
							c.st.Traces++
							s := bs.New(v...)
							if d := diffSet(m, s); d != "" {
								return fmt.Sprintf("New of %d values (form %d): %s", n, form, d)
							}
							if string(v) != was {
								return fmt.Sprintf("New of %d values changes them", n)
							}
							for k := range v {
								v[k] ^= 0x55
							}
							if d := diffSet(m, s); d != "" {
								return fmt.Sprintf("New of %d values, then overwritten: %s", n, d)
							}
						}
						return ""
					}, "number of values", n)
				}},
				{Name: "states", Desc: fmt.Sprintf("every subset of %d boundary bytes x every Add/Remove of them and of 3 more bytes", nb), N: 1 << nb, Chunk: 8, Run: func(c *Ctx, i uint64) {
					m := maskSet(i)
					rep(c, func() string {
						s := build(m)
						c.st.States++
						if d := diffSet(m, s); d != "" {
							return "built by Add: " + d
						}
						l := m.list()
						rev := bs.New()
						for k := len(l) - 1; k >= 0; k-- {
							rev.Add(l[k])
							rev.Add(l[k])
						}
						if d := diffSet(m, rev); d != "" {
							return "built by Add in decreasing order, twice: " + d
						}
						if d := diffSet(m, bs.New(append(l, l...)...)); d != "" {
							return "built by New: " + d
						}
						var down bs.ByteSet
						for k := 0; k < 256; k++ {
							down.Add(byte(k))
						}
						for k := 0; k < 256; k++ {
							if !m.has(byte(k)) {
								down.Remove(byte(k))
							}
						}
						if d := diffSet(m, down); d != "" {
							return "built from the full set by Remove: " + d
						}
						if !s.Equal(down) || !s.IsSubSet(down) || !s.IsSuperSet(down) {
							return "equal sets built differently do not compare equal"
						}
						for _, b := range append([]byte{2, 100, 200}, setBytes[:nb]...) {
							for _, add := range []bool{true, false} {
								c.st.Transitions++
								c.st.Traces++
								x, mx := s, m
								if add {
									x.Add(b)
									mx.add(b)
								} else {
									x.Remove(b)
									mx.remove(b)
								}
								if d := diffSet(mx, x); d != "" {
									return fmt.Sprintf("after %s of %d: %s", map[bool]string{true: "Add", false: "Remove"}[add], b, d)
								}
								if d := diffSet(m, s); d != "" {
									return fmt.Sprintf("the original changed with its copy (byte %d): %s", b, d)
								}
								if d := diffPair(m, mx, s, x); d != "" {
									return fmt.Sprintf("against its copy changed at %d: %s", b, d)
								}
							}
						}
						return ""
					}, "set", m)
					c.out(fmt.Sprintf("size %d", m.len()))
					c.sample(func() string { return m.String() })
				}},
				{Name: "values", Desc: "every byte value x: {x}, {x,y} for every y, complements; listing, rendering, algebra", N: 256, Run: func(c *Ctx, i uint64) {
					x := byte(i)
					rep(c, func() string {
						var mx, full mset
						mx.add(x)
						for k := 0; k < 256; k++ {
							full.add(byte(k))
						}
						comp := full
						comp.remove(x)
						sx, sc := bs.New(x), build(comp)
						for k := 0; k < 256; k++ {
							y := byte(k)
							c.st.States++
							c.st.Transitions += 3
							c.st.Traces++
							var my mset
							my.add(y)
							mxy := mx.union(my)
							sxy := bs.New(y, x)
							if d := diffSet(mxy, sxy); d != "" {
								return fmt.Sprintf("New(%d,%d): %s", y, x, d)
							}
							if d := diffPair(mx, my, sx, bs.New(y)); d != "" {
								return fmt.Sprintf("{%d} against {%d}: %s", x, y, d)
							}
							if d := diffPair(comp, mxy, sc, sxy); d != "" {
								return fmt.Sprintf("all but %d against {%d,%d}: %s", x, x, y, d)
							}
							z, mz := sc, comp
							z.Remove(y)
							mz.remove(y)
							if d := diffSet(mz, z); d != "" {
								return fmt.Sprintf("all but %d, Remove(%d): %s", x, y, d)
							}
							sxy.Remove(x)
							mxy.remove(x)
							if d := diffSet(mxy, sxy); d != "" {
								return fmt.Sprintf("New(%d,%d).Remove(%d): %s", y, x, x, d)
							}
						}
						return ""
					}, "byte", i)
				}},
				{Name: "ranges", Desc: "every contiguous range lo..hi of byte values", N: 256, Run: func(c *Ctx, i uint64) {
					rep(c, func() string {
						s, m := bs.New(), mset{}
						for hi := int(i); hi < 256; hi++ {
							s.Add(byte(hi))
							m.add(byte(hi))
							c.st.States++
							c.st.Transitions++
							c.st.Traces++
							if d := diffSet(m, s); d != "" {
								return fmt.Sprintf("range %d..%d: %s", i, hi, d)
							}
						}
						return ""
					}, "from", i)
				}},
				{Name: "pairs", Desc: fmt.Sprintf("all pairs of subsets of %d boundary bytes: union, equality, subset, superset", nb), N: 1 << nb, Run: func(c *Ctx, i uint64) {
					m := maskSet(i)
					rep(c, func() string {
						s := build(m)
						for k := uint64(0); k < 1<<nb; k++ {
							c.st.Transitions++
							c.st.Traces++
							o := maskSet(k)
							if d := diffPair(m, o, s, build(o)); d != "" {
								return fmt.Sprintf("against %v: %s", o, d)
							}
						}
						return ""
					}, "set", m)
				}},
				{Name: "sequences", Desc: fmt.Sprintf("all sequences of %d operations out of Add/Remove of 0, 63, 64, 255, with a full comparison after every operation", depth), N: pow, Chunk: 64, Run: func(c *Ctx, i uint64) {
					rep(c, func() string {
						var s bs.ByteSet
						var m mset
						k := i
						done := ""
						for d := 0; d < depth; d++ {
							o := ops[k%uint64(len(ops))]
							k /= uint64(len(ops))
							o.f(&s, &m)
							done += o.n + " "
							c.st.Transitions++
							if x := diffSet(m, s); x != "" {
								return "after " + done + ": " + x
							}
						}
						c.st.Traces++
						return ""
					}, "sequence", i)
				}},
			}
		}})
}
