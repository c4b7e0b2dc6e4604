package main

// Systematic exploration of the inputs of one grammar: a breadth-first search
// over the states of the reference machine, where the environment chooses the
// next byte or end of input.

type inputs struct {
	t        *Theory
	sigma    []byte
	maxLen   int
	maxNodes int
}

func sigmaOf(g *Gram) []byte {
	var seen [256]bool
	var r []byte
	for _, b := range g.Rules {
		for _, a := range b {
			for _, s := range a {
				if !s.NT {
					for k := 0; k < len(s.T); k++ {
						if !seen[s.T[k]] {
							seen[s.T[k]] = true
							r = append(r, s.T[k])
						}
					}
				}
			}
		}
	}
	// one byte the grammar never uses, and the zero byte
	for _, f := range []byte{'~', '#', 0x80, 1} {
		if !seen[f] {
			r = append(r, f)
			break
		}
	}
	if !seen[0] {
		r = append(r, 0)
	}
	return r
}

// each calls visit for every complete input in the explored space: every
// viable prefix followed by end of input, every viable prefix followed by a
// byte that cannot continue it, and the latter with one more byte.
// It returns states, transitions, and whether the node budget was reached.
func (in *inputs) each(visit func(w string, r RunResult) bool) (states, trans int64, capped bool) {
	queue := []string{""}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		states++
		trans++
		if !visit(p, in.t.run(p, false)) {
			return
		}
		for _, c := range in.sigma {
			q := p + string([]byte{c})
			trans++
			r := in.t.run(q, true)
			if r.Prefix {
				if len(q) <= in.maxLen {
					if len(queue)+int(states) < in.maxNodes {
						queue = append(queue, q)
					} else {
						capped = true
					}
				}
				continue
			}
			if !visit(q, in.t.run(q, false)) {
				return
			}
			for _, d := range []byte{in.sigma[0], 0} {
				x := q + string([]byte{d})
				if !visit(x, in.t.run(x, false)) {
					return
				}
			}
		}
	}
	return
}

// minHeights: height of the smallest derivation of each nonterminal (-1: none),
// and the alternative that attains it.
func minHeights(t *Theory) ([]int, []int) {
	n := len(t.g.Rules)
	h, best := make([]int, n), make([]int, n)
	for i := range h {
		h[i] = -1
	}
	for ch := true; ch; {
		ch = false
		for i, b := range t.g.Rules {
			for k, a := range b {
				m := 0
				for _, s := range a {
					if s.NT {
						if h[s.N] < 0 {
							m = -1
							break
						}
						if h[s.N]+1 > m {
							m = h[s.N] + 1
						}
					}
				}
				if m >= 0 && (h[i] < 0 || m < h[i]) {
					h[i], best[i] = m, k
					ch = true
				}
			}
		}
	}
	return h, best
}

// sentence derives one sentence: while the budget lasts the alternatives of a
// rule are used in rotation (strategy = offset), afterwards the smallest one.
func (t *Theory) sentence(strategy, budget, maxBytes int) (string, bool) {
	h, best := minHeights(t)
	if len(h) == 0 || h[0] < 0 {
		return "", false
	}
	use := make([]int, len(h))
	var out []byte
	stack := []Sym{N(0)}
	steps := 0
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if !s.NT {
			out = append(out, s.T...)
			continue
		}
		steps++
		if steps > 4_000_000 {
			return "", false
		}
		k := best[s.N]
		if budget > 0 && len(out) < maxBytes && len(stack) < 100000 {
			budget--
			b := t.g.Rules[s.N]
			for tries := 0; tries < len(b); tries++ {
				c := (use[s.N] + strategy) % len(b)
				use[s.N]++
				ok := true
				for _, x := range b[c] {
					if x.NT && h[x.N] < 0 {
						ok = false
					}
				}
				if strategy >= 100 && len(b[c]) == 0 && tries+1 < len(b) {
					continue // prefer non-empty alternatives
				}
				if ok {
					k = c
					break
				}
			}
		}
		a := t.g.Rules[s.N][k]
		for j := len(a) - 1; j >= 0; j-- {
			stack = append(stack, a[j])
		}
	}
	return string(out), true
}
