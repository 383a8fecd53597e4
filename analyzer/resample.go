package main

// Strings that a regular expression tells apart: members of its language, and
// members with a small change.

import (
	"hash/fnv"
	"math/rand"
	"regexp/syntax"
	"strings"
)

var reSamplesOf = map[string][]string{}

func reSamples(pat string) []string {
	if s, ok := reSamplesOf[pat]; ok {
		return s
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	h := fnv.New64a()
	h.Write([]byte(pat))
	r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if len(s) < 160 && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for i := 0; i < 24; i++ {
		var b strings.Builder
		sampleRe(re, r, &b)
		s := b.String()
		add(s)
		if i%3 == 0 && len(s) > 0 {
			// near misses
			k := r.Intn(len(s))
			switch r.Intn(5) {
			case 0:
				add(s[:k] + s[k+1:])
			case 1:
				add(s[:k] + string(" #@/-x:\""[r.Intn(8)]) + s[k:])
			case 2:
				add(s + string(" /#a;\\"[r.Intn(6)]))
			case 3:
				add(string(" a@~"[r.Intn(4)]) + s)
			case 4:
				add(strings.ToUpper(s))
			}
		}
	}
	reSamplesOf[pat] = out
	return out
}

const anyChars = "ab1.-_/@:#+ =\\\"'([,v0Z~"

func sampleRe(re *syntax.Regexp, r *rand.Rand, b *strings.Builder) {
	if b.Len() > 150 {
		return
	}
	switch re.Op {
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			s := string(c)
			if re.Flags&syntax.FoldCase != 0 && r.Intn(2) == 0 {
				s = strings.ToLower(s)
			}
			b.WriteString(s)
		}
	case syntax.OpCharClass:
		n := len(re.Rune) / 2
		if n == 0 {
			return
		}
		for try := 0; try < 8; try++ {
			k := r.Intn(n)
			lo, hi := re.Rune[2*k], re.Rune[2*k+1]
			if hi > 126 {
				hi = 126
			}
			if lo < 32 && hi >= 32 && r.Intn(4) > 0 {
				lo = 32
			}
			if lo > hi {
				continue
			}
			b.WriteRune(lo + rune(r.Intn(int(hi-lo)+1)))
			return
		}
		b.WriteRune(re.Rune[0])
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		b.WriteByte(anyChars[r.Intn(len(anyChars))])
	case syntax.OpCapture, syntax.OpConcat:
		for _, s := range re.Sub {
			sampleRe(s, r, b)
		}
	case syntax.OpAlternate:
		sampleRe(re.Sub[r.Intn(len(re.Sub))], r, b)
	case syntax.OpQuest:
		if r.Intn(2) == 0 {
			sampleRe(re.Sub[0], r, b)
		}
	case syntax.OpStar, syntax.OpPlus:
		n := []int{0, 1, 1, 2, 3, 4, 4, 5}[r.Intn(8)]
		if re.Op == syntax.OpPlus && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			sampleRe(re.Sub[0], r, b)
		}
	case syntax.OpRepeat:
		n := re.Min
		if re.Max > n {
			n += r.Intn(re.Max - n + 1)
		} else if re.Max < 0 {
			n += r.Intn(3)
		}
		for i := 0; i < n; i++ {
			sampleRe(re.Sub[0], r, b)
		}
	}
}
