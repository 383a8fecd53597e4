package main

// Which values an interpretation should try: what the value graphs compare,
// cut, match and measure their opaque parts with.

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// gather collects the constants that values are compared with
func (in *interp) gather(ns ...*Node) {
	in.pools = map[string][]V{}
	in.frags = map[string][]string{}
	in.lens = map[string][]int{}
	in.splits = map[string]string{}
	seenN := map[*Node]bool{}
	seenT := map[*Term]bool{}
	cs := map[string]bool{}
	ty := map[string]bool{}
	addKey := func(k string, v V) {
		if len(in.pools[k]) > 400 {
			return
		}
		for _, x := range in.pools[k] {
			if x == v {
				return
			}
		}
		in.pools[k] = append(in.pools[k], v)
	}
	add := func(t *Term, v V) { addKey(poolKey(t), v) }
	frag := func(n *Node, fs ...string) {
		for _, t := range sourcesOf(n) {
			k := poolKey(t)
		next:
			for _, f := range fs {
				if f == "" || len(f) > 60 {
					continue
				}
				for _, x := range in.frags[k] {
					if x == f {
						continue next
					}
				}
				in.frags[k] = append(in.frags[k], f)
			}
		}
	}
	whole := func(n *Node, ss ...string) {
		for _, t := range sourcesOf(n) {
			for _, s := range ss {
				add(t, s)
			}
		}
	}
	length := func(k string, cs ...int64) {
	next:
		for _, c := range cs {
			if c < 0 || c > 130 {
				continue
			}
			for _, x := range in.lens[k] {
				if x == int(c) {
					continue next
				}
			}
			in.lens[k] = append(in.lens[k], int(c))
		}
	}
	// a length is compared with c
	measured := func(n *Node, str bool, c int64) {
		for _, t := range leavesOf(n) {
			switch {
			case str:
				for _, k := range []int64{c - 1, c, c + 1} {
					if k >= 0 && k <= 200 {
						whole(leafOf(t), strings.Repeat("a", int(k)))
						if k > 3 {
							whole(leafOf(t), strings.Repeat("a", int(k)-2)+".b")
						}
					}
				}
			case t.op == "call" && (strings.HasPrefix(t.s, "strings.Split") || strings.HasPrefix(t.s, "re.Split")) && len(t.args) > 1 && c < 12:
				if sep, ok := t.args[1].constStr(); ok {
					for _, k := range []int64{c - 1, c, c + 1} {
						if k > 0 {
							whole(t.args[0], strings.Repeat("a"+sep, int(k-1))+"b")
							whole(t.args[0], strings.Repeat(sep, int(k-1)))
						}
					}
				}
			case t.op == "call" && strings.HasPrefix(t.s, "strings.Fields") && c < 12:
				for _, k := range []int64{c - 1, c, c + 1} {
					if k > 0 {
						whole(t.args[0], strings.Repeat("a ", int(k-1))+"b")
					}
				}
			default:
				length(poolKey(t), c-1, c, c+1)
			}
		}
	}
	var vt func(t *Term)
	var vn func(n *Node)
	vt = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if len(t.args) > 1 {
			switch t.op {
			case "comp", "exists", "sum", "lastof", "lastis", "lam", "first", "mealy", "fsm":
				for _, l := range leavesOf(t.args[0]) {
					in.gatherSplit(l)
				}
			}
		}
		switch t.op {
		case "c":
			if strings.HasPrefix(t.s, "s:") && len(t.s) > 2 && len(t.s) < 40 {
				cs[t.s[2:]] = true
			}
		case "eq":
			if t.args[1].leaf == nil || t.args[1].leaf.op != "c" {
				break
			}
			for _, l := range leavesOf(t.args[0]) {
				switch v := constV(t.args[1].leaf).(type) {
				case string:
					add(l, v)
					whole(leafOf(l), v)
					frag(leafOf(l), v)
					if l.op == "call" && (l.s == "strings.ToLower#0") {
						whole(leafOf(l), strings.ToUpper(v))
					}
					if l.op == "call" && (l.s == "path/filepath.Base#0" || l.s == "path.Base#0") {
						whole(leafOf(l), "a/"+v)
					}
				case int64:
					add(l, v)
					switch l.op {
					case "len":
						measured(l.args[0], l.s == "str", v)
					case "ix", "lin":
						length("el", v, v+1, v+2)
					case "index":
						if v > 31 && v < 127 {
							frag(l.args[0], string(rune(v)))
							whole(l.args[0], string(rune(v))+"a", "a"+string(rune(v)))
						}
					case "call":
						if strings.Contains(l.s, "Count") && len(l.args) > 1 && v < 10 {
							if s, ok := l.args[1].constStr(); ok {
								for k := v - 1; k <= v+1; k++ {
									if k >= 0 {
										whole(l.args[0], strings.Repeat("a"+s, int(k))+"b")
									}
								}
							}
						}
					}
				}
			}
		case "lt":
			c, _ := strconv.ParseInt(t.s, 10, 64)
			for _, l := range leavesOf(t.args[0]) {
				switch l.op {
				case "len":
					measured(l.args[0], l.s == "str", c)
				case "lin":
					parts := strings.Split(l.s, ",")
					k, _ := strconv.ParseInt(parts[0], 10, 64)
					for _, a := range l.args {
						for _, m := range leavesOf(a) {
							if m.op == "len" && len(parts) == 2 {
								measured(m.args[0], m.s == "str", c-k)
								measured(m.args[0], m.s == "str", k-c)
							}
						}
					}
				case "ix":
					length("el", c-1, c, c+1)
				default:
					add(l, c)
					add(l, c-1)
				}
			}
		case "prefix", "suffix", "contains":
			if s, ok := t.args[1].constStr(); ok {
				whole(t.args[0], s, "a"+s, s+"b", "a"+s+"b")
				frag(t.args[0], s)
			}
		case "cutb", "cuta", "chop":
			if s, ok := t.args[1].constStr(); ok {
				whole(t.args[0], "a"+s+"b", s+"b", "a"+s, "a"+s+"b"+s+"c")
				frag(t.args[0], s)
			}
		case "drop":
			if k, _ := strconv.Atoi(t.s); k > 0 && k < 60 {
				whole(t.args[0], strings.Repeat("a", k), strings.Repeat("a", k)+"b")
			}
		case "slt":
			whole(t.args[0], "a", "b", "B", "1.0")
			whole(t.args[1], "a", "b", "B", "1.0")
		case "is":
			ty[t.s] = true
		case "call", "bcall":
			in.gatherCall(t, whole, frag)
		}
		for _, a := range t.args {
			vn(a)
		}
	}
	vn = func(n *Node) {
		if seenN[n] {
			return
		}
		seenN[n] = true
		if n.leaf != nil {
			vt(n.leaf)
			return
		}
		vt(n.atom)
		vn(n.hi)
		vn(n.lo)
	}
	for _, n := range ns {
		vn(n)
	}
	for c := range cs {
		in.consts = append(in.consts, c)
	}
	sort.Strings(in.consts)
	for t := range ty {
		in.types = append(in.types, t)
	}
	sort.Strings(in.types)
}

// gatherSplit: strings that are gone through in parts
func (in *interp) gatherSplit(l *Term) {
	if l.op != "call" || len(l.args) < 2 {
		return
	}
	sep, x := "", l.args[0]
	switch l.s {
	case "re.Split#0":
		if r := l.args[0].leaf; r != nil && r.op == "re" {
			if p, ok := r.args[0].constStr(); ok {
				sep, x = "\n", l.args[1]
				if re, err := regexp.Compile(p); err != nil || !re.MatchString(sep) {
					if ss := reSamples(p); len(ss) > 0 {
						sep = ss[0]
					}
				}
			}
		}
	case "strings.Split#0", "strings.SplitN#0", "strings.SplitAfter#0":
		sep, _ = l.args[1].constStr()
	}
	if sep == "" {
		return
	}
	for _, s := range sourcesOf(x) {
		if k := poolKey(s); k != "el" {
			in.splits[k] = sep
		}
	}
}

// gatherCall: strings on which a library function does something
func (in *interp) gatherCall(t *Term, whole, frag func(*Node, ...string)) {
	name := strings.TrimSuffix(strings.TrimPrefix(t.s, "call:"), "#0")
	con := func(i int) (string, bool) {
		if i < len(t.args) {
			return t.args[i].constStr()
		}
		return "", false
	}
	if strings.HasPrefix(name, "re.") {
		if len(t.args) > 1 && t.args[0].leaf != nil && t.args[0].leaf.op == "re" {
			if p, ok := t.args[0].leaf.args[0].constStr(); ok {
				whole(t.args[1], reSamples(p)...)
			}
		}
		return
	}
	if len(t.args) == 0 {
		return
	}
	x := t.args[0]
	switch name {
	case "strings.TrimSpace", "strings.Fields":
		whole(x, " a", "a ", " ", "a b")
		frag(x, " ", "\t")
	case "strings.ToLower", "strings.ToUpper", "strings.ToTitle":
		whole(x, "Ab", "aB")
		frag(x, "A", "aB")
	case "strings.EqualFold":
		whole(x, "Ab", "ab")
		whole(t.args[1], "Ab", "ab")
		for i := range t.args {
			if s, ok := con(i); ok {
				whole(t.args[1-i], s, strings.ToUpper(s), strings.ToLower(s))
			}
		}
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ContainsAny", "strings.IndexAny", "strings.LastIndexAny":
		if s, ok := con(1); ok {
			for _, c := range s {
				frag(x, string(c))
				whole(x, string(c)+"a", "a"+string(c), "a"+string(c)+"b", string(c)+string(c)+"a")
			}
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Index", "strings.LastIndex", "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.Count", "strings.ReplaceAll", "strings.Replace":
		if s, ok := con(1); ok {
			frag(x, s)
			whole(x, "a"+s+"b", s+"a", "a"+s, "a"+s+"b"+s+"c", s+"a"+s+"b", s+s+"a", "b"+s+s)
		}
	case "path.Base", "path.Dir", "path.Clean", "path.Ext", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Clean", "path/filepath.Ext", "path/filepath.IsAbs",
		"path/filepath.Join", "path.Join":
		for _, a := range t.args {
			whole(a, "a/b/c", "/a/b", "a.b/c.d", "./a", "../b", "a/", "a/../b")
			frag(a, "/", "..", ".x")
		}
	case "strings.FieldsFunc", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.IndexFunc", "strings.LastIndexFunc", "strings.ContainsFunc":
		anyTerm(t.args[1], func(u *Term) bool {
			var c int64
			switch u.op {
			case "lt":
				c, _ = strconv.ParseInt(u.s, 10, 64)
			case "eq":
				if u.args[1].leaf != nil {
					c, _ = constV(u.args[1].leaf).(int64)
				}
			}
			for _, k := range []int64{c - 1, c} {
				if k > 8 && k < 127 {
					s := string(rune(k))
					frag(x, s)
					whole(x, "a"+s+"b", s+"a", "a"+s, "a"+s+"b"+s+"c"+s+"d")
				}
			}
			return false
		})
	case "strconv.Atoi":
		whole(x, "1", "10", "x", "-1")
	}
}

// sourcesOf: the values a string is made from
func sourcesOf(n *Node) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(n *Node, d int)
	rec = func(n *Node, d int) {
		for _, t := range leavesOf(n) {
			if seen[t] || t.op == "c" || len(out) > 8 {
				continue
			}
			seen[t] = true
			switch {
			case d < 8 && len(t.args) > 0 && (t.op == "drop" || t.op == "chop" || t.op == "cutb" || t.op == "cuta" || t.op == "slice" || t.op == "scat" ||
				t.op == "index" && t.args[0].leaf != nil && t.args[0].leaf.op == "call" && meaning[t.args[0].leaf.s] != nil ||
				t.op == "call" && meaning[t.s] != nil):
				for _, a := range t.args {
					rec(a, d+1)
				}
			default:
				out = append(out, t)
			}
		}
	}
	rec(n, 0)
	return out
}

// pathsApart: conditions under which two decision diagrams end in different leaves
func pathsApart(x, y *Node, max int) [][]lit {
	var out [][]lit
	seen := map[[2]int]int{}
	var walk func(x, y *Node, p []lit)
	walk = func(x, y *Node, p []lit) {
		if x == y || len(out) >= max || len(p) > 60 {
			return
		}
		k := [2]int{x.id, y.id}
		if seen[k] > 3 {
			return
		}
		seen[k]++
		if x.leaf != nil && y.leaf != nil {
			a, b := x.leaf, y.leaf
			if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 {
				for i := range a.args {
					walk(a.args[i], b.args[i], p[:len(p):len(p)])
				}
				return
			}
			out = append(out, append([]lit{}, p...))
			return
		}
		var a *Term
		switch {
		case x.leaf != nil:
			a = y.atom
		case y.leaf != nil:
			a = x.atom
		case x.atom.id < y.atom.id:
			a = x.atom
		default:
			a = y.atom
		}
		if x.leaf == nil && y.leaf == nil && x.atom != y.atom && x.atom.op == y.atom.op && x.atom.s == y.atom.s && len(x.atom.args) == len(y.atom.args) && len(p) < 30 {
			// the same question about different things
			for i := range x.atom.args {
				walk(x.atom.args[i], y.atom.args[i], p[:len(p):len(p)])
			}
		}
		xh, xl := cof(x, a)
		yh, yl := cof(y, a)
		walk(xl, yl, append(p[:len(p):len(p)], lit{a, false}))
		walk(xh, yh, append(p[:len(p):len(p)], lit{a, true}))
	}
	walk(x, y, nil)
	return out
}

// follow makes the interpretation prefer given truth values
func (in *interp) follow(p []lit) {
	in.force, in.given = map[*Term]bool{}, map[uint64]bool{}
	type parts struct{ pre, mid, suf, whole string }
	strs := map[string]*parts{}
	of := func(n *Node) []*parts {
		var out []*parts
		for _, t := range sourcesOf(n) {
			k := poolKey(t)
			if strs[k] == nil {
				strs[k] = &parts{}
			}
			out = append(out, strs[k])
		}
		return out
	}
	var take func(l lit, d int)
	take = func(l lit, d int) {
		switch l.t.op {
		case "bcall":
			in.force[l.t] = l.v
			if strings.HasPrefix(l.t.s, "call:re.") && l.v && len(l.t.args) > 1 && l.t.args[0].leaf != nil && l.t.args[0].leaf.op == "re" {
				if pat, ok := l.t.args[0].leaf.args[0].constStr(); ok {
					if ss := reSamples(pat); len(ss) > 0 {
						for _, q := range of(l.t.args[1]) {
							q.whole = ss[h64(in.seed, uint64(l.t.id))%uint64(len(ss))]
						}
					}
				}
			}
		case "eq":
			if l.v && l.t.args[1].leaf != nil && l.t.args[1].leaf.op == "c" {
				switch v := constV(l.t.args[1].leaf).(type) {
				case string:
					if x := l.t.args[0].leaf; x != nil {
						in.fav[poolKey(x)] = v
					}
					for _, q := range of(l.t.args[0]) {
						q.mid += v
					}
				case int64:
					if x := l.t.args[0].leaf; x != nil {
						in.fav[poolKey(x)] = v
						if x.op == "len" && x.args[0].leaf != nil {
							in.favLen[poolKey(x.args[0].leaf)] = int(v)
						}
					}
				}
			}
		case "lt":
			c, _ := strconv.ParseInt(l.t.s, 10, 64)
			if x := l.t.args[0].leaf; x != nil {
				if l.v {
					c--
				}
				in.fav[poolKey(x)] = c
				if x.op == "len" && x.args[0].leaf != nil && c >= 0 && c < 130 {
					in.favLen[poolKey(x.args[0].leaf)] = int(c)
				}
			}
		case "prefix", "suffix", "contains":
			if s, ok := l.t.args[1].constStr(); ok && l.v {
				for _, q := range of(l.t.args[0]) {
					switch l.t.op {
					case "prefix":
						q.pre += s
					case "suffix":
						q.suf = s + q.suf
					default:
						q.mid += "b" + s
					}
				}
			}
		case "exists":
			if l.v && d < 3 {
				n := l.t.args[1]
				for n.leaf == nil {
					b := n.hi != F
					if b && n.lo != F && h64(in.seed, uint64(n.id))%2 == 0 {
						b = false
					}
					take(lit{n.atom, b}, d+1)
					if b {
						n = n.hi
					} else {
						n = n.lo
					}
				}
			}
		}
	}
	for _, l := range p {
		take(l, 0)
	}
	for k, q := range strs {
		if q.whole != "" {
			in.fav[k] = q.whole
		} else if q.pre+q.mid+q.suf != "" {
			if _, ok := in.fav[k]; ok && h64(in.seed, hs(k))%2 == 0 {
				continue
			}
			in.fav[k] = q.pre + q.mid + "a" + q.suf
			if h64(in.seed, hs(k), 3)%3 == 0 {
				in.fav[k] = q.pre + q.mid + q.suf
			}
		}
	}
}
