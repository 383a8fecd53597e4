package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// anchor: an observable function, compared with its reference
type anchor struct {
	pkg, name string
}

type outcome struct {
	res    []*Node
	traces map[string]*Node
	mem    map[string]*Node
	keys   map[string]*Term
	ev     *evaluator
}

func paramTerm(i int, typ types.Type) *Node {
	return opaque("param", strconv.Itoa(i)+paramTag, nil, typ)
}

// paramTag keeps the parameters of different pairs of functions apart, as they
// have different types
var paramTag string

func paramIndex(s string) int {
	if i := strings.IndexByte(s, '/'); i >= 0 {
		s = s[:i]
	}
	i, _ := strconv.Atoi(s)
	return i
}

// summarise computes the normal form of what a function does
func summarise(p *program, fn *ssa.Function, spec bool, boundary func(*ssa.Function) bool, pr *pairing, abstract bool, limit int) (o *outcome, why string) {
	nodeLimit = nodeCount + limit
	ev := newEvaluator(p)
	ev.spec = spec
	ev.abstractReporter = abstract
	ev.keepText = strings.Contains(fn.String(), "internal/reporter.")
	if pr != nil {
		ev.presets = pr.presets
		ev.panics = pr.panics
	}
	if boundary != nil {
		ev.boundary = boundary
	}
	if pr != nil {
		ev.effectsOf, ev.stickyOf = pr.effectsOf, pr.stickyOf
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				o, why = nil, u.msg
				return
			}
			panic(r)
		}
	}()
	ev.runInits()
	args := make([]*Node, len(fn.Params))
	for i, a := range fn.Params {
		args[i] = paramTerm(i, a.Type())
	}
	st := &state{mem: map[*Term]*Node{}}
	res, out := ev.callFn(fn, args, nil, st, nil, "")
	o = &outcome{traces: map[string]*Node{}, mem: map[string]*Node{}, keys: map[string]*Term{}, ev: ev}
	for _, r := range res {
		o.res = append(o.res, ev.snapshot(out, r))
	}
	for _, k := range byID(out.mem) {
		v := out.mem[k]
		if dumpMem {
			fmt.Printf("MEM %.200s = %.200s\n", showT(k, 0), show(v))
		}
		switch {
		case k.op == "pn":
			if v != F {
				o.traces["panic"] = v
			}
		case k.op == "tr":
			o.traces[k.s] = ev.snapshot(out, v)
		case k.op == "mc" || k.op == "sc":
			if t := k.args[0].leaf; rootOf(t).op == "param" || t.op == "param" {
				o.mem[showT(k, 0)] = ev.snapshot(out, v)
			}
		case rootOf(k).op == "param":
			o.mem[showT(k, 0)] = ev.snapshot(out, v)
			o.keys[showT(k, 0)] = k
		}
	}
	return o, ""
}

// errProj keeps of an error whether there is one and which sentinels it has
func errProj(e *Node) *Node {
	return mapLeaves(e, func(t *Term) *Node {
		if t == Nil.leaf || t.op == "bot" {
			return leafOf(t)
		}
		if t.op == "err" {
			var ss []string
			sentinels(t, &ss)
			sort.Strings(ss)
			return leafOf(mkTerm("err", strings.Join(ss, ","), nil, nil))
		}
		if knownNonNil(t) {
			return leafOf(mkTerm("err", "", nil, nil))
		}
		return ite(eqNode(leafOf(t), Nil), Nil, leafOf(mkTerm("err", "", nil, nil)))
	})
}

func sentinels(t *Term, out *[]string) {
	if t.op != "err" {
		return
	}
	if t.s != "" {
		*out = append(*out, t.s)
	}
	for _, a := range t.args {
		if a.leaf != nil {
			sentinels(a.leaf, out)
		}
	}
}

type diff struct {
	what, got, want, given string
	gotN, wantN            *Node
}

func compareOutcomes(fn *ssa.Function, a, b *outcome) []diff {
	var ds []diff
	if len(a.res) != len(b.res) {
		return []diff{{what: "signature", got: strconv.Itoa(len(a.res)), want: strconv.Itoa(len(b.res))}}
	}
	sig := fn.Signature.Results()
	ok := T
	ok2 := T
	for i := range a.res {
		if isErrorIface(sig.At(i).Type()) {
			x, y := errProj(a.res[i]), errProj(b.res[i])
			if differ(x, y) {
				ds = append(ds, diff{what: fmt.Sprintf("error result %d", i), got: show(x), want: show(y), gotN: x, wantN: y})
			}
			ok = and(ok, eqNode(x, Nil))
			ok2 = and(ok2, eqNode(y, Nil))
		}
	}
	for i := range a.res {
		if isErrorIface(sig.At(i).Type()) {
			continue
		}
		x, y := ite(ok, a.res[i], Bot), ite(ok2, b.res[i], Bot)
		if differ(x, y) {
			ds = append(ds, diff{what: fmt.Sprintf("result %d", i), got: show(x), want: show(y), gotN: x, wantN: y})
		}
	}
	keys := map[string]bool{}
	for k := range a.traces {
		keys[k] = true
	}
	for k := range b.traces {
		keys[k] = true
	}
	for k := range keys {
		x, y := a.traces[k], b.traces[k]
		if k == "panic" {
			if x == nil {
				x = F
			}
			if y == nil {
				y = F
			}
			if os.Getenv("SHOWPANICS") != "" {
				fmt.Printf("PANIC %s: %s\n", shortName(fn), show(x))
			}
			if w, yes := worse(x, y); yes {
				ds = append(ds, diff{what: "effects panic", got: show(w), want: "never", gotN: x, wantN: y})
			}
			continue
		}
		if x == nil {
			x = emptySeq
		}
		if y == nil {
			y = emptySeq
		}
		if differ(x, y) {
			ds = append(ds, diff{what: "effects " + k, got: show(x), want: show(y), gotN: x, wantN: y})
		}
	}
	mk := map[string]bool{}
	for k := range a.mem {
		mk[k] = true
	}
	for k := range b.mem {
		mk[k] = true
	}
	for k := range mk {
		if a.mem[k] != b.mem[k] && (a.mem[k] == nil || b.mem[k] == nil || differ(a.mem[k], b.mem[k])) {
			ds = append(ds, diff{what: "memory " + k, got: show2(a.mem[k]), want: show2(b.mem[k]), gotN: a.mem[k], wantN: b.mem[k]})
		}
	}
	return ds
}

// interpreted counts the pairs of normal forms that had to be interpreted
var interpreted, toldApart int

// differ: the nodes are different terms, and some interpretation tells them apart
func differ(x, y *Node) bool {
	if x == y {
		return false
	}
	x = sameObjects(x, y)
	if x == y {
		return false
	}
	x, y = inContext(x, y)
	if x == y {
		return false
	}
	interpreted++
	t0 := time.Now()
	w, found, st := distinguish(x, y, modelLimit(), 40000000)
	ticksSpent += st.ticks
	if os.Getenv("TRACEINTERP") != "" {
		if s := os.Getenv("APARTOF"); s != "" {
			debugCalls(x, y, s)
		}
		for _, l := range apart(x, y, 6) {
			fmt.Println("APART", l)
		}
		fmt.Printf("INTERP found=%v seed=%d models=%d failed=%d ticks=%d watched=%d unseen=%d %v\n", found, w, st.models, st.failed, st.ticks, st.watched, len(st.unseen), time.Since(t0).Round(time.Millisecond))
		for _, t := range st.unseen {
			fmt.Printf("UNSEEN %s‹%s› %.250s\n", t.op, t.s, showT(t, 0))
		}
	}
	if found || st.models < 50 || len(st.unseen) > 0 {
		toldApart++
		return true
	}
	return false
}

func show2(n *Node) string {
	if n == nil {
		return "(unchanged)"
	}
	return show(n)
}

func cmdCmp(p *program, pkg, name string, verbose bool) {
	t0 := time.Now()
	fn := p.fn(pkg, name)
	sp := p.fn("internal/verifspec/"+pkg, name)
	if fn == nil || sp == nil {
		fmt.Println(pkg, name, "NOT FOUND", fn != nil, sp != nil)
		return
	}
	a, why := summarise(p, fn, false, nil, nil, false, 4000000)
	t1 := time.Now()
	if a == nil {
		fmt.Printf("%s.%s UNDECIDED %s (%v)\n", pkg, name, why, t1.Sub(t0))
		return
	}
	if verbose {
		for i, r := range a.res {
			fmt.Println("  res", i, show(r))
		}
		for k, r := range a.traces {
			fmt.Println("  trace", k, show(r))
		}
		for k, r := range a.mem {
			fmt.Println("  mem", k, show(r))
		}
		fmt.Println("  unknown externals:", a.ev.unknownEx)
	}
	b, why := summarise(p, sp, true, nil, nil, false, 4000000)
	if b == nil {
		fmt.Printf("%s.%s spec UNDECIDED %s\n", pkg, name, why)
		return
	}
	ds := compareOutcomes(fn, a, b)
	fmt.Printf("%s.%s %d diffs (%v + %v) nodes=%d\n", pkg, name, len(ds), t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond), nodeCount)
	for _, d := range ds {
		fmt.Println("   ", d.what)
		fmt.Println("      got ", d.got)
		fmt.Println("      want", d.want)
	}
}

var dumpMem = os.Getenv("DUMPMEM") != ""

// ticksSpent on interpretations so far; past a bound only few are tried
var ticksSpent int

func modelLimit() int {
	if ticksSpent > 1000000000 {
		return 2000
	}
	return 200000
}

// sameObjects renames the objects that x mentions to those at the same places
// of y
func sameObjects(x, y *Node) *Node {
	isObj := func(t *Term) bool { return t.op == "obj" }
	for try := 0; try < 6; try++ {
		if !anyTerm(x, isObj) {
			return x
		}
		to, from := map[string]string{}, map[string]string{}
		pairObjects(x, y, func(a, b *Term) {
			if a.s == b.s || strings.SplitN(a.s, "#", 2)[0] != strings.SplitN(b.s, "#", 2)[0] || to[a.s] != "" || from[b.s] != "" {
				return
			}
			to[a.s], from[b.s] = b.s, a.s
		})
		if len(to) == 0 {
			return x
		}
		// complete it to a permutation
		for b := range from {
			if to[b] == "" {
				a := b
				for from[a] != "" {
					a = from[a]
				}
				to[b] = a
			}
		}
		x2 := rewriteTerms(x, func(t *Term) *Term {
			if t.op == "obj" && to[t.s] != "" {
				return mkTerm("obj", to[t.s], t.args, t.typ)
			}
			return t
		})
		if x2 == y || x2 == x {
			return x2
		}
		x = x2
	}
	return x
}

func pairObjects(x, y *Node, f func(a, b *Term)) {
	seen := map[[2]*Node]bool{}
	var rn func(x, y *Node)
	rt := func(x, y *Term) {
		if x == y || x.op != y.op || len(x.args) != len(y.args) {
			return
		}
		if x.op == "obj" {
			f(x, y)
		} else if x.s != y.s {
			return
		}
		for i := range x.args {
			rn(x.args[i], y.args[i])
		}
	}
	rn = func(x, y *Node) {
		k := [2]*Node{x, y}
		if x == y || seen[k] {
			return
		}
		seen[k] = true
		switch {
		case x.leaf != nil && y.leaf != nil:
			rt(x.leaf, y.leaf)
		case x.leaf == nil && y.leaf == nil:
			rt(x.atom, y.atom)
			if x.atom == y.atom {
				rn(x.hi, y.hi)
				rn(x.lo, y.lo)
			}
		}
	}
	rn(x, y)
}

func debugCalls(x, y *Node, sub string) {
	get := func(n *Node) (out []*Term) {
		anyTerm(n, func(t *Term) bool {
			if strings.Contains(t.s, sub) && len(t.args) > 0 {
				out = append(out, t)
			}
			return false
		})
		return
	}
	xs, ys := get(x), get(y)
	fmt.Println("CALLS", len(xs), len(ys))
	for i, a := range xs {
		for j, b := range ys {
			if a == b {
				fmt.Println("  same", i, j)
				continue
			}
			if a.op == b.op && a.s == b.s {
				for k := range a.args {
					if a.args[k] != b.args[k] {
						_, found, _ := distinguish(a.args[k], b.args[k], 20000, 10000000)
						fmt.Println("  ", i, j, "arg", k, "found", found)
						for _, l := range apart(a.args[k], b.args[k], 3) {
							fmt.Println("     ", l)
						}
					}
				}
			}
		}
	}
}

// inContext: what a condition of a node decides is decided inside the terms
// below it too
func inContext(x, y *Node) (a, b *Node) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
			a, b = x, y
		}
	}()
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			return n
		}
		if r := memo[n]; r != nil {
			return r
		}
		hi, lo := n.hi, n.lo
		if t := n.atom; len(t.free) == 0 && t.bfree == 0 {
			hi = substitute(hi, map[*Term]*Node{t: T})
			lo = substitute(lo, map[*Term]*Node{t: F})
		}
		r := ite(atomNode(n.atom), rec(hi), rec(lo))
		memo[n] = r
		return r
	}
	return rec(x), rec(y)
}
