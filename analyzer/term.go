package main

// Hash-consed terms and ordered decision diagrams over them.
//
// A Term is a value of the program in normal form; a Node is a value that
// depends on conditions: a reduced ordered decision diagram whose inner nodes
// test boolean terms (atoms) and whose leaves are terms. Both are shared, so
// that two values have the same normal form exactly if they are the same pointer.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type sigT [4]uint64

func (a *sigT) or(b *sigT) {
	for i := range a {
		a[i] |= b[i]
	}
}

func (a *sigT) has(b *sigT) bool {
	for i := range a {
		if a[i]&b[i] != b[i] {
			return false
		}
	}
	return true
}

func (a *sigT) meets(b *sigT) bool {
	for i := range a {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

type Term struct {
	id    int
	op    string
	s     string
	args  []*Node
	st    *types.Struct // set for opaque terms whose value is a struct
	typ   types.Type
	own   sigT
	sig   sigT
	free  []int  // loops whose (not yet closed) variables occur
	bfree uint64 // heights of bound variables that occur free
	h     int    // binder height
}

type Node struct {
	id     int
	atom   *Term
	hi, lo *Node
	leaf   *Term
	sig    sigT
	free   []int
	bfree  uint64
	h      int
}

var nodeLimit = 6_000_000

type undecided struct{ msg string }

func giveUp(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

var (
	terms     = map[string]*Term{}
	nodes     = map[[3]int]*Node{}
	leaves    = map[*Term]*Node{}
	allTerms  []*Term
	nodeCount int

	termTrue, termFalse *Term
	T, F                *Node
	Bot                 *Node
	Nil                 *Node
	iteMemo             = map[[3]int]*Node{}
	assumeMemo          = map[[3]int]*Node{}
)

func init() {
	termTrue = mkTerm("c", "b:true", nil, nil)
	termFalse = mkTerm("c", "b:false", nil, nil)
	T = leafOf(termTrue)
	F = leafOf(termFalse)
	Bot = leafOf(mkTerm("bot", "", nil, nil))
	Nil = leafOf(mkTerm("c", "nil", nil, nil))
}

func unionFree(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func hasFree(f []int, n int) bool {
	i := sort.SearchInts(f, n)
	return i < len(f) && f[i] == n
}

// number of arguments of a binder term that are outside the scope of its variable
func binderOuter(t *Term) (int, bool) { return binderOuterOp(t.op, t.s) }

func binderOuterOp(op, s string) (int, bool) {
	switch op {
	case "comp", "exists", "sum", "sorted", "lastof", "lastis", "lam", "first":
		return 1, true
	case "mealy", "fsm":
		n, _ := strconv.Atoi(strings.SplitN(s, ";", 2)[0])
		return 1 + n, true
	}
	return 0, false
}

func isVarOp(op string) bool {
	switch op {
	case "el", "ix", "key", "lv", "sa", "sb":
		return true
	}
	return false
}

func varName(s string) (fresh int, height int) {
	if i := strings.IndexAny(s, ".!"); i >= 0 {
		s = s[:i]
	}
	n, _ := strconv.Atoi(s[1:])
	if s[0] == '#' {
		return n, 0
	}
	return 0, n
}

func mkTerm(op, s string, args []*Node, typ types.Type) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(s)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t := terms[k]; t != nil {
		if t.st == nil && typ != nil {
			if st, ok := typ.Underlying().(*types.Struct); ok {
				t.st = canon(st)
			}
		}
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(allTerms), op: op, s: s, args: args, typ: typ}
	if typ != nil && op != "struct" {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			t.st = canon(st)
		}
	}
	x := uint64(t.id) * 0x9E3779B97F4A7C15
	b1, b2 := (x>>56)&255, (x>>40)&255
	t.own[b1/64] |= 1 << (b1 % 64)
	t.own[b2/64] |= 1 << (b2 % 64)
	t.sig = t.own
	outer, isBinder := binderOuterOp(op, s)
	hin := 0
	for i, a := range args {
		t.sig.or(&a.sig)
		t.free = unionFree(t.free, a.free)
		t.bfree |= a.bfree
		if a.h > t.h {
			t.h = a.h
		}
		if isBinder && i >= outer && a.h > hin {
			hin = a.h
		}
	}
	if isBinder {
		// the variable of this binder has the height that close() gave it
		bh := hin + 1
		var bf uint64
		for i, a := range args {
			if i < outer {
				bf |= a.bfree
			} else {
				bf |= a.bfree &^ (1 << bh)
			}
		}
		t.bfree = bf
		if bh > t.h {
			t.h = bh
		}
	}
	if isVarOp(op) {
		fr, ht := varName(s)
		if ht > 0 {
			t.bfree |= 1 << ht
		} else {
			t.free = unionFree(t.free, []int{fr})
		}
	}
	terms[k] = t
	allTerms = append(allTerms, t)
	return t
}

// height of the variable bound by binder term t
func binderHeight(t *Term) int {
	outer, _ := binderOuter(t)
	h := 0
	for i, a := range t.args {
		if i >= outer && a.h > h {
			h = a.h
		}
	}
	return h + 1
}

func leafOf(t *Term) *Node {
	if n := leaves[t]; n != nil {
		return n
	}
	nodeCount++
	n := &Node{id: nodeCount, leaf: t, sig: t.sig, free: t.free, bfree: t.bfree, h: t.h}
	leaves[t] = n
	return n
}

func (n *Node) isLeaf() bool { return n.atom == nil }

func (n *Node) isConst() bool { return n.leaf != nil && n.leaf.op == "c" }

func (n *Node) constStr() (string, bool) {
	if n.leaf != nil && n.leaf.op == "c" && strings.HasPrefix(n.leaf.s, "s:") {
		return n.leaf.s[2:], true
	}
	return "", false
}

func (n *Node) constInt() (int64, bool) {
	if n.leaf != nil {
		return termInt(n.leaf)
	}
	return 0, false
}

func termInt(t *Term) (int64, bool) {
	if t.op == "c" && strings.HasPrefix(t.s, "i:") {
		v, err := strconv.ParseInt(t.s[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func strT(s string) *Term { return mkTerm("c", "s:"+s, nil, nil) }
func intT(v int64) *Term  { return mkTerm("c", "i:"+strconv.FormatInt(v, 10), nil, nil) }
func Str(s string) *Node  { return leafOf(strT(s)) }
func Int(v int64) *Node   { return leafOf(intT(v)) }
func Bool(b bool) *Node {
	if b {
		return T
	}
	return F
}

func isBoolLeaf(n *Node) bool { return n == T || n == F }

// atomNode is the boolean value of atom t
func atomNode(t *Term) *Node {
	if t == termTrue {
		return T
	}
	if t == termFalse {
		return F
	}
	return mkRaw(t, T, F)
}

func mkRaw(a *Term, hi, lo *Node) *Node {
	if hi == lo {
		return hi
	}
	k := [3]int{a.id, hi.id, lo.id}
	if n := nodes[k]; n != nil {
		return n
	}
	nodeCount++
	if nodeCount > nodeLimit {
		giveUp("value graph too large")
	}
	n := &Node{id: nodeCount, atom: a, hi: hi, lo: lo}
	n.sig = a.sig
	n.sig.or(&hi.sig)
	n.sig.or(&lo.sig)
	n.free = unionFree(a.free, unionFree(hi.free, lo.free))
	n.bfree = a.bfree | hi.bfree | lo.bfree
	n.h = max(a.h, hi.h, lo.h)
	nodes[k] = n
	return n
}

func top(n *Node) int {
	if n.atom == nil {
		return 1 << 60
	}
	return n.atom.id
}

func structy(t *Term) bool { return t.op == "struct" || t.st != nil }

func structKeys(t *Term) []string {
	if t.op == "struct" {
		if t.s == "" {
			return nil
		}
		return strings.Split(t.s, "|")
	}
	return fieldKeys(t.st)
}

// mk builds the decision on a between hi and lo, applying what a says to both
func mk(a *Term, hi, lo *Node) *Node {
	if hi == lo {
		return hi
	}
	hi = assume(hi, a, true)
	lo = assume(lo, a, false)
	if hi == lo {
		return hi
	}
	if hi.leaf != nil && lo.leaf != nil {
		if n := mergeStructs(a, hi, lo); n != nil {
			return n
		}
		if a.op == "lt" && a.s == "1" {
			// x<=y ? x : y and x<y ? x : y are the same
			if d, ok := linDiff(hi, lo); ok && (d == a.args[0] || linNeg(d) == a.args[0]) {
				return mk(mkTerm("lt", "0", a.args, nil), hi, lo)
			}
		}
	}
	if top(hi) <= a.id || top(lo) <= a.id {
		m := a.id
		at := a
		if top(hi) < m {
			m, at = top(hi), hi.atom
		}
		if top(lo) < m {
			m, at = top(lo), lo.atom
		}
		if at == a {
			h1, _ := cof(hi, a)
			_, l0 := cof(lo, a)
			return mk(a, h1, l0)
		}
		h1, h0 := cof(hi, at)
		l1, l0 := cof(lo, at)
		var x, y *Node
		switch f, v := implied(at, true, a); {
		case !f:
			x = mk(a, h1, l1)
		case v:
			x = h1
		default:
			x = l1
		}
		switch f, v := implied(at, false, a); {
		case !f:
			y = mk(a, h0, l0)
		case v:
			y = h0
		default:
			y = l0
		}
		return mk(at, x, y)
	}
	return mkRaw(a, hi, lo)
}

func mergeStructs(a *Term, hi, lo *Node) *Node {
	h, l := hi.leaf, lo.leaf
	if !structy(h) && !structy(l) {
		return nil
	}
	var keys []string
	var ks string
	switch {
	case structy(h) && structy(l):
		keys = structKeys(h)
		ks = strings.Join(keys, "|")
		if ks != strings.Join(structKeys(l), "|") {
			return nil
		}
	case structy(h) && l.op == "bot":
		keys = structKeys(h)
		ks = strings.Join(keys, "|")
	case structy(l) && h.op == "bot":
		keys = structKeys(l)
		ks = strings.Join(keys, "|")
	default:
		return nil
	}
	if len(keys) == 0 {
		if structy(h) {
			return hi
		}
		return lo
	}
	args := make([]*Node, len(keys))
	for i, k := range keys {
		args[i] = mk(a, fieldOf(hi, k, nil), fieldOf(lo, k, nil))
	}
	return mkStruct(ks, args)
}

func cof(n *Node, a *Term) (*Node, *Node) {
	if n.atom == a {
		return n.hi, n.lo
	}
	return n, n
}

func ite(c, a, b *Node) *Node {
	if c == T || a == b {
		return a
	}
	if c == F {
		return b
	}
	if c == Bot {
		return Bot
	}
	if a == T && b == F {
		return c
	}
	if c.atom == nil {
		giveUp("condition is not boolean: %s", show(c))
	}
	k := [3]int{c.id, a.id, b.id}
	if r := iteMemo[k]; r != nil {
		return r
	}
	m, at := top(c), c.atom
	if top(a) < m {
		m, at = top(a), a.atom
	}
	if top(b) < m {
		m, at = top(b), b.atom
	}
	c1, c0 := cof(c, at)
	a1, a0 := cof(a, at)
	b1, b0 := cof(b, at)
	r := mk(at, ite(c1, a1, b1), ite(c0, a0, b0))
	iteMemo[k] = r
	return r
}

func and(ns ...*Node) *Node {
	r := T
	for _, n := range ns {
		r = ite(r, n, F)
	}
	return r
}

func or(ns ...*Node) *Node {
	r := F
	for _, n := range ns {
		r = ite(r, T, n)
	}
	return r
}

func not(n *Node) *Node        { return ite(n, F, T) }
func implies(a, b *Node) bool  { return and(a, not(b)) == F }
func disjoint(a, b *Node) bool { return and(a, b) == F }

// apply lifts f over the conditions of its arguments
func apply(ns []*Node, f func([]*Term) *Node) *Node {
	memo := map[string]*Node{}
	var rec func(ns []*Node) *Node
	rec = func(ns []*Node) *Node {
		m := 1 << 60
		var at *Term
		for _, n := range ns {
			if top(n) < m {
				m, at = top(n), n.atom
			}
		}
		if at == nil {
			ts := make([]*Term, len(ns))
			for i, n := range ns {
				if n == Bot {
					return Bot
				}
				ts[i] = n.leaf
			}
			return f(ts)
		}
		var sb strings.Builder
		for _, n := range ns {
			sb.WriteString(strconv.Itoa(n.id))
			sb.WriteByte(',')
		}
		k := sb.String()
		if r := memo[k]; r != nil {
			return r
		}
		his := make([]*Node, len(ns))
		los := make([]*Node, len(ns))
		for i, n := range ns {
			his[i], los[i] = cof(n, at)
		}
		for i := range ns {
			his[i] = assume(his[i], at, true)
			los[i] = assume(los[i], at, false)
		}
		r := mk(at, rec(his), rec(los))
		memo[k] = r
		return r
	}
	return rec(ns)
}

func apply1(n *Node, f func(*Term) *Node) *Node {
	return apply([]*Node{n}, func(t []*Term) *Node { return f(t[0]) })
}

func apply2(a, b *Node, f func(x, y *Term) *Node) *Node {
	return apply([]*Node{a, b}, func(t []*Term) *Node { return f(t[0], t[1]) })
}

// constrain simplifies f given that c holds
func constrain(f, c *Node) *Node {
	memo := map[[2]int]*Node{}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if c == T || c == F {
			return f
		}
		if f.leaf != nil && f.leaf.op != "struct" {
			return f
		}
		k := [2]int{f.id, c.id}
		if r := memo[k]; r != nil {
			return r
		}
		var r *Node
		if f.leaf != nil {
			args := make([]*Node, len(f.leaf.args))
			for i, a := range f.leaf.args {
				args[i] = rec(a, c)
			}
			r = mkStruct(f.leaf.s, args)
		} else if top(c) < top(f) {
			switch {
			case c.hi == F:
				r = rec(assume(f, c.atom, false), c.lo)
			case c.lo == F:
				r = rec(assume(f, c.atom, true), c.hi)
			default:
				r = rec(f, or(c.hi, c.lo))
			}
		} else {
			c1, c0 := cof(c, f.atom)
			switch {
			case c1 == F:
				r = rec(f.lo, c0)
			case c0 == F:
				r = rec(f.hi, c1)
			default:
				r = mk(f.atom, rec(f.hi, c1), rec(f.lo, c0))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// leavesOf lists the distinct leaves of n
func leavesOf(n *Node) []*Term {
	var out []*Term
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.leaf != nil {
			out = append(out, n.leaf)
			return
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return out
}

// atomsOf lists the distinct atoms of n
func atomsOf(n *Node) []*Term {
	var out []*Term
	seen := map[*Node]bool{}
	seenA := map[*Term]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] || n.leaf != nil {
			return
		}
		seen[n] = true
		if !seenA[n.atom] {
			seenA[n.atom] = true
			out = append(out, n.atom)
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return out
}

// condOf is the condition under which n has a leaf satisfying p
func condOf(n *Node, p func(*Term) bool) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if r := memo[n]; r != nil {
			return r
		}
		var r *Node
		if n.leaf != nil {
			r = Bool(p(n.leaf))
		} else {
			r = mk(n.atom, rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// mapLeaves replaces every leaf
func mapLeaves(n *Node, f func(*Term) *Node) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if r := memo[n]; r != nil {
			return r
		}
		var r *Node
		if n.leaf != nil {
			r = f(n.leaf)
		} else {
			r = ite(atomNode(n.atom), rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// anyTerm reports whether a term satisfying p occurs anywhere in n
func anyTerm(n *Node, p func(*Term) bool) bool {
	seenN := map[*Node]bool{}
	seenT := map[*Term]bool{}
	var rn func(n *Node) bool
	var rt func(t *Term) bool
	rt = func(t *Term) bool {
		if seenT[t] {
			return false
		}
		seenT[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if rn(a) {
				return true
			}
		}
		return false
	}
	rn = func(n *Node) bool {
		if seenN[n] {
			return false
		}
		seenN[n] = true
		if n.leaf != nil {
			return rt(n.leaf)
		}
		return rt(n.atom) || rn(n.hi) || rn(n.lo)
	}
	return rn(n)
}

func mentions(n *Node, t *Term) bool {
	if !n.sig.has(&t.own) {
		return false
	}
	return anyTerm(n, func(x *Term) bool { return x == t })
}

// ---- substitution ----

type subst struct {
	pre  func(*Term) *Term
	m    map[*Term]*Node
	sig  sigT // union of own signatures of keys
	memo map[*Node]*Node
	mt   map[*Term]*Node
}

func newSubst(m map[*Term]*Node) *subst {
	s := &subst{m: m, memo: map[*Node]*Node{}, mt: map[*Term]*Node{}}
	for t := range m {
		s.sig.or(&t.own)
	}
	return s
}

func (s *subst) touches(sig *sigT) bool {
	if s.pre != nil {
		return true
	}
	if len(s.m) > 6 {
		return sig.meets(&s.sig)
	}
	for t := range s.m {
		if sig.has(&t.own) {
			return true
		}
	}
	return false
}

func (s *subst) node(n *Node) *Node {
	if !s.touches(&n.sig) {
		return n
	}
	if r := s.memo[n]; r != nil {
		return r
	}
	var r *Node
	if n.leaf != nil {
		r = s.term(n.leaf)
	} else {
		r = ite(s.term(n.atom), s.node(n.hi), s.node(n.lo))
	}
	s.memo[n] = r
	return r
}

func (s *subst) term(t *Term) *Node {
	if r, ok := s.m[t]; ok {
		return r
	}
	if !s.touches(&t.sig) {
		return valueNode(t)
	}
	if r := s.mt[t]; r != nil {
		return r
	}
	t0 := t
	if s.pre != nil {
		t = s.pre(t)
	}
	var r *Node
	if len(t.args) == 0 {
		r = valueNode(t)
	} else if outer, ok := binderOuter(t); ok {
		n := newLoopID()
		args := openBinder(t, n)
		for i := range args {
			args[i] = s.node(args[i])
		}
		_ = outer
		r = closeBinder(t.op, t.s, n, args)
	} else {
		args := make([]*Node, len(t.args))
		changed := false
		for i, a := range t.args {
			args[i] = s.node(a)
			changed = changed || args[i] != a
		}
		if changed {
			r = rebuild(t, args)
		} else {
			r = valueNode(t)
		}
	}
	s.mt[t0] = r
	return r
}

// rewriteTerms replaces terms anywhere in n, also those with bound variables
func rewriteTerms(n *Node, pre func(*Term) *Term) *Node {
	return (&subst{pre: pre, memo: map[*Node]*Node{}, mt: map[*Term]*Node{}}).node(n)
}

func substitute(n *Node, m map[*Term]*Node) *Node {
	if len(m) == 0 {
		return n
	}
	return newSubst(m).node(n)
}

// valueNode is the value of term t: an atom for boolean terms
func valueNode(t *Term) *Node {
	if isAtom(t) {
		return atomNode(t)
	}
	return leafOf(t)
}

func isAtom(t *Term) bool {
	switch t.op {
	case "eq", "eq2", "lt", "slt", "has", "is", "prefix", "suffix", "contains", "erris", "exists", "fsm", "lastis", "bcall":
		return true
	}
	return false
}

// ---- loop variables ----

var loopIDs int
var loopDom = map[int]*Node{} // domain of a loop that is being evaluated

func newLoopID() int {
	loopIDs++
	return loopIDs
}

func loopVar(op string, n int, typ types.Type) *Node {
	t := mkTerm(op, "#"+strconv.Itoa(n), nil, typ)
	if isBoolType(typ) {
		return atomNode(mkTerm("bcall", "var", []*Node{leafOf(t)}, nil))
	}
	return leafOf(t)
}

func renameVars(n *Node, from, to string, prefixFree int, prefixBound int) *Node {
	memo := map[*Node]*Node{}
	memoT := map[*Term]*Node{}
	hit := func(free []int, bfree uint64) bool {
		if prefixFree > 0 {
			return hasFree(free, prefixFree)
		}
		return bfree&(1<<prefixBound) != 0
	}
	var rn func(n *Node) *Node
	var rt func(t *Term) *Node
	rt = func(t *Term) *Node {
		if !hit(t.free, t.bfree) {
			return valueNode(t)
		}
		if r := memoT[t]; r != nil {
			return r
		}
		var r *Node
		if isVarOp(t.op) {
			if t.s == from || strings.HasPrefix(t.s, from+".") || strings.HasPrefix(t.s, from+"!") {
				rest := t.s[len(from):]
				if i := strings.IndexByte(rest, '!'); i >= 0 {
					rest = rest[:i]
				}
				if prefixFree > 0 && to[0] == '%' {
					rest += typeTag(t.typ)
				}
				nt := mkTerm(t.op, to+rest, nil, t.typ)
				r = leafOf(nt)
			} else {
				r = leafOf(t)
			}
		} else if outer, ok := binderOuter(t); ok {
			// bound variables of inner binders are lower than the one renamed
			args := make([]*Node, len(t.args))
			for i, a := range t.args {
				args[i] = rn(a)
			}
			_ = outer
			r = valueNode(mkTerm(t.op, t.s, args, t.typ))
		} else {
			args := make([]*Node, len(t.args))
			for i, a := range t.args {
				args[i] = rn(a)
			}
			r = rebuild(t, args)
		}
		memoT[t] = r
		return r
	}
	rn = func(n *Node) *Node {
		if !hit(n.free, n.bfree) {
			return n
		}
		if r := memo[n]; r != nil {
			return r
		}
		var r *Node
		if n.leaf != nil {
			r = rt(n.leaf)
		} else {
			r = ite(rt(n.atom), rn(n.hi), rn(n.lo))
		}
		memo[n] = r
		return r
	}
	return rn(n)
}

// typeTag keeps bound variables of different types apart
func typeTag(t types.Type) string {
	switch {
	case t == nil:
		return ""
	case isIntType(t):
		return "!i"
	case isStringType(t):
		return "!s"
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		st = canon(st)
		var ks []string
		for _, k := range fieldKeys(st) {
			if !strings.HasPrefix(k, "+") {
				ks = append(ks, k)
			}
		}
		return "!{" + strings.Join(ks, "|") + "}"
	}
	return ""
}

// openBinder gives the arguments of binder t with its variable named #n
func openBinder(t *Term, n int) []*Node {
	outer, _ := binderOuter(t)
	h := binderHeight(t)
	args := make([]*Node, len(t.args))
	for i, a := range t.args {
		if i < outer {
			args[i] = a
		} else {
			args[i] = renameVars(a, "%"+strconv.Itoa(h), "#"+strconv.Itoa(n), 0, h)
		}
	}
	return args
}

// closeBinder builds the binder term whose arguments use variable #n
func closeBinder(op, s string, n int, args []*Node) *Node {
	switch op {
	case "comp":
		return mkComp(args[0], n, args[1])
	case "exists":
		return mkExists(args[0], n, args[1])
	case "sum":
		return mkSum(args[0], n, args[1])
	}
	return closeRaw(op, s, n, args)
}

func closeRaw(op, s string, n int, args []*Node) *Node {
	outer, _ := binderOuterOp(op, s)
	h := 0
	for i, a := range args {
		if i >= outer {
			h = max(h, a.h)
		}
	}
	h++
	if h > 60 {
		giveUp("nesting too deep")
	}
	out := make([]*Node, len(args))
	for try := 0; ; try++ {
		h2 := 0
		for i, a := range args {
			if i < outer {
				out[i] = a
			} else {
				out[i] = renameVars(a, "#"+strconv.Itoa(n), "%"+strconv.Itoa(h), n, 0)
				h2 = max(h2, out[i].h)
			}
		}
		if h2+1 == h {
			break
		}
		if try > 4 {
			giveUp("unstable binder height")
		}
		h = h2 + 1
	}
	// conditional outer arguments are pushed out
	if op != "struct" {
		cond := false
		for i := 0; i < outer; i++ {
			if out[i].leaf == nil {
				cond = true
			}
		}
		if cond {
			return apply(out[:outer], func(ts []*Term) *Node {
				a2 := append([]*Node{}, out...)
				for i, t := range ts {
					a2[i] = leafOf(t)
				}
				return valueNode(mkTerm(op, s, a2, nil))
			})
		}
	}
	return valueNode(mkTerm(op, s, out, nil))
}

// byID: the keys of a map in the order they were made
func byID[V any](m map[*Term]V) []*Term {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
