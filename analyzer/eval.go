package main

// Forward dataflow over SSA: one visit per block, values and memory joined at
// merges with the conditions of the incoming edges, calls to functions of the
// module inlined, loops summarised (loop.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type val struct {
	n *Node
	t []*Node // tuples
}

type state struct {
	mem map[*Term]*Node
	ov  map[ssa.Value]val // values defined in a loop that has been left
	// maps that were put into another map: the slot that holds them
	slots map[*Term]*Term
}

func (s *state) clone() *state {
	m := make(map[*Term]*Node, len(s.mem)+4)
	for k, v := range s.mem {
		m[k] = v
	}
	return &state{mem: m, ov: s.ov, slots: s.slots}
}

func (s *state) setSlot(k, v *Term) {
	m := make(map[*Term]*Term, len(s.slots)+1)
	for a, b := range s.slots {
		m[a] = b
	}
	m[k] = v
	s.slots = m
}

type edge struct {
	from, to *ssa.BasicBlock
	cond     *Node
	st       *state
}

type deferred struct {
	cond *Node
	call *ssa.CallCommon
	args []*Node
	fnv  *Node
	ins  ssa.Instruction
}

type retEdge struct {
	cond *Node
	res  []*Node
	st   *state
}

type frame struct {
	ev     *evaluator
	fn     *ssa.Function
	env    map[ssa.Value]val
	caller *frame
	defers []deferred
	rets   []retEdge
	site   string
	forest *loopForest
	cur    *activeLoop
	inInit bool
}

type activeLoop struct {
	id     int
	dom    *Node
	e0     *ssa.BasicBlock // block whose exit edge is the natural one
	e0to   *ssa.BasicBlock
	natOut *edge
	elem   *Node // value of the element when the domain is a fused one
}

type evaluator struct {
	lostCalls    map[string]bool // callees whose results were written to
	globalSlices bool
	recs         map[string]bool // shapes of the functions that call themselves
	p            *program
	boundary     func(fn *ssa.Function) bool
	stack        []int       // loops whose variables are in scope
	loops        []*loopEval // that are being evaluated
	globals      map[*Term]*Node
	instrIDs     map[ssa.Instruction]int
	objTyp       map[*Term]types.Type
	cellTyp      map[*Term]types.Type
	funcs        map[*ssa.Function]bool
	fnByTerm     map[*Term]*ssa.Function
	stats        struct{ funcs, blocks, loops, calls int }
	recOut       map[*ssa.Function]bool
	noInline     map[string]bool
	initDone     bool
	spec         bool
	fnDepth      int
	unknownEx    map[string]int // external functions without a model
	steps        int
	depthMax     int
	forests      map[*ssa.Function]*loopForest
	panics       bool
	effectsOf    func(fn *ssa.Function) []string
	// calls of the reporter's methods are recorded, not inlined
	abstractReporter bool
	presets          map[string]*Node // values of flags in this case
	keepText         bool             // what is printed matters, not only where to
	stickyOf         func(fn *ssa.Function) []*Term
	lvLoads          map[*Term]bool
	pure             map[*ssa.Function]bool
	nilBases         map[*ssa.Function][]*Node
	inNilBase        bool
	siteNames        map[string]string
	siteCount        map[string]int
	lost             map[string]bool // writes to memory that is not tracked
}

func newEvaluator(p *program) *evaluator {
	ev := &evaluator{
		p:         p,
		instrIDs:  map[ssa.Instruction]int{},
		objTyp:    map[*Term]types.Type{},
		cellTyp:   map[*Term]types.Type{},
		funcs:     map[*ssa.Function]bool{},
		fnByTerm:  map[*Term]*ssa.Function{},
		unknownEx: map[string]int{},
		lvLoads:   map[*Term]bool{},
		forests:   map[*ssa.Function]*loopForest{},
	}
	ev.boundary = func(*ssa.Function) bool { return false }
	return ev
}

func (ev *evaluator) iid(i ssa.Instruction) int {
	if n, ok := ev.instrIDs[i]; ok {
		return n
	}
	n := len(ev.instrIDs) + 1
	ev.instrIDs[i] = n
	return n
}

// ---- merging ----

func phiOf(edges []edge, vals []*Node) *Node {
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	c := F
	for _, e := range edges {
		c = or(c, e.cond)
	}
	var v *Node
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i] == nil || vals[i] == Bot {
			continue
		}
		if v == nil {
			v = vals[i]
			continue
		}
		v = ite(constrain(edges[i].cond, c), vals[i], v)
	}
	if v == nil {
		return Bot
	}
	return v
}

func (ev *evaluator) mergeStates(edges []edge) (*Node, *state) {
	if len(edges) == 1 {
		return edges[0].cond, edges[0].st
	}
	c := F
	for _, e := range edges {
		c = or(c, e.cond)
	}
	st := edges[0].st.clone()
	keys := map[*Term]bool{}
	for _, e := range edges {
		for _, k := range byID(e.st.mem) {
			keys[k] = true
		}
	}
	for _, k := range byID(keys) {
		vals := make([]*Node, len(edges))
		diff := false
		for i, e := range edges {
			v, ok := e.st.mem[k]
			if !ok {
				v = ev.defaultCell(e.st, k)
			}
			vals[i] = v
			if v != vals[0] {
				diff = true
			}
		}
		if !diff {
			st.mem[k] = vals[0]
		} else {
			st.mem[k] = phiOf(edges, vals)
		}
	}
	for _, e := range edges[1:] {
		for k, v := range e.st.slots {
			if st.slots[k] == nil {
				st.setSlot(k, v)
			} else if st.slots[k] != v {
				giveUp("a map in different maps")
			}
		}
	}
	var ovk map[ssa.Value]bool
	for _, e := range edges {
		for _, k := range byValue(e.st.ov) {
			if ovk == nil {
				ovk = map[ssa.Value]bool{}
			}
			ovk[k] = true
		}
	}
	if ovk != nil {
		ov := map[ssa.Value]val{}
		for _, k := range byValue(ovk) {
			var first val
			var es []edge
			var vs []val
			diff := false
			for _, e := range edges {
				if v, ok := e.st.ov[k]; ok {
					if len(vs) == 0 {
						first = v
					} else if v.n != first.n || len(v.t) > 0 {
						diff = true
					}
					es = append(es, e)
					vs = append(vs, v)
				}
			}
			if !diff {
				ov[k] = first
				continue
			}
			if first.t != nil {
				r := val{t: make([]*Node, len(first.t))}
				for i := range first.t {
					ns := make([]*Node, len(vs))
					for j := range vs {
						ns[j] = vs[j].t[i]
					}
					r.t[i] = phiOf(es, ns)
				}
				ov[k] = r
			} else {
				ns := make([]*Node, len(vs))
				for j := range vs {
					ns[j] = vs[j].n
				}
				ov[k] = val{n: phiOf(es, ns)}
			}
		}
		st.ov = ov
	}
	return c, st
}

// ---- memory ----

func addrFA(base *Term, key string, typ types.Type) *Term {
	return mkTerm("fa", key, []*Node{leafOf(base)}, nil)
}

func rootOf(a *Term) *Term {
	for a.op == "fa" || a.op == "ia" {
		a = a.args[0].leaf
	}
	return a
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	st = canon(st)
	return st
}

// opaqueStruct: structs of other packages that are only handled as a whole
func (ev *evaluator) splits(t types.Type) *types.Struct {
	st := structOf(t)
	if st == nil {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "net/url.URL":
				return st
			}
			return nil
		}
	}
	if st.NumFields() == 0 {
		return nil
	}
	return st
}

func (ev *evaluator) load(st *state, addr *Node, typ types.Type) *Node {
	if addr.leaf != nil {
		return ev.loadT(st, addr.leaf, typ)
	}
	return apply1(addr, func(a *Term) *Node { return ev.loadT(st, a, typ) })
}

func (ev *evaluator) loadT(st *state, a *Term, typ types.Type) *Node {
	if a.op == "bot" || a == Nil.leaf {
		return Bot
	}
	if a.op == "ptr" {
		return a.args[0]
	}
	if s := ev.splits(typ); s != nil {
		if v, ok := st.mem[a]; ok {
			return v
		}
		keys := fieldKeys(s)
		args := make([]*Node, len(keys))
		for i, k := range keys {
			args[i] = ev.loadT(st, addrFA(a, k, nil), s.Field(i).Type())
		}
		return mkStruct(strings.Join(keys, "|"), args)
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	if at, ok := typ.Underlying().(*types.Array); ok && rootOf(a).op == "obj" {
		_ = at
		return ev.loadArray(st, a, at)
	}
	return ev.defaultT(st, a, typ)
}

func (ev *evaluator) loadArray(st *state, a *Term, at *types.Array) *Node {
	n := at.Len()
	if n > 64 {
		return opaque("arr", "", []*Node{leafOf(a)}, nil)
	}
	any := false
	elems := make([]*Node, n)
	for i := range elems {
		ea := mkTerm("ia", "", []*Node{leafOf(a), Int(int64(i))}, nil)
		if _, ok := st.mem[ea]; ok {
			any = true
		}
		elems[i] = ev.loadT(st, ea, at.Elem())
	}
	_ = any
	return seqLit(elems...)
}

func (ev *evaluator) defaultCell(st *state, k *Term) *Node {
	switch k.op {
	case "sc":
		return k.args[0]
	case "mc":
		t := k.args[0].leaf
		if t.op == "obj" {
			return emptyMap
		}
		return leafOf(t)
	case "tr":
		return emptySeq
	case "pn":
		return F
	case "stt":
		return Int(0)
	case "egs":
		return Nil
	case "sbs":
		return Str("")
	}
	typ := ev.cellTyp[k]
	if typ == nil {
		return Bot
	}
	return ev.defaultT(st, k, typ)
}

var emptyMap = leafOf(mkTerm("mapof", "", []*Node{leafOf(mkTerm("seq", "", nil, nil))}, nil))

// defaultT: content of a cell that has not been written
func (ev *evaluator) defaultT(st *state, a *Term, typ types.Type) *Node {
	ev.cellTyp[a] = typ
	if a.op == "global" && strings.HasSuffix(a.s, "init$guard") {
		return F
	}
	if v := ev.family(st, a); v != nil {
		return v
	}
	r := rootOf(a)
	switch r.op {
	case "obj":
		if v, ok := st.mem[r]; ok && a != r {
			// the whole was written: project
			return ev.project(v, r, a, typ)
		}
		return zeroOf(typ)
	case "global":
		if v, ok := ev.globals[a]; ok {
			return v
		}
		if a == r {
			return opaque("gval", plainName(r.s), nil, typ)
		}
	case "ea":
		// element of a slice
		c := ev.content(st, r.args[0])
		v := indexOf(c, r.args[1], ev.cellTyp[r])
		return ev.project(v, r, a, typ)
	case "mslot":
		return leafOf(a)
	case "lv":
		if a.op == "fa" && a.args[0].leaf == r {
			ev.lvLoads[r] = true
		}
	}
	switch a.op {
	case "fa":
		return fieldOf(ev.derefBase(st, a.args[0].leaf), a.s, typ)
	case "ia":
		return indexOf(leafOf(a.args[0].leaf), a.args[1], typ)
	}
	if structOf(typ) != nil {
		t := mkTerm(a.op, a.s, a.args, typ)
		return leafOf(t)
	}
	return opaque("deref", "", []*Node{leafOf(a)}, typ)
}

func (ev *evaluator) derefBase(st *state, b *Term) *Node {
	if b.op == "fa" {
		return fieldOf(ev.derefBase(st, b.args[0].leaf), b.s, nil)
	}
	if b.op == "global" {
		if v, ok := ev.globals[b]; ok {
			return v
		}
		return opaque("gval", plainName(b.s), nil, nil)
	}
	return leafOf(b)
}

// project follows the path from root r to address a in value v
func (ev *evaluator) project(v *Node, r, a *Term, typ types.Type) *Node {
	if a == r {
		return v
	}
	b := ev.project(v, r, a.args[0].leaf, nil)
	if a.op == "fa" {
		return fieldOf(b, a.s, typ)
	}
	return indexOf(b, a.args[1], typ)
}

// family: content of an object made in an iteration of an earlier loop
func (ev *evaluator) family(st *state, a *Term) *Node {
	r := rootOf(a)
	if r.op != "obj" || len(r.args) == 0 {
		return nil
	}
	i := len(r.args) - 1
	ix := r.args[i].leaf
	if ix == nil || ix.op != "ix" {
		return nil
	}
	k := famKey(a, r, i)
	l, ok := st.mem[k]
	if !ok {
		return nil
	}
	fr, _ := varName(ix.s)
	return mapLeaves(l, func(t *Term) *Node {
		if t.op != "lam" {
			return leafOf(t)
		}
		return openBinder(t, fr)[1]
	})
}

func famKey(a, r *Term, i int) *Term {
	if a == r {
		args := append([]*Node{}, r.args...)
		args[i] = Nil
		return mkTerm("obj", r.s, args, nil)
	}
	b := famKey(a.args[0].leaf, r, i)
	args := append([]*Node{leafOf(b)}, a.args[1:]...)
	return mkTerm(a.op, a.s, args, nil)
}

func (ev *evaluator) store(st *state, addr, v *Node, typ types.Type) {
	if addr.leaf != nil {
		ev.storeT(st, addr.leaf, v, typ, T)
		return
	}
	for _, a := range leavesOf(addr) {
		if a.op == "bot" || a == Nil.leaf {
			continue
		}
		a := a
		ev.storeT(st, a, v, typ, condOf(addr, func(t *Term) bool { return t == a }))
	}
}

func (ev *evaluator) storeT(st *state, a *Term, v *Node, typ types.Type, c *Node) {
	if a.op == "bot" || a == Nil.leaf {
		return
	}
	if s := ev.splits(typ); s != nil {
		delete(st.mem, a)
		for i, k := range fieldKeys(s) {
			ev.storeT(st, addrFA(a, k, nil), fieldOf(v, k, s.Field(i).Type()), s.Field(i).Type(), c)
		}
		return
	}
	if r := rootOf(a); r.op == "ea" {
		s, i := r.args[0], r.args[1]
		if s.leaf == nil {
			for _, l := range leavesOf(s) {
				if isEmptySeq(l) || l.op == "bot" {
					continue
				}
				l := l
				g := condOf(s, func(t *Term) bool { return t == l })
				a2 := reroot(a, r, mkTerm("ea", "", []*Node{leafOf(l), i}, nil))
				ev.cellTyp[rootOf(a2)] = ev.cellTyp[r]
				ev.storeT(st, a2, v, typ, and(c, g))
			}
			return
		}
		old := ev.content(st, s)
		elem := indexOf(old, i, ev.cellTyp[r])
		nv := ev.updatePath(elem, r, a, v)
		nc := seqUpd(old, i, nv)
		if c != T {
			nc = ite(c, nc, old)
		}
		k := mkTerm("sc", "", []*Node{s}, nil)
		ev.cellTyp[k] = types.NewSlice(types.Typ[types.Int])
		st.mem[k] = nc
		return
	}
	ev.cellTyp[a] = typ
	if at, ok := typ.Underlying().(*types.Array); ok && v.leaf != nil && v.leaf.op == "seq" && int64(len(v.leaf.args)) == at.Len() {
		for i, e := range v.leaf.args {
			ev.storeT(st, mkTerm("ia", "", []*Node{leafOf(a), Int(int64(i))}, nil), e, at.Elem(), c)
		}
		return
	}
	if c != T {
		v = ite(c, v, ev.loadT(st, a, typ))
	}
	st.mem[a] = v
}

func reroot(a, r, to *Term) *Term {
	if a == r {
		return to
	}
	args := append([]*Node{leafOf(reroot(a.args[0].leaf, r, to))}, a.args[1:]...)
	return mkTerm(a.op, a.s, args, nil)
}

func (ev *evaluator) updatePath(base *Node, r, a *Term, v *Node) *Node {
	if a == r {
		return v
	}
	outer := a.args[0].leaf
	b := ev.project(base, r, outer, nil)
	if a.op == "fa" {
		return ev.updatePath(base, r, outer, setField(b, a.s, v))
	}
	return ev.updatePath(base, r, outer, seqUpd(b, a.args[1], v))
}

func setField(b *Node, key string, v *Node) *Node {
	return apply1(b, func(t *Term) *Node {
		if !structy(t) {
			giveUp("field set on unknown struct %s", showT(t, 0))
		}
		ks := structKeys(t)
		args := make([]*Node, len(ks))
		for i, k := range ks {
			if k == key {
				args[i] = v
			} else {
				args[i] = fieldLeaf(t, k, nil)
			}
		}
		return mkStruct(strings.Join(ks, "|"), args)
	})
}

// content of a slice value, taking writes to its elements into account
func (ev *evaluator) content(st *state, s *Node) *Node {
	any := ev.initDone && ev.globalSlices
	for _, k := range byID(st.mem) {
		if k.op == "sc" {
			any = true
			break
		}
	}
	if !any {
		return s
	}
	return mapLeaves(s, func(t *Term) *Node {
		k := mkTerm("sc", "", []*Node{leafOf(t)}, nil)
		if v, ok := st.mem[k]; ok {
			return v
		}
		if v, ok := ev.globals[k]; ok {
			return v
		}
		return leafOf(t)
	})
}

// mcontent is the content of a map value
func (ev *evaluator) mcontent(st *state, m *Node) *Node {
	return mapLeaves(m, func(t *Term) *Node { return ev.mcontentT(st, t) })
}

func (ev *evaluator) mcontentT(st *state, t *Term) *Node {
	if s := st.slots[t]; s != nil {
		t = s
	}
	if t.op == "mslot" {
		c := ev.mcontent(st, t.args[0])
		h := mapHas(c, t.args[1])
		v := mapGetRaw(c, t.args[1], nil)
		return ite(h, ev.mcontent(st, v), emptyMap)
	}
	k := mkTerm("mc", "", []*Node{leafOf(t)}, nil)
	if v, ok := st.mem[k]; ok {
		return v
	}
	if v, ok := ev.globals[k]; ok {
		return v
	}
	if v := ev.family(st, t); v != nil {
		return v
	}
	if t.op == "obj" {
		if len(t.args) > 0 {
			i := len(t.args) - 1
			if ix := t.args[i].leaf; ix != nil && ix.op == "ix" {
				fk := mkTerm("mc", "", []*Node{leafOf(famKey(t, t, i))}, nil)
				if l, ok := st.mem[fk]; ok && l.leaf != nil && l.leaf.op == "lam" {
					fr, _ := varName(ix.s)
					return openBinder(l.leaf, fr)[1]
				}
			}
		}
		return emptyMap
	}
	return leafOf(t)
}

func (ev *evaluator) mapSet(st *state, m, k, v *Node) {
	for _, t := range leavesOf(m) {
		if t.op == "bot" || t == Nil.leaf {
			continue
		}
		c := T
		if m.leaf == nil {
			t := t
			c = condOf(m, func(x *Term) bool { return x == t })
		}
		ev.mapSetT(st, t, k, v, c)
	}
}

func (ev *evaluator) mapSetT(st *state, t *Term, k, v, c *Node) {
	old := ev.mcontentT(st, t)
	nc := mapInsert(old, k, v)
	if c != T {
		nc = ite(c, nc, old)
	}
	ev.mapStoreT(st, t, nc)
}

func (ev *evaluator) mapStoreT(st *state, t *Term, nc *Node) {
	if s := st.slots[t]; s != nil {
		t = s
	}
	if t.op == "mslot" {
		for _, o := range leavesOf(t.args[0]) {
			oc := ev.mcontentT(st, o)
			ev.mapStoreT(st, o, mapInsert(oc, t.args[1], nc))
		}
		return
	}
	key := mkTerm("mc", "", []*Node{leafOf(t)}, nil)
	st.mem[key] = nc
}

func isUnitValue(v *Node) bool {
	return v == T || (v.leaf != nil && v.leaf.op == "struct" && len(v.leaf.args) == 0)
}

func mapInsert(m, k, v *Node) *Node {
	r := mapOf(seqCat(entriesOf(m), seqLit(pairOf(k, v))))
	if isUnitValue(v) {
		// inserting into a set what it already has changes nothing
		return ite(mapHas(m, k), m, r)
	}
	return r
}

// effect appends to the trace of a class of effects
func (ev *evaluator) effect(st *state, class string, args ...*Node) {
	k := mkTerm("tr", class, nil, nil)
	old, ok := st.mem[k]
	if !ok {
		old = emptySeq
	}
	e := apply(args, func(ts []*Term) *Node {
		as := make([]*Node, len(ts))
		for i, t := range ts {
			as[i] = leafOf(t)
		}
		return leafOf(mkTerm("eff", class, as, nil))
	})
	if len(args) == 0 {
		e = leafOf(mkTerm("eff", class, nil, nil))
	}
	st.mem[k] = seqCat(old, seqLit(e))
}

func (st *state) trace(class string) *Node {
	if v, ok := st.mem[mkTerm("tr", class, nil, nil)]; ok {
		return v
	}
	return emptySeq
}

// snapshot replaces pointers to objects, maps and slices by what they hold
func (ev *evaluator) snapshot(st *state, n *Node) *Node {
	return withoutExtras(ev.snap(st, n, map[*Term]bool{}))
}

// overwritten: what a pointer to memory that is not the function's own points
// to, if some of it was written
func (ev *evaluator) overwritten(st *state, t *Term) *Node {
	if t.typ == nil || t.op == "param" {
		return nil
	}
	p, ok := t.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	hit := false
	for k := range st.mem {
		if k.op == "fa" && len(k.args) > 0 && k.args[0].leaf == t {
			hit = true
			break
		}
	}
	if !hit {
		return nil
	}
	v := ev.loadT(st, t, p.Elem())
	if v == ev.loadT(&state{mem: map[*Term]*Node{}}, t, p.Elem()) {
		return nil
	}
	return v
}

func (ev *evaluator) snap(st *state, n *Node, busy map[*Term]bool) *Node {
	depth := 0
	memo := map[*Node]*Node{}
	var rn func(n *Node) *Node
	var rt func(t *Term) *Node
	rt = func(t *Term) *Node {
		switch t.op {
		case "obj":
			if busy[t] {
				return leafOf(mkTerm("cyc", "", nil, nil))
			}
			typ := ev.objTyp[mkTerm("objsite", t.s, nil, nil)]
			if typ == nil {
				return leafOf(t)
			}
			busy[t] = true
			defer delete(busy, t)
			if _, ok := typ.Underlying().(*types.Map); ok {
				return rn(ev.mcontentT(st, t))
			}
			if _, ok := typ.Underlying().(*types.Slice); ok {
				return leafOf(t)
			}
			v := rn(ev.loadT(st, t, typ))
			return apply1(v, func(x *Term) *Node { return leafOf(mkTerm("ptr", "", []*Node{leafOf(x)}, nil)) })
		case "mslot":
			return rn(ev.mcontentT(st, t))
		case "global":
			return leafOf(mkTerm("global", plainName(t.s), nil, t.typ))
		case "fn", "closure":
			return ev.fnForm(st, t)
		case "fa", "c":
			return valueNode(t)
		}
		if v, ok := st.mem[mkTerm("sc", "", []*Node{leafOf(t)}, nil)]; ok && v != leafOf(t) && !busy[t] {
			busy[t] = true
			defer delete(busy, t)
			return rn(v)
		}
		if v, ok := st.mem[mkTerm("mc", "", []*Node{leafOf(t)}, nil)]; ok && v != leafOf(t) && !busy[t] {
			busy[t] = true
			defer delete(busy, t)
			return rn(v)
		}
		if v := ev.overwritten(st, t); v != nil && !busy[t] {
			busy[t] = true
			defer delete(busy, t)
			return apply1(rn(v), func(x *Term) *Node { return leafOf(mkTerm("ptr", "", []*Node{leafOf(x)}, nil)) })
		}
		if len(t.args) == 0 {
			return valueNode(t)
		}
		if _, ok := binderOuter(t); ok {
			if !anyTerm(leafOf(t), func(x *Term) bool { return snapOp(x.op) }) {
				return valueNode(t)
			}
			n := newLoopID()
			args := openBinder(t, n)
			for i := range args {
				args[i] = rn(args[i])
			}
			return closeBinder(t.op, t.s, n, args)
		}
		if !anyTerm(leafOf(t), func(x *Term) bool { return snapOp(x.op) }) && len(busy) == 0 {
			hasSC := false
			for _, k := range byID(st.mem) {
				if k.op == "sc" || k.op == "mc" || k.op == "fa" && rootOf(k).op != "obj" {
					hasSC = true
				}
			}
			if !hasSC {
				return valueNode(t)
			}
		}
		args := make([]*Node, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rn(a)
			ch = ch || args[i] != a
		}
		if !ch {
			return valueNode(t)
		}
		return rebuild(t, args)
	}
	rn = func(n *Node) *Node {
		if r := memo[n]; r != nil {
			return r
		}
		depth++
		defer func() { depth-- }()
		if depth > 3000 {
			giveUp("endless object")
		}
		var r *Node
		if n.leaf != nil {
			r = rt(n.leaf)
		} else {
			r = ite(atomNode(n.atom), rn(n.hi), rn(n.lo))
		}
		if len(busy) == 0 {
			memo[n] = r
		}
		return r
	}
	return rn(n)
}

func snapOp(op string) bool {
	switch op {
	case "obj", "mslot", "fn", "closure", "global":
		return true
	}
	return false
}

// fnForm: a function value is what it computes
func (ev *evaluator) fnForm(st *state, t *Term) (r *Node) {
	fn := ev.fnByTerm[t]
	plain := leafOf(mkTerm(t.op, plainName(t.s), nil, nil))
	if fn == nil || len(fn.Blocks) == 0 || !inModule(fn) || ev.fnDepth > 3 || fn.Signature.Results().Len() != 1 {
		return plain
	}
	ev.fnDepth++
	stack := ev.stack
	defer func() {
		ev.fnDepth--
		ev.stack = stack
		if x := recover(); x != nil {
			if _, ok := x.(undecided); ok {
				r = plain
				return
			}
			panic(x)
		}
	}()
	n := newLoopID()
	args := make([]*Node, len(fn.Params))
	for i, p := range fn.Params {
		lv := mkTerm("lv", "#"+strconv.Itoa(n)+"."+strconv.Itoa(i+1), nil, p.Type())
		if isBoolType(p.Type()) {
			args[i] = atomNode(mkTerm("bcall", "var", []*Node{leafOf(lv)}, nil))
		} else {
			args[i] = leafOf(lv)
		}
	}
	var bind []*Node
	if t.op == "closure" {
		bind = t.args
	}
	res, out := ev.callFn(fn, args, bind, st.clone(), nil, "fn:"+fn.String())
	v := ev.snapshot(out, res[0])
	return closeRaw("lam", "", n, []*Node{Nil, v})
}

// ---- functions ----

func (ev *evaluator) objTerm(site string, typ types.Type) *Term {
	args := make([]*Node, len(ev.stack))
	for i, n := range ev.stack {
		args[i] = loopVar("ix", n, types.Typ[types.Int])
	}
	// named by the order in which objects of this kind are met, so that where
	// they are made in the source does not matter
	name, ok := ev.siteNames[site]
	if !ok {
		if ev.siteNames == nil {
			ev.siteNames, ev.siteCount = map[string]string{}, map[string]int{}
		}
		k := typeShape(typ, 0)
		name = k + "#" + strconv.Itoa(ev.siteCount[k])
		ev.siteCount[k]++
		ev.siteNames[site] = name
	}
	site = name
	t := mkTerm("obj", site, args, nil)
	ev.objTyp[mkTerm("objsite", site, nil, nil)] = typ
	return t
}

func (ev *evaluator) callFn(fn *ssa.Function, args []*Node, bind []*Node, st *state, caller *frame, site string) ([]*Node, *state) {
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fn)
	}
	depth := 0
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn {
			return ev.recursive(fn, args, bind, st)
		}
		depth++
	}
	if depth > 60 {
		giveUp("inlining too deep at %s", fn)
	}
	ev.funcs[fn] = true
	ev.stats.calls++
	fr := &frame{ev: ev, fn: fn, env: map[ssa.Value]val{}, caller: caller, site: site}
	if caller != nil {
		fr.inInit = caller.inInit
	}
	fr.forest = ev.forest(fn)
	for i, p := range fn.Params {
		fr.env[p] = val{n: args[i]}
	}
	for i, b := range fn.FreeVars {
		fr.env[b] = val{n: bind[i]}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	saveCur := fr.cur
	if traceEval && depth < 3 {
		n0 := nodeCount
		defer func() { fmt.Printf("EVAL %s%s %d nodes\n", strings.Repeat("  ", depth), fn, nodeCount-n0) }()
	}
	fr.region(fn.Blocks[0], all, nil, []edge{{to: fn.Blocks[0], cond: T, st: st}})
	fr.cur = saveCur
	if len(fr.rets) == 0 {
		// never returns
		nres := fn.Signature.Results().Len()
		res := make([]*Node, nres)
		for i := range res {
			res[i] = Bot
		}
		return res, st
	}
	edges := make([]edge, len(fr.rets))
	for i, r := range fr.rets {
		edges[i] = edge{cond: r.cond, st: r.st}
	}
	nres := len(fr.rets[0].res)
	res := make([]*Node, nres)
	for i := range res {
		vals := make([]*Node, len(edges))
		for j, r := range fr.rets {
			vals[j] = r.res[i]
		}
		res[i] = phiOf(edges, vals)
	}
	_, out := ev.mergeStates(edges)
	o2 := out.clone()
	o2.ov = st.ov
	return res, o2
}

// recursive call: an uninterpreted function of its arguments
func (ev *evaluator) recursive(fn *ssa.Function, args, bind []*Node, st *state) ([]*Node, *state) {
	if ev.recs == nil {
		ev.recs = map[string]bool{}
	}
	ev.recs[sigShape(fn)] = true
	st2 := st.clone()
	sargs := make([]*Node, len(args))
	for i, a := range args {
		sargs[i] = ev.snapshot(st, a)
	}
	nres := fn.Signature.Results().Len()
	res := make([]*Node, nres)
	for i := range res {
		res[i] = opaque("rec", strconv.Itoa(i), sargs, fn.Signature.Results().At(i).Type())
	}
	if len(bind) == 0 && ev.recPure(fn) {
		if base := ev.nilBase(fn); base != nil {
			for i := range res {
				res[i] = ite((&frame{ev: ev}).equal(st, args[0], Nil, fn.Params[0].Type()), base[i], res[i])
			}
		}
		return res, st2
	}
	// what it can reach may have been changed
	for i, a := range args {
		if a.leaf == nil {
			continue
		}
		switch fn.Params[i].Type().Underlying().(type) {
		case *types.Map:
			k := mkTerm("mc", "", []*Node{a}, nil)
			st2.mem[k] = opaque("recmap", strconv.Itoa(i), sargs, nil)
		case *types.Pointer:
			for _, k := range byID(st.mem) {
				if rootOf(k) == a.leaf && k.op != "tr" {
					st2.mem[k] = opaque("recmem", strconv.Itoa(i), append(append([]*Node{}, sargs...), st.mem[k]), ev.cellTyp[k])
				}
			}
		}
	}
	ev.effect(st2, "rec", sargs...)
	return res, st2
}

func (fr *frame) region(entry *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) (backs, outs []edge) {
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	skip := map[*ssa.BasicBlock]bool{}
	dispatch := func(e edge) {
		if e.cond == F {
			return
		}
		switch {
		case header != nil && e.to == header:
			backs = append(backs, e)
		case !set[e.to]:
			outs = append(outs, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.forest.rpo {
		if !set[b] || skip[b] {
			continue
		}
		p := pending[b]
		if len(p) == 0 {
			continue
		}
		if l := fr.forest.byHeader[b]; l != nil && b != header {
			for x := range l.blocks {
				skip[x] = true
			}
			for _, e := range fr.evalLoop(l, p) {
				dispatch(e)
			}
			continue
		}
		fr.block(b, p, b == header, dispatch)
	}
	return
}

func (fr *frame) get(st *state, v ssa.Value) *Node {
	r := fr.getv(st, v)
	if r.n == nil {
		giveUp("tuple used as value: %s", v)
	}
	return r.n
}

func (fr *frame) getv(st *state, v ssa.Value) val {
	switch x := v.(type) {
	case *ssa.Const:
		return val{n: constNode(x)}
	case *ssa.Function:
		t := mkTerm("fn", x.String(), nil, nil)
		fr.ev.fnByTerm[t] = x
		return val{n: leafOf(t)}
	case *ssa.Global:
		return val{n: leafOf(globalTerm(x))}
	case *ssa.Builtin:
		return val{n: leafOf(mkTerm("builtin", x.Name(), nil, nil))}
	}
	if st != nil {
		if r, ok := st.ov[v]; ok {
			return r
		}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	giveUp("no value for %s in %s", v.Name(), fr.fn)
	return val{}
}

func globalTerm(x *ssa.Global) *Term {
	return mkTerm("global", x.String(), nil, nil)
}

func constNode(c *ssa.Const) *Node {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return leafOf(mkTerm("c", "f:"+c.Value.ExactString(), nil, nil))
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return Int(v)
		}
		return leafOf(mkTerm("c", "n:"+c.Value.ExactString(), nil, nil))
	default:
		return leafOf(mkTerm("c", "f:"+c.Value.ExactString(), nil, nil))
	}
}

func (fr *frame) block(b *ssa.BasicBlock, in []edge, isHeader bool, dispatch func(edge)) {
	ev := fr.ev
	ev.stats.blocks++
	ev.steps++
	if ev.steps > 4_000_000 {
		giveUp("too many steps")
	}
	cond, st := ev.mergeStates(in)
	st = st.clone()
	// phis (those of loop headers are set by evalLoop)
	if !isHeader {
		type pv struct {
			p *ssa.Phi
			n *Node
		}
		var ps []pv
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals := make([]*Node, len(in))
			for i, e := range in {
				for j, pr := range b.Preds {
					if pr == e.from {
						vals[i] = fr.get(e.st, p.Edges[j])
					}
				}
				if vals[i] == nil {
					giveUp("phi edge not found")
				}
			}
			ps = append(ps, pv{p, phiOf(in, vals)})
		}
		for _, x := range ps {
			fr.set(st, x.p, val{n: x.n})
		}
	}
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := fr.get(st, x.Cond)
			if fr.cur != nil && fr.cur.e0 == b {
				// natural exit of the loop that is being evaluated
				fr.cur.natOut = &edge{from: b, to: fr.cur.e0to, cond: cond, st: st.clone()}
				for _, s := range b.Succs {
					if s != fr.cur.e0to {
						dispatch(edge{b, s, cond, st})
						break
					}
				}
				return
			}
			if ev.panics && hasBot(c) {
				// it crashed before this; go on so that this is not forgotten
				c = isTrue(c)
			}
			dispatch(edge{b, b.Succs[0], and(cond, isTrue(c)), st})
			dispatch(edge{b, b.Succs[1], and(cond, isFalse(c)), st.clone()})
			return
		case *ssa.Jump:
			dispatch(edge{b, b.Succs[0], cond, st})
			return
		case *ssa.Return:
			res := make([]*Node, len(x.Results))
			for i, r := range x.Results {
				res[i] = fr.get(st, r)
				if fr.caller == nil && fr.fn.Recover == nil {
					// contents as they are on this path: keys of memory change
					// where paths meet
					res[i] = ev.snapshot(st, res[i])
				}
			}
			fr.rets = append(fr.rets, retEdge{cond, res, st})
			return
		case *ssa.Panic:
			if ev.panics {
				ev.fails(st, T)
				res := make([]*Node, fr.fn.Signature.Results().Len())
				for i := range res {
					res[i] = Bot
				}
				fr.rets = append(fr.rets, retEdge{cond, res, st})
			}
			return
		default:
			stop := fr.instr(ins, st, cond)
			if stop {
				if ev.panics && st.mem[panicCell()] != nil {
					res := make([]*Node, fr.fn.Signature.Results().Len())
					for i := range res {
						res[i] = Bot
					}
					fr.rets = append(fr.rets, retEdge{cond, res, st})
				}
				return
			}
		}
	}
}

// isTrue, isFalse: a condition whose value is undefined leads nowhere
func isTrue(c *Node) *Node {
	if !hasBot(c) {
		return c
	}
	return condOf(c, func(t *Term) bool { return t == termTrue })
}

func isFalse(c *Node) *Node {
	if !hasBot(c) {
		return not(c)
	}
	return condOf(c, func(t *Term) bool { return t == termFalse })
}

func hasBot(c *Node) bool {
	for _, l := range leavesOf(c) {
		if l.op == "bot" {
			return true
		}
	}
	return false
}

func (fr *frame) set(st *state, v ssa.Value, x val) {
	fr.env[v] = x
	if st.ov != nil {
		if _, ok := st.ov[v]; ok {
			ov := map[ssa.Value]val{}
			for _, k := range byValue(st.ov) {
				y := st.ov[k]
				if k != v {
					ov[k] = y
				}
			}
			st.ov = ov
		}
	}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

func (fr *frame) instr(ins ssa.Instruction, st *state, cond *Node) (stop bool) {
	ev := fr.ev
	if ev.panics {
		fr.panicChecks(ins, st)
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := ev.objTerm(fr.site+"/"+strconv.Itoa(ev.iid(x)), x.Type().Underlying().(*types.Pointer).Elem())
		// a new object is zero, also when the site is reached again
		for _, k := range byID(st.mem) {
			if rootOf(k) == t {
				delete(st.mem, k)
			}
		}
		fr.set(st, x, val{n: leafOf(t)})
	case *ssa.BinOp:
		fr.set(st, x, val{n: fr.binop(st, x)})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			fr.set(st, x, val{n: ev.load(st, fr.get(st, x.X), x.Type())})
		case token.NOT:
			fr.set(st, x, val{n: not(fr.get(st, x.X))})
		case token.SUB:
			fr.set(st, x, val{n: linNeg(fr.get(st, x.X))})
		case token.XOR:
			fr.set(st, x, val{n: opaque("xor", "", []*Node{fr.get(st, x.X)}, x.Type())})
		default:
			giveUp("channel receive in %s", fr.fn)
		}
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		var o ssa.Value
		switch y := x.(type) {
		case *ssa.ChangeType:
			o = y.X
		case *ssa.ChangeInterface:
			o = y.X
		case *ssa.MakeInterface:
			o = y.X
			ev.noteIface(fr.get(st, o), y.X.Type())
			if b, ok := y.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				// keep booleans in interfaces as values
				fr.set(st, x.(ssa.Value), val{n: fr.get(st, o)})
				return
			}
		}
		fr.set(st, x.(ssa.Value), val{n: fr.get(st, o)})
	case *ssa.Convert:
		fr.set(st, x, val{n: fr.convert(st, x.X, x.Type())})
	case *ssa.MultiConvert:
		fr.set(st, x, val{n: fr.convert(st, x.X, x.Type())})
	case *ssa.Extract:
		v := fr.getv(st, x.Tuple)
		fr.set(st, x, val{n: v.t[x.Index]})
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		fr.set(st, x, val{n: fieldOf(fr.get(st, x.X), fieldKeys(s)[x.Field], s.Field(x.Field).Type())})
	case *ssa.FieldAddr:
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		key := fieldKeys(s)[x.Field]
		ft := s.Field(x.Field).Type()
		fr.set(st, x, val{n: apply1(fr.get(st, x.X), func(t *Term) *Node {
			if t == Nil.leaf {
				return Bot
			}
			a := addrFA(t, key, ft)
			ev.cellTyp[a] = ft
			return leafOf(a)
		})})
	case *ssa.Index:
		fr.set(st, x, val{n: indexOf(fr.get(st, x.X), fr.get(st, x.Index), x.Type())})
	case *ssa.IndexAddr:
		et := elemType(x.X.Type())
		op := "ea"
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			op = "ia"
		}
		if s, i := fr.get(st, x.X), fr.get(st, x.Index); op == "ea" && s.leaf == nil && i.leaf != nil && i.leaf.op == "ix" {
			n, _ := varName(i.leaf.s)
			if n > 0 && loopDom[n] == ev.content(st, s) {
				a := mkTerm(op, "", []*Node{s, i}, nil)
				ev.cellTyp[a] = et
				fr.set(st, x, val{n: leafOf(a)})
				return
			}
		}
		fr.set(st, x, val{n: apply2(fr.get(st, x.X), fr.get(st, x.Index), func(s, i *Term) *Node {
			if s == Nil.leaf || isEmptySeq(s) {
				return Bot
			}
			a := mkTerm(op, "", []*Node{leafOf(s), leafOf(i)}, nil)
			ev.cellTyp[a] = et
			return leafOf(a)
		})})
	case *ssa.Lookup:
		fr.lookup(st, x)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Node, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = fr.get(st, b)
		}
		t := fr.closureTerm(fn, args)
		fr.set(st, x, val{n: t})
	case *ssa.MakeMap:
		t := ev.objTerm(fr.site+"/"+strconv.Itoa(ev.iid(x)), x.Type())
		st.mem[mkTerm("mc", "", []*Node{leafOf(t)}, nil)] = emptyMap
		fr.set(st, x, val{n: leafOf(t)})
	case *ssa.MakeSlice:
		n := fr.get(st, x.Len)
		if k, ok := n.constInt(); ok {
			if k == 0 {
				fr.set(st, x, val{n: emptySeq})
				return
			}
		}
		site := fr.site + "/" + strconv.Itoa(ev.iid(x))
		o := ev.objTerm(site, x.Type())
		v := apply1(n, func(t *Term) *Node {
			if k, ok := termInt(t); ok && k == 0 {
				return emptySeq
			}
			return leafOf(mkTerm("mks", "", []*Node{leafOf(t), leafOf(o)}, nil))
		})
		et := elemType(x.Type())
		for _, l := range leavesOf(v) {
			if l.op == "mks" {
				z := ev.zeros(l.args[0], et)
				st.mem[mkTerm("sc", "", []*Node{leafOf(l)}, nil)] = z
			}
		}
		fr.set(st, x, val{n: v})
	case *ssa.MapUpdate:
		v := fr.get(st, x.Value)
		if _, ok := x.Value.Type().Underlying().(*types.Map); ok {
			o, m, k := v.leaf, fr.get(st, x.Map).leaf, fr.get(st, x.Key).leaf
			v = ev.mcontent(st, v)
			if o != nil && o.op == "obj" && m != nil && m != Nil.leaf && k != nil && st.slots[o] == nil {
				defer st.setSlot(o, mkTerm("mslot", "", []*Node{leafOf(m), leafOf(k)}, nil))
			}
		}
		ev.mapSet(st, fr.get(st, x.Map), fr.get(st, x.Key), v)
	case *ssa.Range:
		v := fr.get(st, x.X)
		if isStringType(x.X.Type()) {
			fr.set(st, x, val{n: apply1(v, func(t *Term) *Node { return leafOf(mkTerm("iter", "runes", []*Node{leafOf(t)}, nil)) })})
		} else {
			fr.set(st, x, val{n: apply1(ev.mcontent(st, v), func(t *Term) *Node { return leafOf(mkTerm("iter", "map", []*Node{leafOf(t)}, nil)) })})
		}
	case *ssa.Next:
		fr.next(st, x)
	case *ssa.Slice:
		fr.sliceInstr(st, x)
	case *ssa.Store:
		ev.store(st, fr.get(st, x.Addr), fr.get(st, x.Val), x.Val.Type())
	case *ssa.TypeAssert:
		fr.typeAssert(st, x)
	case *ssa.Call:
		res, stop := fr.call(st, &x.Call, x, cond)
		if stop {
			return true
		}
		if tup, ok := x.Type().(*types.Tuple); ok {
			if tup.Len() > 0 {
				fr.set(st, x, val{t: res})
			} else {
				fr.set(st, x, val{t: []*Node{}})
			}
		} else {
			fr.set(st, x, val{n: res[0]})
		}
	case *ssa.Go:
		fr.call(st, &x.Call, x, cond)
	case *ssa.Defer:
		d := deferred{cond: cond, call: &x.Call, ins: x}
		d.fnv, d.args = fr.callOperands(st, &x.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			g := constrain(d.cond, cond)
			if g == F || and(d.cond, cond) == F {
				continue
			}
			if g != T && and(cond, not(d.cond)) == F {
				g = T
			}
			st2 := st.clone()
			fr.invoke(st2, d.call, d.ins, d.fnv, d.args, cond)
			if g == T {
				st.mem = st2.mem
				continue
			}
			_, m := ev.mergeStates([]edge{{cond: g, st: st2}, {cond: not(g), st: st}})
			st.mem = m.mem
		}
	default:
		giveUp("unsupported instruction %T in %s", ins, fr.fn)
	}
	return false
}

func (ev *evaluator) zeros(n *Node, et types.Type) *Node {
	z := zeroOf(et)
	if k, ok := n.constInt(); ok && k <= 16 && k > 0 {
		es := make([]*Node, k)
		for i := range es {
			es[i] = z
		}
		return seqLit(es...)
	}
	return apply2(n, z, func(a, b *Term) *Node {
		return leafOf(mkTerm("fill", "", []*Node{leafOf(a), leafOf(b)}, nil))
	})
}

func (ev *evaluator) noteIface(n *Node, t types.Type) {
	for _, l := range leavesOf(n) {
		if l.op == "c" || l.op == "bot" {
			continue
		}
		if ifaceTyp[l] == nil {
			ifaceTyp[l] = t
		}
	}
}

// dynamic type of terms that were put in an interface
var ifaceTyp = map[*Term]types.Type{}

func (fr *frame) closureTerm(fn *ssa.Function, args []*Node) *Node {
	id := mkTerm("fnid", fn.String(), nil, nil)
	_ = id
	return apply(args, func(ts []*Term) *Node {
		as := make([]*Node, len(ts))
		for i, t := range ts {
			as[i] = leafOf(t)
		}
		t := mkTerm("closure", fn.String(), as, nil)
		fr.ev.fnByTerm[t] = fn
		return leafOf(t)
	}).orClosure(fr, fn, args)
}

func (n *Node) orClosure(fr *frame, fn *ssa.Function, args []*Node) *Node {
	if len(args) == 0 {
		t := mkTerm("closure", fn.String(), nil, nil)
		fr.ev.fnByTerm[t] = fn
		return leafOf(t)
	}
	return n
}

func (fr *frame) binop(st *state, x *ssa.BinOp) *Node {
	a, b := fr.get(st, x.X), fr.get(st, x.Y)
	typ := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := fr.equal(st, a, b, typ)
		if x.Op == token.NEQ {
			return not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.Op == token.GTR || x.Op == token.LEQ {
			a, b = b, a
		}
		var r *Node
		switch {
		case isStringType(typ):
			r = strLess(a, b)
		case isIntType(typ):
			r = intLess(a, b)
		default:
			r = opaque("flt", "", []*Node{a, b}, types.Typ[types.Bool])
		}
		if x.Op == token.LEQ || x.Op == token.GEQ {
			return not(r)
		}
		return r
	case token.ADD:
		if isStringType(typ) {
			return concat(a, b)
		}
		if isIntType(typ) {
			return linAdd(a, b)
		}
	case token.SUB:
		if isIntType(typ) {
			return linSub(a, b)
		}
	case token.MUL:
		if isIntType(typ) {
			return linMul(a, b)
		}
	}
	return opaque("arith", x.Op.String(), []*Node{a, b}, x.Type())
}

func linMul(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node {
		if _, ok := termInt(x); ok {
			x, y = y, x
		}
		if k, ok := termInt(y); ok {
			return linComb(linear{}, linOf(x), k).node()
		}
		if x.id > y.id {
			x, y = y, x
		}
		return leafOf(mkTerm("mul", "", []*Node{leafOf(x), leafOf(y)}, types.Typ[types.Int]))
	})
}

func (fr *frame) equal(st *state, a, b *Node, typ types.Type) *Node {
	if isBoolType(typ) {
		return ite(a, b, not(b))
	}
	switch typ.Underlying().(type) {
	case *types.Map:
		// only comparison with nil is possible
		o := a
		if a == Nil {
			o = b
		}
		return apply1(o, func(t *Term) *Node {
			switch t.op {
			case "obj":
				return F
			case "mslot":
				return not(mapHas(fr.ev.mcontent(st, t.args[0]), t.args[1]))
			}
			return eqNode(leafOf(t), Nil)
		})
	case *types.Slice:
		o := a
		if isNilOrEmpty(a) {
			o = b
		}
		return apply1(o, func(t *Term) *Node {
			if isEmptySeq(t) {
				return T
			}
			return eqNode(leafOf(t), Nil)
		})
	}
	return eqNode(a, b)
}

func isNilOrEmpty(n *Node) bool { return n == Nil || n == emptySeq }

func (fr *frame) convert(st *state, v ssa.Value, to types.Type) *Node {
	n := fr.get(st, v)
	from := v.Type()
	fs, ts := isStringType(from), isStringType(to)
	if fs && ts || isIntType(from) && isIntType(to) {
		return n
	}
	_, fsl := from.Underlying().(*types.Slice)
	_, tsl := to.Underlying().(*types.Slice)
	switch {
	case fs && tsl:
		if et := elemType(to); et != nil && types.Identical(et.Underlying(), types.Typ[types.Rune]) {
			return apply1(n, func(t *Term) *Node { return opaque("runesof", "", []*Node{leafOf(t)}, to) })
		}
		return n // []byte(s)
	case fsl && ts:
		return fr.ev.content(st, n) // string(bytes)
	case isIntType(from) && ts:
		return opaque("runestr", "", []*Node{n}, to)
	}
	if b, ok := to.Underlying().(*types.Basic); ok {
		return opaque("conv", b.Name(), []*Node{n}, to)
	}
	return n
}

func (fr *frame) lookup(st *state, x *ssa.Lookup) {
	ev := fr.ev
	m, k := fr.get(st, x.X), fr.get(st, x.Index)
	if isStringType(x.X.Type()) {
		fr.set(st, x, val{n: indexOf(m, k, x.Type())})
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	c := ev.mcontent(st, m)
	has := mapHas(c, k)
	var v *Node
	if _, ok := mt.Elem().Underlying().(*types.Map); ok {
		v = apply2(m, k, func(a, b *Term) *Node {
			if a == Nil.leaf {
				return Nil
			}
			return leafOf(mkTerm("mslot", "", []*Node{leafOf(a), leafOf(b)}, nil))
		})
	} else {
		v = mapGet(c, k, mt.Elem())
	}
	if x.CommaOk {
		fr.set(st, x, val{t: []*Node{v, has}})
	} else {
		fr.set(st, x, val{n: v})
	}
}

func (fr *frame) next(st *state, x *ssa.Next) {
	it := fr.get(st, x.Iter)
	if fr.cur == nil {
		giveUp("iteration outside a loop in %s", fr.fn)
	}
	n := fr.cur.id
	tup := x.Type().(*types.Tuple)
	if fr.cur.dom == nil {
		ok := atomNode(mkTerm("bcall", "next", []*Node{loopVar("ix", n, types.Typ[types.Int]), it}, nil))
		fr.set(st, x, val{t: []*Node{ok, loopVar("key", n, tup.At(1).Type()), loopVar("el", n, tup.At(2).Type())}})
		return
	}
	el := loopVar("el", n, tup.At(2).Type())
	key := loopVar("key", n, tup.At(1).Type())
	if !x.IsString {
		if rt, ok := x.Iter.(*ssa.Range); ok {
			mt := rt.X.Type().Underlying().(*types.Map)
			el = loopVar("el", n, mt.Elem())
			key = loopVar("key", n, mt.Key())
		}
	}
	fr.set(st, x, val{t: []*Node{T, key, el}})
}

func (fr *frame) sliceInstr(st *state, x *ssa.Slice) {
	ev := fr.ev
	base := fr.get(st, x.X)
	lo, hi := Int(0), Nil
	if x.Low != nil {
		lo = fr.get(st, x.Low)
	}
	if x.High != nil {
		hi = fr.get(st, x.High)
	}
	kind := "seq"
	if isStringType(x.X.Type()) {
		kind = "str"
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		if a := base.leaf; a != nil && rootOf(a).op == "obj" {
			base = ev.loadT(st, a, p.Elem())
			if base.leaf != nil && base.leaf.op == "seq" && x.High == nil && x.Low == nil {
				fr.set(st, x, val{n: base})
				return
			}
			if x.High != nil {
				// make([]T, n) with a constant capacity
				if k, ok := hi.constInt(); ok && k == 0 {
					fr.set(st, x, val{n: emptySeq})
					return
				}
			}
		} else {
			base = ev.load(st, base, p.Elem())
		}
		if k, ok := hi.constInt(); ok && k == at.Len() {
			hi = Nil
		}
	} else if kind == "seq" {
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok && elemType(x.X.Type()) != nil {
			c := ev.content(st, base)
			base = c
		}
	}
	fr.set(st, x, val{n: sliceOf(base, lo, hi, kind)})
}

func typeKey(t types.Type) string {
	return plainName(types.TypeString(t, nil))
}

// plainName drops what tells the reference's packages from the module's
func plainName(s string) string { return strings.ReplaceAll(s, "/internal/verifspec", "") }

func (fr *frame) typeAssert(st *state, x *ssa.TypeAssert) {
	ev := fr.ev
	v := fr.get(st, x.X)
	var ok *Node
	if types.IsInterface(x.AssertedType) {
		ok = apply1(v, func(t *Term) *Node {
			if t == Nil.leaf {
				return F
			}
			if dt := ev.dynType(t); dt != nil {
				return Bool(types.Implements(dt, x.AssertedType.Underlying().(*types.Interface)))
			}
			return atomNode(mkTerm("is", typeKey(x.AssertedType), []*Node{leafOf(t)}, nil))
		})
	} else {
		ok = apply1(v, func(t *Term) *Node {
			if t == Nil.leaf {
				return F
			}
			if dt := ev.dynType(t); dt != nil {
				return Bool(types.Identical(dt, x.AssertedType) || typeKey(dt) == typeKey(x.AssertedType))
			}
			return typeIs(leafOf(t), typeKey(x.AssertedType))
		})
	}
	as := func() *Node {
		return apply1(v, func(t *Term) *Node {
			if t == Nil.leaf {
				return zeroOf(x.AssertedType)
			}
			if t.op == "opaque" || (t.typ != nil && types.IsInterface(t.typ)) || t.typ == nil {
				if isBoolType(x.AssertedType) {
					return opaque("asbool", "", []*Node{leafOf(t)}, types.Typ[types.Bool])
				}
				if structOf(x.AssertedType) != nil && t.op != "struct" {
					return opaque("as", typeShape(x.AssertedType, 0), []*Node{leafOf(t)}, x.AssertedType)
				}
			}
			return leafOf(t)
		})
	}
	if x.CommaOk {
		fr.set(st, x, val{t: []*Node{ite(ok, as(), zeroOf(x.AssertedType)), ok}})
	} else {
		fr.set(st, x, val{n: as()})
	}
}

func (ev *evaluator) dynType(t *Term) types.Type {
	dt := ev.dynType0(t)
	if dt == nil {
		return nil
	}
	return ev.local(dt)
}

// local is the type of the same name on the side (module or reference) that
// is being evaluated
func (ev *evaluator) local(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		e := ev.local(p.Elem())
		if e == nil || e == p.Elem() {
			if e == nil {
				return nil
			}
			return t
		}
		return types.NewPointer(e)
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return t
	}
	path := n.Obj().Pkg().Path()
	if !strings.HasPrefix(path, modPath) {
		return t
	}
	isSpec := strings.Contains(path, "/internal/verifspec")
	if isSpec == ev.spec {
		return t
	}
	other := plainName(path)
	if ev.spec {
		other = modPath + "/internal/verifspec" + strings.TrimPrefix(path, modPath)
	}
	if sp := ev.p.pkgs[other]; sp != nil {
		if o := sp.Pkg.Scope().Lookup(n.Obj().Name()); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (ev *evaluator) dynType0(t *Term) types.Type {
	if dt := ifaceTyp[t]; dt != nil && t.op != "el" {
		return dt
	}
	if t.typ != nil && !types.IsInterface(t.typ) && t.op != "el" && t.op != "index" && t.op != "get" {
		if _, ok := t.typ.(*types.Basic); ok {
			return nil
		}
		return t.typ
	}
	return nil
}

// ---- calls ----

func (fr *frame) callOperands(st *state, c *ssa.CallCommon) (*Node, []*Node) {
	var fnv *Node
	if c.IsInvoke() {
		fnv = fr.get(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = fr.get(st, c.Value)
	}
	args := make([]*Node, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.get(st, a)
	}
	return fnv, args
}

func (fr *frame) call(st *state, c *ssa.CallCommon, ins ssa.Instruction, cond *Node) ([]*Node, bool) {
	fnv, args := fr.callOperands(st, c)
	return fr.invoke(st, c, ins, fnv, args, cond)
}

func (fr *frame) invoke(st *state, c *ssa.CallCommon, ins ssa.Instruction, fnv *Node, args []*Node, cond *Node) ([]*Node, bool) {
	site := fr.site + "/" + strconv.Itoa(fr.ev.iid(ins))
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, b.Name(), c, args, ins), false
	}
	if c.IsInvoke() {
		return fr.invokeMethod(st, c, fnv, args, site)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Node
		if fnv != nil && fnv.leaf != nil && fnv.leaf.op == "closure" {
			bind = fnv.leaf.args
		} else if fnv != nil && fnv.leaf == nil && len(fn.FreeVars) > 0 {
			return fr.callValue(st, fnv, args, c.Signature(), site)
		}
		return fr.callStatic(st, fn, args, bind, site, c)
	}
	return fr.callValue(st, fnv, args, c.Signature(), site)
}

// callValue calls a function value
func (fr *frame) callValue(st *state, fnv *Node, args []*Node, sig *types.Signature, site string) ([]*Node, bool) {
	ev := fr.ev
	ls := leavesOf(fnv)
	var es []edge
	var rs [][]*Node
	allOpaque := true
	for _, l := range ls {
		if fn := ev.fnByTerm[l]; fn != nil && !(len(fn.Blocks) == 0 || ev.boundary(fn)) {
			allOpaque = false
		}
	}
	if allOpaque {
		return ev.opaqueCall(st, "dyn", append([]*Node{fnv}, args...), sig), false
	}
	for _, l := range ls {
		if l.op == "bot" || l == Nil.leaf {
			continue
		}
		l := l
		g := T
		if fnv.leaf == nil {
			g = condOf(fnv, func(t *Term) bool { return t == l })
		}
		st2 := st.clone()
		var r []*Node
		if fn := ev.fnByTerm[l]; fn != nil {
			var bind []*Node
			if l.op == "closure" {
				bind = l.args
			}
			var stop bool
			r, stop = fr.callStatic(st2, fn, args, bind, site+"@"+fn.String(), nil)
			if stop {
				continue
			}
		} else {
			r = ev.opaqueCall(st2, "dyn", append([]*Node{leafOf(l)}, args...), sig)
		}
		es = append(es, edge{cond: g, st: st2})
		rs = append(rs, r)
	}
	if len(es) == 0 {
		return nil, true
	}
	_, m := ev.mergeStates(es)
	st.mem = m.clone().mem
	res := make([]*Node, len(rs[0]))
	for i := range res {
		vs := make([]*Node, len(rs))
		for j := range rs {
			vs[j] = rs[j][i]
		}
		res[i] = phiOf(es, vs)
	}
	return res, false
}

// opaqueCall: an unknown but deterministic function of its arguments
func (ev *evaluator) opaqueCall(st *state, name string, args []*Node, sig *types.Signature) []*Node {
	sargs := make([]*Node, len(args))
	for i, a := range args {
		sargs[i] = ev.snapshot(st, a)
	}
	n := sig.Results().Len()
	res := make([]*Node, n)
	for i := range res {
		res[i] = callTerm(name, i, sargs, sig.Results().At(i).Type())
	}
	// a scanner that is handed over is read from
	for _, a := range args {
		if t := a.leaf; t != nil && t.op == "scanner" && !strings.HasPrefix(name, "(*bufio.Scanner)") {
			k := mkTerm("stt", "", []*Node{a}, nil)
			st.mem[k] = opaque("read", name, []*Node{ev.cell(st, k)}, types.Typ[types.Int])
		}
	}
	return res
}

func callTerm(name string, i int, args []*Node, typ types.Type) *Node {
	key := name + "#" + strconv.Itoa(i)
	if f := callFolders[key]; f != nil {
		if r := f(args, typ); r != nil {
			return r
		}
	}
	return opaque("call", key, args, typ)
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	// wrappers and bound methods
	return len(f.Blocks) > 0 && f.Synthetic != ""
}

func (fr *frame) callStatic(st *state, fn *ssa.Function, args, bind []*Node, site string, c *ssa.CallCommon) ([]*Node, bool) {
	ev := fr.ev
	name := fullName(fn)
	if m := models[name]; m != nil {
		return m(&callCtx{fr: fr, ev: ev, st: st, fn: fn, args: args, site: site, name: name})
	}
	if len(fn.Blocks) > 0 && inModule(fn) {
		if ev.abstractReporter {
			sn := shortName(fn)
			if res, ok := ev.reporterCall(st, sn, args); ok {
				return res, false
			}
			if sn == "internal/reporter.New" {
				sargs := []*Node{Str("new")}
				for _, a := range args {
					sargs = append(sargs, ev.snapshot(st, a))
				}
				ev.effect(st, "results", sargs...)
			}
		}
		if ev.boundary(fn) {
			return ev.boundaryCall(fr, st, fn, args), false
		}
		res, st2 := ev.callFn(fn, args, bind, st, fr, site)
		st.mem = st2.clone().mem
		allBot := len(res) > 0
		for _, r := range res {
			if r != Bot {
				allBot = false
			}
		}
		return res, allBot
	}
	if codec := encoders[name]; codec != "" && c != nil {
		for _, a := range c.Args {
			if m, ok := a.(*ssa.MakeInterface); ok {
				args = append(append([]*Node{}, args...), Str(wireShape(codec, m.X.Type())))
			}
		}
	}
	return fr.external(st, fn, name, args, site), false
}

const reporterMethods = "(*internal/reporter.Reporter)."

// reporterCall: what callers of the reporter rely on. Text is dropped, errors
// set a flag, results are recorded in order.
func (ev *evaluator) reporterCall(st *state, name string, args []*Node) ([]*Node, bool) {
	m := strings.TrimPrefix(name, reporterMethods)
	if m == name {
		return nil, false
	}
	flag := func() *Term {
		if args[0].leaf == nil {
			giveUp("conditional reporter")
		}
		return mkTerm("fa", "~errored", []*Node{args[0]}, nil)
	}
	switch m {
	case "PrintTextf":
		return nil, true
	case "PrintErrorf", "PrintDatabaseLoadErr":
		ev.storeT(st, flag(), T, tBool, T)
		ev.effect(st, "errs", Str("error"))
		return nil, true
	case "HasErrored":
		return []*Node{ev.loadT(st, flag(), tBool)}, true
	case "PrintResult":
		ev.effect(st, "results", Str("result"), ev.snapshot(st, args[1]))
		return nil, true
	case "PrintJSONResults":
		ev.effect(st, "results", Str("print"))
		return nil, true
	case "PrintKnownEcosystems":
		ev.effect(st, "listing", Str("ecosystems"))
		return nil, true
	}
	return nil, false
}

func (ev *evaluator) boundaryCall(fr *frame, st *state, fn *ssa.Function, args []*Node) []*Node {
	name := shortName(fn)
	sargs := make([]*Node, len(args))
	for i, a := range args {
		if isReporterPtr(fn.Signature, i) {
			sargs[i] = Str("reporter")
			continue
		}
		sargs[i] = ev.snapshot(st, a)
	}
	if ev.stickyOf != nil {
		for j, k := range ev.stickyOf(fn) {
			i := paramIndex(rootOf(k).s)
			if args[i].leaf == nil {
				giveUp("conditional reporter")
			}
			a := reroot(k, rootOf(k), args[i].leaf)
			old := ev.loadT(st, a, tBool)
			set := apply(sargs, func(ts []*Term) *Node {
				as := make([]*Node, len(ts))
				for x, t := range ts {
					as[x] = leafOf(t)
				}
				return atomNode(mkTerm("bcall", "set"+strconv.Itoa(j)+":"+name, as, nil))
			})
			ev.storeT(st, a, or(old, set), tBool, T)
		}
	}
	if ev.effectsOf != nil {
		for _, k := range ev.effectsOf(fn) {
			if k == "panic" {
				if ev.panics {
					ev.fails(st, apply(sargs, func(ts []*Term) *Node {
						as := make([]*Node, len(ts))
						for x, t := range ts {
							as[x] = leafOf(t)
						}
						return atomNode(mkTerm("bcall", "panics:"+name, as, nil))
					}))
				}
				continue
			}
			ev.effect(st, k, append([]*Node{Str(name)}, sargs...)...)
		}
	}
	sig := fn.Signature
	n := sig.Results().Len()
	res := make([]*Node, n)
	for i := range res {
		res[i] = callTerm(name, i, sargs, sig.Results().At(i).Type())
	}
	// a scanner that is handed over is read from
	for _, a := range args {
		if t := a.leaf; t != nil && t.op == "scanner" && !strings.HasPrefix(name, "(*bufio.Scanner)") {
			k := mkTerm("stt", "", []*Node{a}, nil)
			st.mem[k] = opaque("read", name, []*Node{ev.cell(st, k)}, types.Typ[types.Int])
		}
	}
	return res
}

func isReporterPtr(sig *types.Signature, i int) bool {
	if sig.Recv() != nil {
		i--
	}
	t := types.Type(nil)
	if i < 0 {
		t = sig.Recv().Type()
	} else {
		t = sig.Params().At(i).Type()
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(types.TypeString(p.Elem(), nil), "internal/reporter.Reporter")
}

// shortName names exported functions of the module
func shortName(fn *ssa.Function) string {
	s := plainName(fn.String())
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (fr *frame) invokeMethod(st *state, c *ssa.CallCommon, recv *Node, args []*Node, site string) ([]*Node, bool) {
	ev := fr.ev
	m := c.Method
	if models["iface."+m.Name()] != nil && isErrorIface(c.Value.Type()) {
		return models["iface."+m.Name()](&callCtx{fr: fr, ev: ev, st: st, args: append([]*Node{recv}, args...), site: site, name: m.Name()})
	}
	// known dynamic types
	var es []edge
	var rs [][]*Node
	for _, l := range leavesOf(recv) {
		if l.op == "bot" || l == Nil.leaf {
			continue
		}
		l := l
		g := T
		if recv.leaf == nil {
			g = condOf(recv, func(t *Term) bool { return t == l })
		}
		st2 := st.clone()
		var r []*Node
		dt := ev.dynType(l)
		var target *ssa.Function
		if dt != nil {
			if sel := ev.p.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name()); sel != nil {
				target = ev.p.prog.MethodValue(sel)
			}
		}
		if target != nil && len(target.Blocks) > 0 {
			var stop bool
			r, stop = fr.callStatic(st2, target, append([]*Node{leafOf(l)}, args...), nil, site+"@"+target.String(), nil)
			if stop {
				continue
			}
		} else {
			name := ifaceName(c.Value.Type(), m)
			if mod := models[name]; mod != nil {
				var stop bool
				r, stop = mod(&callCtx{fr: fr, ev: ev, st: st2, args: append([]*Node{leafOf(l)}, args...), site: site, name: name, sig: c.Signature()})
				if stop {
					continue
				}
			} else {
				if ifaceEffects[name] {
					sargs := []*Node{leafOf(l)}
					for _, a := range args {
						sargs = append(sargs, ev.snapshot(st2, a))
					}
					ev.effect(st2, name, sargs...)
				}
				if m.Pkg() != nil && !strings.HasPrefix(m.Pkg().Path(), modPath) && !knownIface[name] {
					ev.unknownEx[name]++
				}
				r = ev.opaqueCall(st2, name, append([]*Node{leafOf(l)}, args...), c.Signature())
			}
		}
		es = append(es, edge{cond: g, st: st2})
		rs = append(rs, r)
	}
	if len(es) == 0 {
		return nil, true
	}
	_, mst := ev.mergeStates(es)
	st.mem = mst.clone().mem
	res := make([]*Node, len(rs[0]))
	for i := range res {
		vs := make([]*Node, len(rs))
		for j := range rs {
			vs[j] = rs[j][i]
		}
		res[i] = phiOf(es, vs)
	}
	return res, false
}

// knownIface: methods of library interfaces whose results are functions of
// their arguments
var knownIface = map[string]bool{}

var ifaceEffects = map[string]bool{"pkg/database.DB.Check": true}

func isErrorIface(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func ifaceName(t types.Type, m *types.Func) string {
	s := plainName(types.TypeString(t, nil))
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s + "." + m.Name()
}

// external: function of another module or the standard library without model
func (fr *frame) external(st *state, fn *ssa.Function, name string, args []*Node, site string) []*Node {
	ev := fr.ev
	if !knownExternal(name) {
		ev.unknownEx[name]++
	}
	sargs := make([]*Node, len(args))
	for i, a := range args {
		sargs[i] = ev.snapshot(st, a)
	}
	res := make([]*Node, fn.Signature.Results().Len())
	for i := range res {
		res[i] = callTerm(name, i, sargs, fn.Signature.Results().At(i).Type())
	}
	if ev.panics && strings.HasPrefix(fn.Name(), "Must") {
		ev.fails(st, apply(sargs, func(ts []*Term) *Node {
			as := make([]*Node, len(ts))
			for x, t := range ts {
				as[x] = leafOf(t)
			}
			return atomNode(mkTerm("bcall", "panics:"+name, as, nil))
		}))
	}
	if c, ok := effectClass[name]; ok {
		ev.effect(st, c, append([]*Node{Str(name)}, sargs...)...)
	}
	return res
}

var effectClass = map[string]string{}

func (fr *frame) builtin(st *state, name string, c *ssa.CallCommon, args []*Node, ins ssa.Instruction) []*Node {
	ev := fr.ev
	switch name {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Map:
			return []*Node{apply1(args[0], func(x *Term) *Node {
				if x == Nil.leaf {
					return Int(0)
				}
				return lenOf(ev.mcontentT(st, x), "map")
			})}
		case *types.Basic:
			return []*Node{lenOf(args[0], "str")}
		case *types.Array:
			return []*Node{Int(u.Len())}
		case *types.Pointer:
			return []*Node{Int(u.Elem().Underlying().(*types.Array).Len())}
		}
		return []*Node{lenOf(ev.content(st, args[0]), "seq")}
	case "append":
		b := args[1]
		if isStringType(c.Args[1].Type()) {
			return []*Node{concat(ev.content(st, args[0]), b)}
		}
		return []*Node{seqCat(ev.content(st, args[0]), ev.content(st, b))}
	case "copy":
		src := ev.content(st, args[1])
		for _, l := range leavesOf(args[0]) {
			k := mkTerm("sc", "", []*Node{leafOf(l)}, nil)
			old := ev.content(st, leafOf(l))
			if lenOf(old, "seq") == lenOf(src, "seq") {
				st.mem[k] = src
			} else {
				st.mem[k] = opaque("copied", "", []*Node{old, src}, nil)
			}
		}
		return []*Node{lenOf(src, "seq")}
	case "delete":
		for _, t := range leavesOf(args[0]) {
			if t == Nil.leaf || t.op == "bot" {
				continue
			}
			old := ev.mcontentT(st, t)
			ev.mapStoreT(st, t, opaque("mapdel", "", []*Node{old, args[1]}, nil))
		}
		return nil
	case "clear":
		for _, t := range leavesOf(args[0]) {
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				ev.mapStoreT(st, t, emptyMap)
			} else {
				giveUp("clear of a slice")
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var c2 *Node
			if isStringType(c.Args[0].Type()) {
				c2 = strLess(r, a)
			} else {
				c2 = intLess(r, a)
			}
			if name == "min" {
				r = ite(c2, r, a)
			} else {
				r = ite(c2, a, r)
			}
		}
		return []*Node{r}
	case "print", "println", "close", "recover":
		if name == "recover" {
			return []*Node{Nil}
		}
		return nil
	case "ssa:wrapnilchk":
		return []*Node{args[0]}
	case "ssa:deferstack":
		return []*Node{Nil}
	}
	giveUp("builtin %s", name)
	return nil
}

// seqUpd is s with element i replaced
func seqUpd(s, i, v *Node) *Node {
	return apply2(s, i, func(x, y *Term) *Node {
		if k, ok := termInt(y); ok && x.op == "seq" && k >= 0 && int(k) < len(x.args) {
			args := append([]*Node{}, x.args...)
			args[k] = v
			return seqLit(args...)
		}
		if x.op == "upd" && x.args[1].leaf == y {
			return leafOf(mkTerm("upd", "", []*Node{x.args[0], leafOf(y), v}, nil))
		}
		return leafOf(mkTerm("upd", "", []*Node{leafOf(x), leafOf(y), v}, nil))
	})
}

// runInits evaluates the package initialisers, for the values of globals
func (ev *evaluator) runInits() {
	ev.globals = map[*Term]*Node{}
	var paths []string
	for p := range ev.p.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := ev.p.pkgs[path]
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						if debug {
							fmt.Println("init of", path, "undecided:", u.msg)
						}
						return
					}
					panic(r)
				}
			}()
			st := &state{mem: map[*Term]*Node{}}
			fr := &frame{ev: ev, fn: fn, inInit: true}
			// the guard of init is false at the start
			_, out := ev.callFn(fn, nil, nil, st, fr0(fr), "init:"+path)
			for _, k := range byID(out.mem) {
				v := out.mem[k]
				ev.globals[k] = v
				ev.globalSlices = ev.globalSlices || k.op == "sc"
			}
		}()
	}
	ev.initDone = true
}

func fr0(f *frame) *frame { return &frame{ev: f.ev, inInit: true} }

var debug bool
var traceEval = os.Getenv("TRACEEVAL") != ""

func byValue[V any](m map[ssa.Value]V) []ssa.Value {
	ks := make([]ssa.Value, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	key := func(v ssa.Value) string {
		if p := v.Parent(); p != nil {
			return p.String() + " " + v.Name()
		}
		return v.Name()
	}
	sort.Slice(ks, func(i, j int) bool { return key(ks[i]) < key(ks[j]) })
	return ks
}
