package main

// Loops are summarised: the values a loop leaves are written as comprehensions,
// quantifiers, sums, last/first elements or, failing that, as folds over the
// domain the loop runs through.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type reg struct {
	phi  *ssa.Phi
	key  *Term
	typ  types.Type
	init *Node
	lv   *Term
	lvn  *Node
	next *Node
	fin  *Node
}

type loopEval struct {
	fr     *frame
	l      *loopInfo
	n      int
	ins    []edge
	st0    *state
	phis   []*ssa.Phi
	inits  map[*ssa.Phi]*Node
	step   map[*ssa.Phi]int64 // induction variables
	regs   []*reg
	byPhi  map[*ssa.Phi]*reg
	byKey  map[*Term]*reg
	dom    *Node
	e0     *ssa.BasicBlock
	e0to   *ssa.BasicBlock
	nat    *edge
	backs  []edge
	outs   []edge
	contC  *Node
	contSt *state
	kstep  map[*Term]int64    // counters in memory
	fields []fieldReg         // what registers that are pointers point to
	carry  map[*ssa.Phi]*Term // maps that an iteration may replace by another one
	run    func(st *state) (backs, outs []edge)
	writes *Node           // to memory that is not tracked
	over   map[*Term]*Node // contents of slices whose elements were written
}

// fieldReg is a register for a field of what a pointer register points to
type fieldReg struct {
	r, base *reg
	f       string
	typ     types.Type
}

const maxUnroll = 48

func (fr *frame) evalLoop(l *loopInfo, in []edge) []edge {
	ev := fr.ev
	ev.stats.loops++
	if out, ok := fr.unroll(l, in); ok {
		return out
	}
	le := &loopEval{fr: fr, l: l, n: newLoopID(), inits: map[*ssa.Phi]*Node{}, step: map[*ssa.Phi]int64{},
		byPhi: map[*ssa.Phi]*reg{}, byKey: map[*Term]*reg{}, kstep: map[*Term]int64{}}
	save := fr.cur
	ev.stack = append(ev.stack, le.n)
	ev.loops = append(ev.loops, le)
	nd := len(fr.defers)
	defer func() {
		fr.cur = save
		ev.stack = ev.stack[:len(ev.stack)-1]
		ev.loops = ev.loops[:len(ev.loops)-1]
		delete(loopDom, le.n)
		fr.defers = fr.defers[:nd]
	}()
	le.enter(in)
	inCond := F
	for _, e := range in {
		inCond = or(inCond, e.cond)
	}
	le.fix()
	le.domain()
	if le.dom != nil {
		loopDom[le.n] = le.dom
		le.fix()
	}
	outs := le.finish()
	for i := range outs {
		outs[i].cond = and(inCond, outs[i].cond)
	}
	return outs
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func phiVals(fr *frame, b *ssa.BasicBlock, p *ssa.Phi, in []edge) *Node {
	vals := make([]*Node, len(in))
	for i, e := range in {
		for j, pr := range b.Preds {
			if pr == e.from {
				vals[i] = fr.get(e.st, p.Edges[j])
			}
		}
		if vals[i] == nil {
			giveUp("phi edge not found")
		}
	}
	return phiOf(in, vals)
}

// unroll runs a loop over a literal sequence element by element
func (fr *frame) unroll(l *loopInfo, in []edge) ([]edge, bool) {
	ev := fr.ev
	// cheap pre-check: the exit test of the header must be decided at entry
	cur := in
	var outs []edge
	save := fr.cur
	nd := len(fr.defers)
	defer func() { fr.cur = save }()
	hasNext := false
	b := l.header
	for {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Next); ok {
				hasNext = true
			}
		}
		if len(b.Succs) != 1 {
			break
		}
		b = b.Succs[0]
		if !l.blocks[b] || b == l.header {
			return nil, false
		}
	}
	if hasNext {
		return nil, false
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || (l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]]) {
		return nil, false
	}
	// only worth trying if the bound is a literal
	for it := 0; ; it++ {
		if it > maxUnroll {
			fr.defers = fr.defers[:nd]
			return nil, false
		}
		vals := make([]*Node, 0, 4)
		ps := phisOf(l.header)
		for _, p := range ps {
			vals = append(vals, phiVals(fr, l.header, p, cur))
		}
		c, st := ev.mergeStates(cur)
		st = st.clone()
		for i, p := range ps {
			fr.set(st, p, val{n: vals[i]})
		}
		fr.cur = &activeLoop{id: newLoopID()}
		if it == 0 {
			// evaluate the test alone, on a copy
			ok := fr.probe(l, b, iff, st.clone())
			if !ok {
				fr.defers = fr.defers[:nd]
				return nil, false
			}
		}
		backs, os := fr.region(l.header, l.blocks, l.header, []edge{{from: nil, to: l.header, cond: c, st: st}})
		t := fr.get(nil, iff.Cond)
		if t != T && t != F {
			fr.defers = fr.defers[:nd]
			return nil, false
		}
		for i := range os {
			os[i].st = fr.withLive(l, os[i].st)
			outs = append(outs, os[i])
		}
		if len(backs) == 0 {
			return outs, true
		}
		for i := range backs {
			// pin the values the phis read
			st := backs[i].st.clone()
			ov := map[ssa.Value]val{}
			for _, k := range byValue(st.ov) {
				v := st.ov[k]
				ov[k] = v
			}
			for _, p := range ps {
				for j, pr := range l.header.Preds {
					if pr == backs[i].from {
						if _, isC := p.Edges[j].(*ssa.Const); !isC {
							ov[p.Edges[j]] = fr.getv(backs[i].st, p.Edges[j])
						}
					}
				}
			}
			st.ov = ov
			backs[i].st = st
		}
		cur = backs
	}
}

// withLive pins the values of the loop that are used after it
func (fr *frame) withLive(l *loopInfo, st *state) *state {
	if len(l.live) == 0 {
		return st
	}
	st = st.clone()
	ov := map[ssa.Value]val{}
	for _, k := range byValue(st.ov) {
		v := st.ov[k]
		ov[k] = v
	}
	for _, v := range l.live {
		if x, ok := st.ov[v]; ok {
			ov[v] = x
		} else if x, ok := fr.env[v]; ok {
			ov[v] = x
		}
	}
	st.ov = ov
	return st
}

// probe evaluates the header test; true if it is constant
func (fr *frame) probe(l *loopInfo, last *ssa.BasicBlock, iff *ssa.If, st *state) (ok bool) {
	b := l.header
	for {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
			case *ssa.If:
				t := fr.get(st, x.Cond)
				return t == T || t == F
			case *ssa.Jump:
			case *ssa.Call, *ssa.Go, *ssa.Defer:
				if c, isC := ins.(*ssa.Call); isC {
					if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
						fr.instr(ins, st, T)
						continue
					}
				}
				return false
			case *ssa.Return, *ssa.Panic:
				return false
			default:
				if fr.instr(ins, st, T) {
					return false
				}
			}
		}
		if b == last {
			return false
		}
		b = b.Succs[0]
	}
}

func (le *loopEval) enter(in []edge) {
	fr := le.fr
	le.phis = phisOf(le.l.header)
	for _, p := range le.phis {
		le.inits[p] = phiVals(fr, le.l.header, p, in)
	}
	_, le.st0 = fr.ev.mergeStates(in)
	le.ins = in
	for _, p := range le.phis {
		if k, ok := le.induction(p); ok {
			le.step[p] = k
		}
	}
}

// induction: the phi changes by a constant in every iteration
func (le *loopEval) induction(p *ssa.Phi) (int64, bool) {
	if !isIntType(p.Type()) {
		return 0, false
	}
	step, have := int64(0), false
	for j, pr := range le.l.header.Preds {
		if !le.l.blocks[pr] {
			continue
		}
		b, ok := p.Edges[j].(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			return 0, false
		}
		k := c.Int64()
		if b.Op == token.SUB {
			k = -k
		}
		if have && k != step {
			return 0, false
		}
		step, have = k, true
	}
	return step, have
}

func (le *loopEval) newReg(phi *ssa.Phi, key *Term, typ types.Type, init *Node) *reg {
	i := len(le.regs) + 1
	r := &reg{phi: phi, key: key, typ: typ, init: init}
	r.lv = mkTerm("lv", "#"+strconv.Itoa(le.n)+"."+strconv.Itoa(i), nil, typ)
	if isBoolType(typ) {
		r.lvn = atomNode(mkTerm("bcall", "var", []*Node{leafOf(r.lv)}, nil))
	} else {
		r.lvn = leafOf(r.lv)
	}
	le.regs = append(le.regs, r)
	return r
}

func (le *loopEval) trial() {
	fr, ev := le.fr, le.fr.ev
	st := le.st0.clone()
	ix := loopVar("ix", le.n, types.Typ[types.Int])
	if le.run != nil {
		le.memRegs(st, ix)
		le.backs, le.outs = le.run(st)
		le.nat = &edge{st: st.clone(), cond: T}
		le.contC, le.contSt = F, nil
		if len(le.backs) > 0 {
			le.contC, le.contSt = ev.mergeStates(le.backs)
		}
		return
	}
	for _, p := range le.phis {
		switch {
		case le.carry[p] != nil:
			fr.set(st, p, val{n: leafOf(le.carry[p])})
		case le.byPhi[p] != nil:
			fr.set(st, p, val{n: le.byPhi[p].lvn})
		case le.step[p] != 0:
			fr.set(st, p, val{n: linAdd(le.inits[p], linMul(ix, Int(le.step[p])))})
		default:
			fr.set(st, p, val{n: le.inits[p]})
		}
	}
	le.memRegs(st, ix)
	fr.cur = &activeLoop{id: le.n, dom: le.dom, e0: le.e0, e0to: le.e0to}
	cur := fr.cur
	le.backs, le.outs = fr.region(le.l.header, le.l.blocks, le.l.header, []edge{{to: le.l.header, cond: T, st: st}})
	le.nat = cur.natOut
	le.carryOver()
	for i := range le.outs {
		le.outs[i].st = fr.withLive(le.l, le.outs[i].st)
	}
	if le.nat != nil {
		le.nat.st = fr.withLive(le.l, le.nat.st)
	}
	le.contC, le.contSt = F, nil
	if len(le.backs) > 0 {
		le.contC, le.contSt = ev.mergeStates(le.backs)
	}
}

func (le *loopEval) memRegs(st *state, ix *Node) {
	for _, f := range le.fields {
		st.mem[addrFA(f.base.lv, f.f, nil)] = f.r.lvn
	}
	for k, r := range le.byKey {
		st.mem[k] = r.lvn
	}
	for k, s := range le.kstep {
		init, ok := le.st0.mem[k]
		if !ok {
			init = le.fr.ev.defaultCell(le.st0, k)
		}
		st.mem[k] = linAdd(init, linMul(ix, Int(s)))
	}
}

// synth evaluates a loop that the library runs: body is called with the state
// at the start of an iteration and the loop's number, and gives the states in
// which the loop goes on and those in which it stops
func (fr *frame) synth(dom *Node, st *state, body func(st *state, n int) (backs, outs []edge)) []edge {
	ev := fr.ev
	ev.stats.loops++
	le := &loopEval{fr: fr, n: newLoopID(), inits: map[*ssa.Phi]*Node{}, step: map[*ssa.Phi]int64{},
		byPhi: map[*ssa.Phi]*reg{}, byKey: map[*Term]*reg{}, kstep: map[*Term]int64{}}
	le.l = &loopInfo{}
	ev.stack = append(ev.stack, le.n)
	loopDom[le.n] = dom
	defer func() {
		ev.stack = ev.stack[:len(ev.stack)-1]
		delete(loopDom, le.n)
	}()
	le.st0 = st.clone()
	le.dom = dom
	le.run = func(st *state) ([]edge, []edge) { return body(st, le.n) }
	le.fix()
	return le.finish()
}

// fix finds the registers that change from iteration to iteration
func (le *loopEval) fix() {
	fr, ev := le.fr, le.fr.ev
	for round := 0; ; round++ {
		if round > 30 {
			giveUp("registers of a loop in %s do not stabilise", fr.fn)
		}
		le.trial()
		if len(le.backs) == 0 {
			return
		}
		changed := false
		for _, p := range le.phis {
			nx := phiVals(fr, le.l.header, p, le.backs)
			if r := le.byPhi[p]; r != nil {
				r.next = nx
				continue
			}
			if le.step[p] != 0 {
				continue
			}
			if le.carry[p] != nil {
				continue
			}
			if nx != le.inits[p] && le.carries(p, nx) {
				changed = true
				continue
			}
			if nx != le.inits[p] {
				le.byPhi[p] = le.newReg(p, nil, p.Type(), le.inits[p])
				changed = true
			}
		}
		if le.pointees() {
			changed = true
		}
		keys := make([]*Term, 0, len(le.contSt.mem))
		seen := map[*Term]bool{}
		for _, k := range byID(le.contSt.mem) {
			seen[k] = true
			keys = append(keys, k)
		}
		for _, k := range byID(le.st0.mem) {
			if !seen[k] {
				keys = append(keys, k)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, k := range keys {
			if hasFree(k.free, le.n) {
				continue
			}
			init, ok := le.st0.mem[k]
			if !ok {
				init = ev.defaultCell(le.st0, k)
			}
			next, ok := le.contSt.mem[k]
			if !ok {
				next = ev.defaultCell(le.contSt, k)
			}
			if r := le.byKey[k]; r != nil {
				r.next = next
				continue
			}
			if _, ok := le.kstep[k]; ok {
				// still a counter?
				ix := loopVar("ix", le.n, types.Typ[types.Int])
				if next != linAdd(init, linMul(linAdd(ix, Int(1)), Int(le.kstep[k]))) {
					delete(le.kstep, k)
					le.byKey[k] = le.newReg(nil, k, ev.cellTyp[k], init)
					changed = true
				}
				continue
			}
			if next == init {
				continue
			}
			if k.op == "stt" && le.kstep[k] == 0 {
				if d, ok := linDiff(next, init); ok {
					if v, ok := d.constInt(); ok {
						le.kstep[k] = v
						changed = true
						continue
					}
				}
			}
			typ := ev.cellTyp[k]
			if k.op == "mc" || k.op == "sc" || k.op == "tr" {
				typ = nil
			}
			le.byKey[k] = le.newReg(nil, k, typ, init)
			changed = true
		}
		if !changed {
			return
		}
	}
}

// carries: a map variable that iterations replace by maps of their own (as in
// m = merge(m, more)) is one map whose content is replaced
func (le *loopEval) carries(p *ssa.Phi, next *Node) bool {
	if _, ok := p.Type().Underlying().(*types.Map); !ok {
		return false
	}
	for _, n := range []*Node{le.inits[p], next} {
		for _, t := range leavesOf(n) {
			if t.op != "obj" && t.op != "bot" {
				return false
			}
		}
	}
	ev := le.fr.ev
	inner := ev.stack
	ev.stack = inner[:len(inner)-1]
	v := ev.objTerm("carried:"+strconv.Itoa(le.n), p.Type())
	ev.stack = inner
	if le.carry == nil {
		le.carry = map[*ssa.Phi]*Term{}
	}
	le.carry[p] = v
	le.st0 = le.st0.clone()
	ev.mapStoreT(le.st0, v, ev.mcontent(le.st0, le.inits[p]))
	return true
}

// carryOver gives the maps of carry the content the iteration ends with
func (le *loopEval) carryOver() {
	if len(le.carry) == 0 {
		return
	}
	ev := le.fr.ev
	for i, e := range le.backs {
		st := e.st.clone()
		for _, p := range le.phis {
			if v := le.carry[p]; v != nil {
				ev.mapStoreT(st, v, ev.mcontent(e.st, phiVals(le.fr, le.l.header, p, []edge{e})))
			}
		}
		le.backs[i].st = st
	}
}

// pointees adds registers for the fields of what pointer registers point to
func (le *loopEval) pointees() bool {
	ev := le.fr.ev
	for _, f := range le.fields {
		k := addrFA(f.base.lv, f.f, nil)
		if v := le.contSt.mem[k]; v != nil && v != f.r.lvn {
			giveUp("write through a pointer that is carried round a loop in %s", le.fr.fn)
		}
		f.r.next = ev.load(le.contSt, apply1(f.base.next, func(t *Term) *Node {
			if t == Nil.leaf || t.op == "bot" {
				return Bot
			}
			return leafOf(addrFA(t, f.f, nil))
		}), f.typ)
	}
	changed := false
	for _, r := range append([]*reg{}, le.regs...) {
		if !ev.lvLoads[r.lv] || r.typ == nil {
			continue
		}
		delete(ev.lvLoads, r.lv)
		p, ok := r.typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		st := ev.splits(p.Elem())
		if st == nil {
			continue
		}
		for i, k := range fieldKeys(st) {
			ft := st.Field(i).Type()
			if ev.splits(ft) != nil {
				continue
			}
			addr := apply1(r.init, func(t *Term) *Node {
				if t == Nil.leaf || t.op == "bot" {
					return Bot
				}
				return leafOf(addrFA(t, k, nil))
			})
			init := ev.load(le.st0, addr, ft)
			fr := le.newReg(nil, nil, ft, init)
			le.fields = append(le.fields, fieldReg{fr, r, k, ft})
			changed = true
		}
	}
	return changed
}

func (le *loopEval) mentionsLv(n *Node) bool {
	if !hasFree(n.free, le.n) {
		return false
	}
	for _, r := range le.regs {
		if mentions(n, r.lv) {
			return true
		}
	}
	return false
}

// domain recognises what the loop runs through
func (le *loopEval) domain() {
	b := le.l.header
	for len(b.Succs) == 1 {
		b = b.Succs[0]
		if !le.l.blocks[b] || b == le.l.header {
			return
		}
		if le.fr.forest.byHeader[b] != nil {
			return
		}
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	var out, stay *ssa.BasicBlock
	switch {
	case !le.l.blocks[b.Succs[0]] && le.l.blocks[b.Succs[1]]:
		out, stay = b.Succs[0], b.Succs[1]
	case !le.l.blocks[b.Succs[1]] && le.l.blocks[b.Succs[0]]:
		out, stay = b.Succs[1], b.Succs[0]
	default:
		return
	}
	for _, la := range le.l.latch {
		if !b.Dominates(la) {
			return
		}
	}
	fr := le.fr
	get := func(v ssa.Value) *Node {
		if i, ok := v.(ssa.Instruction); ok && le.l.blocks[i.Block()] {
			return fr.get(nil, v)
		}
		return fr.get(le.st0, v)
	}
	goC := get(iff.Cond)
	if stay == b.Succs[1] {
		goC = not(goC)
	}
	var dom *Node
	// range over a map or string
	if x, ok := iff.Cond.(*ssa.Extract); ok && x.Index == 0 {
		if nx, ok := x.Tuple.(*ssa.Next); ok && stay == b.Succs[0] {
			it := get(nx.Iter)
			dom = apply1(it, func(t *Term) *Node {
				if t.op != "iter" {
					giveUp("unknown iterator")
				}
				if t.s == "map" {
					return mapDom(t.args[0])
				}
				return leafOf(mkTerm("runes", "", t.args, nil))
			})
		}
	}
	// i < len(s)
	if dom == nil {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS && stay == b.Succs[0] {
			if get(bo.X) == loopVar("ix", le.n, types.Typ[types.Int]) {
				if c, ok := bo.Y.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						v := c.Call.Args[0]
						if _, ok := v.Type().Underlying().(*types.Slice); ok {
							d := fr.ev.content(le.st0, get(v))
							if !hasFree(d.free, le.n) {
								dom = d
							}
						}
					}
				}
			}
		}
	}
	if dom == nil && !le.mentionsLv(goC) {
		dom = le.boundDomain(goC)
	}
	if dom == nil || hasFree(dom.free, le.n) {
		return
	}
	le.dom, le.e0, le.e0to = dom, b, out
}

// boundDomain: go is ix < N, or there is a next line
func (le *loopEval) boundDomain(g *Node) *Node {
	if g.leaf != nil {
		return nil
	}
	// conditions that do not depend on the iteration are split off
	if !hasFree(g.atom.free, le.n) {
		pick := func(n *Node) *Node {
			if n == F {
				return emptySeq
			}
			return le.boundDomain(n)
		}
		h, l := pick(g.hi), pick(g.lo)
		if h == nil || l == nil {
			return nil
		}
		return ite(atomNode(g.atom), h, l)
	}
	ixT := mkTerm("ix", "#"+strconv.Itoa(le.n), nil, types.Typ[types.Int])
	a := g.atom
	switch {
	case a.op == "lt" && isBoolLeaf(g.hi) && isBoolLeaf(g.lo):
		c, _ := strconv.ParseInt(a.s, 10, 64)
		l := linOf(a.args[0].leaf)
		k := l.co[ixT]
		if k != 1 && k != -1 {
			return nil
		}
		l.co[ixT] = 0
		rest := l.node()
		if hasFree(rest.free, le.n) {
			return nil
		}
		var bound *Node
		switch {
		case k == 1 && g.hi == T:
			bound = linSub(Int(c), rest) // ix < c - rest
		case k == -1 && g.lo == T:
			// !(rest - ix < c) <=> ix <= rest - c
			bound = linAdd(linSub(rest, Int(c)), Int(1))
		default:
			return nil
		}
		if t := bound.leaf; t != nil && t.op == "len" && t.s == "seq" {
			return t.args[0]
		}
		return apply1(bound, func(t *Term) *Node {
			return leafOf(mkTerm("irange", "", []*Node{leafOf(t)}, nil))
		})
	case a.op == "bcall" && a.s == "scan" && g.hi == T && g.lo == F:
		if a.args[1].leaf == ixT {
			return leafOf(mkTerm("lines", "", []*Node{a.args[0]}, nil))
		}
	case (a.op == "erris" || a.op == "eq2") && g.hi == F && g.lo == T:
		e, o := a.args[0].leaf, a.args[1].leaf
		if e.op == "gval" {
			e, o = o, e
		}
		if o.op == "gval" && o.s == "io.EOF" && e.op == "rowerr" && e.args[1].leaf == ixT {
			return leafOf(mkTerm("rows", "", []*Node{e.args[0]}, nil))
		}
	}
	return nil
}

func (le *loopEval) finish() []edge {
	n := le.n
	ev := le.fr.ev
	dom := le.dom
	forever := dom == nil
	if forever {
		dom = leafOf(mkTerm("nat", "", nil, nil))
	}
	stop := F
	for _, o := range le.outs {
		stop = or(stop, o.cond)
	}
	if len(le.backs) == 0 {
		// the body always leaves: at most one iteration
		return le.finishOnce(dom, forever, stop)
	}
	le.solve(dom)
	ix := loopVar("ix", n, types.Typ[types.Int])
	pre := map[*Term]*Node{}
	fin := map[*Term]*Node{}
	for _, r := range le.regs {
		pre[r.lv] = le.preOf(r, ix)
		fin[r.lv] = r.fin
	}
	var outs []edge
	stopP := substitute(stop, pre)
	fams := le.families(dom, pre)
	some := mkExists(dom, n, stopP)
	if forever {
		some = T
	}
	// natural exit
	if !forever && le.nat != nil && not(some) != F {
		length := domLen(dom)
		m := map[*Term]*Node{}
		for k, v := range fin {
			m[k] = v
		}
		m[mkTerm("ix", "#"+strconv.Itoa(n), nil, nil)] = length
		s := newSubst(m)
		st := le.leave(le.nat.st, s, nil, fams)
		le.addWrites(st)
		outs = append(outs, edge{le.nat.from, le.nat.to, not(some), st})
	}
	for _, o := range le.outs {
		x := constrain(substitute(o.cond, pre), stopP)
		m := le.firstVars(dom, stopP)
		m2 := map[*Term]*Node{}
		for _, k := range byID(m) {
			v := m[k]
			m2[k] = v
		}
		sv := newSubst(m)
		for _, k := range byID(pre) {
			v := pre[k]
			m2[k] = sv.node(v)
		}
		s := newSubst(m2)
		st := le.leave(o.st, s, sv, fams)
		le.addWrites(st)
		outs = append(outs, edge{o.from, o.to, and(some, sv.node(x)), st})
	}
	_ = ev
	return outs
}

func domLen(dom *Node) *Node {
	return apply1(dom, func(t *Term) *Node {
		switch t.op {
		case "irange":
			// an empty range when the bound is negative
			return t.args[0]
		case "mdom":
			return lenOf(t.args[0], "map")
		}
		return lenOf(leafOf(t), "seq")
	})
}

// finishOnce: every iteration leaves the loop, so only the first is run
func (le *loopEval) finishOnce(dom *Node, forever bool, stop *Node) []edge {
	var outs []edge
	n := le.n
	ne := T
	if !forever {
		ne = mkExists(dom, n, T)
	}
	m := le.firstVars(dom, T)
	s := newSubst(m)
	for _, o := range le.outs {
		outs = append(outs, edge{o.from, o.to, and(ne, s.node(o.cond)), le.leave(o.st, s, s, nil)})
	}
	if le.nat != nil && not(ne) != F {
		m2 := map[*Term]*Node{mkTerm("ix", "#"+strconv.Itoa(n), nil, nil): Int(0)}
		s2 := newSubst(m2)
		outs = append(outs, edge{le.nat.from, le.nat.to, not(ne), le.leave(le.nat.st, s2, nil, nil)})
	}
	return outs
}

// firstVars: the variables of the loop at the first iteration that satisfies stop
func (le *loopEval) firstVars(dom, stop *Node) map[*Term]*Node {
	n := le.n
	s := "#" + strconv.Itoa(n)
	m := map[*Term]*Node{}
	for _, op := range []string{"el", "ix", "key"} {
		t := mkTerm(op, s, nil, nil)
		m[t] = mkFirst(op, dom, n, stop, t.typ)
	}
	return m
}

// mkFirst is the element (index, key) of the first iteration satisfying stop
func mkFirst(what string, dom *Node, n int, stop *Node, typ types.Type) *Node {
	if dom.leaf == nil {
		return apply1(dom, func(t *Term) *Node { return mkFirst(what, leafOf(t), n, stop, typ) })
	}
	d := dom.leaf
	if isEmptySeq(d) || dom == Bot {
		return Bot
	}
	if stop == T {
		switch what {
		case "ix":
			return Int(0)
		case "el":
			switch d.op {
			case "mdom", "irange", "nat", "runes", "lines":
			default:
				return indexOf(dom, Int(0), typ)
			}
		}
	}
	if d.op == "seq" && what == "el" && !usesIndex(stop, n) {
		r := Bot
		for i := len(d.args) - 1; i >= 0; i-- {
			c := bindElem(stop, n, d.args[i])
			r = ite(c, d.args[i], r)
		}
		return r
	}
	if d.op == "comp" && what == "el" && !usesIndex(stop, n) {
		// a filtered or mapped domain
		simple := true
		for _, l := range leavesOf(d.args[1]) {
			if l.op != "seq" || len(l.args) > 1 {
				simple = false
			}
		}
		if simple {
			m := newLoopID()
			as := openBinder(d, m)
			c := condSeqExists(as[1], n, stop)
			v := mapLeaves(as[1], func(t *Term) *Node {
				if len(t.args) == 0 {
					return Bot
				}
				return t.args[0]
			})
			v = constrain(v, c)
			mm := map[*Term]*Node{}
			for _, op := range []string{"el", "ix", "key"} {
				t := mkTerm(op, "#"+strconv.Itoa(m), nil, nil)
				mm[t] = mkFirst(op, as[0], m, c, t.typ)
			}
			return substitute(v, mm)
		}
	}
	r := closeRaw("first", what, n, []*Node{dom, stop})
	setTyp(r, typ)
	return r
}

func setTyp(r *Node, typ types.Type) {
	if typ == nil {
		return
	}
	for _, l := range leavesOf(r) {
		if l.op == "bot" || l.op == "c" {
			continue
		}
		if l.typ == nil {
			l.typ = typ
		}
		if l.st == nil && l.op != "struct" {
			if st, ok := typ.Underlying().(*types.Struct); ok {
				l.st = canon(st)
			}
		}
	}
}

// leave rewrites a state for the code after the loop
func (le *loopEval) leave(st *state, s *subst, keySub *subst, fams map[*Term]*Node) *state {
	out := &state{mem: map[*Term]*Node{}}
	for k, v := range st.slots {
		if !hasFree(k.free, le.n) && !hasFree(v.free, le.n) {
			out.setSlot(k, v)
		}
	}
	for _, k := range byID(st.mem) {
		v := st.mem[k]
		v2 := s.node(v)
		if hasFree(k.free, le.n) {
			if b := baseOf(k); b.op != "obj" && b.op != "ea" && !onlyReordered(k, v) {
				if le.fr.ev.lost == nil {
					le.fr.ev.lost = map[string]bool{}
				}
				le.fr.ev.lost[showT(b, 0)] = true
				le.fr.ev.noteLost(b)
			}
			if keySub == nil {
				continue
			}
			k2 := keySub.node(leafOf(k))
			if k2.leaf == nil {
				continue
			}
			le.fr.ev.cellTyp[k2.leaf] = le.fr.ev.cellTyp[k]
			if rootOf(k2.leaf).op == "obj" || k2.leaf.op == "mc" || k2.leaf.op == "sc" {
				if !hasFree(v2.free, le.n) {
					out.mem[k2.leaf] = v2
				}
			}
			continue
		}
		if hasFree(v2.free, le.n) {
			giveUp("value of %s escapes a loop in %s: %s", showT(k, 0), le.fr.fn, show(v2))
		}
		out.mem[k] = v2
	}
	for _, k := range byID(fams) {
		v := fams[k]
		if _, ok := out.mem[k]; !ok {
			out.mem[k] = v
		}
	}
	if st.ov != nil {
		ov := map[ssa.Value]val{}
		for _, k := range byValue(st.ov) {
			v := st.ov[k]
			nv := val{}
			if v.n != nil {
				nv.n = s.node(v.n)
				if hasFree(nv.n.free, le.n) {
					nv.n = Bot
				}
			}
			for _, x := range v.t {
				y := s.node(x)
				if hasFree(y.free, le.n) {
					y = Bot
				}
				nv.t = append(nv.t, y)
			}
			ov[k] = nv
		}
		out.ov = ov
	}
	return out
}

// written: memory that has no place in the value graph is written by every
// iteration; what is written to it is kept as an effect
func (le *loopEval) written(k, r *Term, v, dom *Node, pre map[*Term]*Node) *Node {
	if r.op == "lv" || k.op == "mc" || k.op == "sc" {
		return emptySeq
	}
	to := substitute(leafOf(k), pre)
	what := substitute(le.fr.ev.snapshot(le.contSt, v), pre)
	if to.leaf == nil {
		return emptySeq
	}
	e := apply1(what, func(t *Term) *Node { return leafOf(mkTerm("eff", "wr", []*Node{to, leafOf(t)}, nil)) })
	return mkComp(dom, le.n, ite(substitute(le.contC, pre), seqLit(e), emptySeq))
}

// addWrites to a state after the loop
func (le *loopEval) addWrites(st *state) {
	for _, k := range byID(le.over) {
		st.mem[k] = le.over[k]
	}
	if le.writes == nil || le.writes == emptySeq {
		return
	}
	k := mkTerm("tr", "wr", nil, nil)
	old, ok := st.mem[k]
	if !ok {
		old = emptySeq
	}
	st.mem[k] = seqCat(old, le.writes)
}

// families: objects made per iteration, and elements written per iteration
func (le *loopEval) families(dom *Node, pre map[*Term]*Node) map[*Term]*Node {
	le.writes, le.over = emptySeq, nil
	out := map[*Term]*Node{}
	ev := le.fr.ev
	sc := map[*Term]map[*Term]*Node{}
	_ = sc
	for _, k := range byID(le.contSt.mem) {
		v := le.contSt.mem[k]
		if !hasFree(k.free, le.n) {
			continue
		}
		base := k
		wrap := func(t *Term) *Term { return t }
		if k.op == "mc" || k.op == "sc" {
			base = k.args[0].leaf
			op := k.op
			wrap = func(t *Term) *Term { return mkTerm(op, "", []*Node{leafOf(t)}, nil) }
		}
		r := rootOf(base)
		if k.op == "sc" && base.op == "el" && base.s == "#"+strconv.Itoa(le.n) && le.dom != nil && le.dom == dom && len(le.outs) == 0 && !onlyReordered(k, v) {
			// the elements of the domain are slices that are written in place
			v2 := ite(substitute(le.contC, pre), substitute(v, pre), leafOf(base))
			le.over = map[*Term]*Node{}
			at := []*Term{}
			for _, x := range byID(le.st0.mem) {
				if x.op == "sc" && le.st0.mem[x] == dom {
					at = append(at, x)
				}
			}
			if len(at) == 0 {
				for _, l := range leavesOf(dom) {
					at = append(at, mkTerm("sc", "", []*Node{leafOf(l)}, nil))
				}
			}
			for _, x := range at {
				d := dom
				if le.st0.mem[x] != dom {
					d = x.args[0]
				}
				if d.leaf == nil || !isEmptySeq(d.leaf) {
					le.over[x] = mkComp(d, le.n, seqLit(v2))
				}
			}
			continue
		}
		if r.op != "obj" && r.op != "ea" && !onlyReordered(k, v) {
			if ev.lost == nil {
				ev.lost = map[string]bool{}
			}
			ev.lost[showT(r, 0)] = true
			ev.noteLost(r)
			le.writes = seqCat(le.writes, le.written(k, r, v, dom, pre))
		}
		if r.op != "obj" || len(r.args) == 0 {
			continue
		}
		i := len(r.args) - 1
		last := r.args[i].leaf
		if last == nil || last.op != "ix" || last.s != "#"+strconv.Itoa(le.n) {
			// objects of inner loops keep all their variables: not tracked
			continue
		}
		fk := wrap(famKey(base, r, i))
		v2 := substitute(v, pre)
		v2 = constrain(v2, substitute(le.contC, pre))
		ev.cellTyp[fk] = ev.cellTyp[k]
		out[fk] = closeRaw("lam", "", le.n, []*Node{dom, v2})
	}
	return out
}

// ---- solving the registers ----

func (le *loopEval) preOf(r *reg, ix *Node) *Node {
	return preNode(r.fin, ix, r.typ, r.init)
}

// preNode is the value a register with final value fin has before iteration ix
func preNode(fin, ix *Node, typ types.Type, init *Node) *Node {
	if fin.leaf != nil && fin.leaf.op == "c" && fin == init {
		return fin
	}
	if k, ok := ix.constInt(); ok && k == 0 && init != nil {
		return init
	}
	if isBoolType(typ) {
		return atomNode(mkTerm("bcall", "pre", []*Node{fin, ix}, nil))
	}
	return leafOf(mkTerm("pre", "", []*Node{fin, ix}, typ))
}

func (le *loopEval) solve(dom *Node) {
	n := le.n
	ix := loopVar("ix", n, types.Typ[types.Int])
	for _, r := range le.regs {
		r.next = constrain(r.next, le.contC)
	}
	// dependencies
	deps := make([][]int, len(le.regs))
	for i, r := range le.regs {
		for j, q := range le.regs {
			if i != j && mentions(r.next, q.lv) {
				deps[i] = append(deps[i], j)
			}
		}
	}
	// the conditions under which the loop goes on are part of what r.next was
	// simplified with, but do not define it
	done := map[*Term]*Node{}
	for _, comp := range sccs(deps) {
		for _, i := range comp {
			le.regs[i].next = substitute(le.regs[i].next, done)
		}
		if len(comp) == 1 {
			r := le.regs[comp[0]]
			r.fin = le.pattern(r, dom)
		}
		if len(comp) > 1 || le.regs[comp[0]].fin == nil {
			rs := make([]*reg, len(comp))
			for k, i := range comp {
				rs[k] = le.regs[i]
			}
			le.fold(rs, dom)
		}
		for _, i := range comp {
			r := le.regs[i]
			if r.fin == nil {
				giveUp("loop register without a form")
			}
			done[r.lv] = le.preOf(r, ix)
			if isBoolType(r.typ) {
				done[r.lv] = le.preOf(r, ix)
			}
		}
	}
}

func sccs(deps [][]int) [][]int {
	n := len(deps)
	index := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var stack []int
	var out [][]int
	c := 0
	var visit func(v int)
	visit = func(v int) {
		c++
		index[v], low[v] = c, c
		stack = append(stack, v)
		on[v] = true
		for _, w := range deps[v] {
			if index[w] == 0 {
				visit(w)
				low[v] = min(low[v], low[w])
			} else if on[w] {
				low[v] = min(low[v], index[w])
			}
		}
		if low[v] == index[v] {
			var comp []int
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp = append(comp, w)
				if w == v {
					break
				}
			}
			sort.Ints(comp)
			out = append(out, comp)
		}
	}
	for v := 0; v < n; v++ {
		if index[v] == 0 {
			visit(v)
		}
	}
	return out
}

func condMentions(n *Node, t *Term) bool {
	for _, a := range atomsOf(n) {
		if a.sig.has(&t.own) && mentions(atomNode(a), t) {
			return true
		}
	}
	return false
}

var keepLeaf = leafOf(mkTerm("keep", "", nil, nil))

func (le *loopEval) pattern(r *reg, dom *Node) *Node {
	n := le.n
	x, nx := r.lv, r.next
	if nx == r.lvn {
		return r.init
	}
	if isBoolType(r.typ) {
		nt := substitute(nx, map[*Term]*Node{x: T})
		nf := substitute(nx, map[*Term]*Node{x: F})
		switch {
		case nt == nf:
		case nt == T:
			return or(r.init, mkExists(dom, n, nf))
		case nf == F:
			return and(r.init, not(mkExists(dom, n, not(nt))))
		default:
			return nil
		}
	}
	if !mentions(nx, x) {
		return le.last(r, dom, nx)
	}
	nxSet := le.setInsert(r)
	if nxSet != nil {
		nx = nxSet
	}
	if condMentions(nx, x) {
		if f := le.firstNonNil(r, dom); f != nil {
			return f
		}
		return nil
	}
	xn := leafOf(x)
	kind := ""
	ok := true
	note := func(k string) {
		if kind != "" && kind != k {
			ok = false
		}
		kind = k
	}
	body := mapLeaves(nx, func(t *Term) *Node {
		if !ok || t.op == "bot" {
			return Bot
		}
		if t == x {
			return leafOf(mkTerm("same", "", nil, nil))
		}
		if !t.sig.has(&x.own) || !mentions(leafOf(t), x) {
			note("last")
			return leafOf(mkTerm("other", "", []*Node{leafOf(t)}, nil))
		}
		switch t.op {
		case "cat":
			if t.args[0] == xn {
				rest := seqCat(t.args[1:]...)
				if !mentions(rest, x) {
					note("seq")
					return rest
				}
			}
		case "mapof":
			ps := catParts(t.args[0].leaf)
			if ps[0].leaf.op == "entries" && ps[0].leaf.args[0] == xn {
				rest := seqCat(ps[1:]...)
				if !mentions(rest, x) {
					note("map")
					return rest
				}
			}
		case "scat":
			if t.args[0] == xn {
				rest := concat(t.args[1:]...)
				if !mentions(rest, x) {
					note("str")
					return seqLit(rest)
				}
			}
		case "lin":
			l := linOf(t)
			if l.co[x] == 1 {
				l.co[x] = 0
				rest := l.node()
				if !mentions(rest, x) {
					note("int")
					return rest
				}
			}
		case "upd":
			if t.args[0] == xn && t.args[1].leaf.op == "ix" && t.args[1].leaf.s == "#"+strconv.Itoa(n) {
				note("upd")
				return leafOf(mkTerm("updv", "", []*Node{t.args[2]}, nil))
			}
		}
		ok = false
		return Bot
	})
	if !ok || kind == "" {
		return nil
	}
	same := func(z *Node) *Node {
		return mapLeaves(body, func(t *Term) *Node {
			if t.op == "same" {
				return z
			}
			return leafOf(t)
		})
	}
	switch kind {
	case "seq":
		return seqCat(r.init, mkComp(dom, n, same(emptySeq)))
	case "map":
		return mapOf(seqCat(entriesOf(r.init), mkComp(dom, n, same(emptySeq))))
	case "str":
		return concat(r.init, callTerm("strings.Join", 0, []*Node{mkComp(dom, n, same(emptySeq)), Str("")}, types.Typ[types.String]))
	case "int":
		b := same(Int(0))
		if k, isC := b.constInt(); isC {
			return linAdd(r.init, linMul(domLen(dom), Int(k)))
		}
		return linAdd(r.init, mkSum(dom, n, b))
	case "last":
		v := mapLeaves(body, func(t *Term) *Node {
			if t.op == "same" {
				return keepLeaf
			}
			return t.args[0]
		})
		return le.last(r, dom, v)
	case "upd":
		v := mapLeaves(body, func(t *Term) *Node {
			if t.op == "same" {
				return indexOf(r.init, loopVar("ix", n, types.Typ[types.Int]), nil)
			}
			v := t.args[0]
			return replaceIndex(v, x, n, r.init)
		})
		if mentions(v, x) {
			return nil
		}
		if domLen(dom) == lenOf(r.init, "seq") || domLen(dom) == le.lenOfInit(r) {
			return mkComp(dom, n, seqLit(v))
		}
		return nil
	}
	return nil
}

func (le *loopEval) lenOfInit(r *reg) *Node { return lenOf(r.init, "seq") }

// replaceIndex rewrites lv[ix] to the element the sequence had at the start
func replaceIndex(v *Node, x *Term, n int, init *Node) *Node {
	ix := loopVar("ix", n, types.Typ[types.Int])
	var found []*Term
	anyTerm(v, func(t *Term) bool {
		if t.op == "index" && t.args[0].leaf == x && t.args[1] == ix {
			found = append(found, t)
		}
		return false
	})
	m := map[*Term]*Node{}
	for _, t := range found {
		m[t] = indexOf(init, ix, t.typ)
	}
	return substitute(v, m)
}

// setInsert: inserting into a set only what it does not have yet is the same
// as inserting always
func (le *loopEval) setInsert(r *reg) *Node {
	nx, x := r.next, r.lv
	var has *Term
	for _, a := range atomsOf(nx) {
		if a.op == "has" && a.args[0].leaf == x {
			if has != nil {
				return nil
			}
			has = a
		} else if mentions(atomNode(a), x) {
			return nil
		}
	}
	if has == nil {
		return nil
	}
	absent := assumeLit(nx, has, false)
	present := assumeLit(nx, has, true)
	// present: unchanged wherever absent inserts this key with a unit value
	ok := true
	r2 := apply2(absent, present, func(a, p *Term) *Node {
		if a == p {
			return leafOf(a)
		}
		if p == x && a.op == "mapof" {
			ps := catParts(a.args[0].leaf)
			if len(ps) == 2 && ps[0].leaf.op == "entries" && ps[0].leaf.args[0].leaf == x && ps[1].leaf.op == "seq" && len(ps[1].leaf.args) == 1 {
				pr := ps[1].leaf.args[0].leaf
				if pr.op == "pair" && pr.args[0] == has.args[1] && isUnitValue(pr.args[1]) {
					return leafOf(a)
				}
			}
		}
		ok = false
		return Bot
	})
	if !ok {
		return nil
	}
	return r2
}

func (le *loopEval) firstNonNil(r *reg, dom *Node) *Node {
	if r.init != Nil {
		return nil
	}
	isNil := eqNode(leafOf(r.lv), Nil)
	if isNil.leaf != nil {
		return nil
	}
	v := assumeLit(r.next, isNil.atom, true)
	k := assumeLit(r.next, isNil.atom, false)
	if k != leafOf(r.lv) {
		return nil
	}
	v = substitute(v, map[*Term]*Node{r.lv: Nil})
	c := not(eqNode(v, Nil))
	m := le.firstVars(dom, c)
	return ite(mkExists(dom, le.n, c), substitute(constrain(v, c), m), Nil)
}

// last: the register has the value of the last iteration that sets it
func (le *loopEval) last(r *reg, dom, v *Node) *Node {
	n := le.n
	set := condOf(v, func(t *Term) bool { return t != keepLeaf.leaf })
	some := mkExists(dom, n, set)
	vv := constrain(v, set)
	if !hasFree(vv.free, n) && !anyTerm(vv, func(t *Term) bool { return t == keepLeaf.leaf }) {
		return ite(some, vv, r.init)
	}
	if isBoolType(r.typ) {
		// of the iterations that set it, the last one sets it true
		l := closeRaw("lastis", "", n, []*Node{dom, set, vv})
		return ite(some, l, r.init)
	}
	l := closeRaw("lastof", "", n, []*Node{dom, v})
	setTyp(l, r.typ)
	return ite(some, l, r.init)
}

// fold: the general form, for registers that depend on each other
func (le *loopEval) fold(rs []*reg, dom *Node) {
	n := le.n
	k := len(rs)
	tag := "#" + strconv.Itoa(n) + "."
	anon := map[*Term]*Node{}
	for _, r := range rs {
		anon[r.lv] = leafOf(mkTerm("lv", tag+"0", nil, nil))
	}
	type cand struct {
		r    *reg
		sort string
	}
	cs := make([]cand, k)
	for i, r := range rs {
		ts := ""
		if r.typ != nil {
			ts = typeShape(r.typ, 0)
		}
		a := closeRaw("lam", "", n, []*Node{Nil, substitute(r.next, anon)})
		cs[i] = cand{r, ts + "|" + strconv.Itoa(r.init.id) + "|" + strconv.Itoa(a.id)}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].sort < cs[j].sort })
	// permutations within groups of equal keys
	var perms [][]int
	var build func(i int, cur []int, used map[int]bool)
	build = func(i int, cur []int, used map[int]bool) {
		if len(perms) > 200 {
			return
		}
		if i == k {
			perms = append(perms, append([]int{}, cur...))
			return
		}
		for j := 0; j < k; j++ {
			if !used[j] && cs[j].sort == cs[i].sort {
				used[j] = true
				build(i+1, append(cur, j), used)
				delete(used, j)
			}
		}
	}
	build(0, nil, map[int]bool{})
	var best []*Node
	bestID := 1 << 60
	var bestPerm []int
	for _, p := range perms {
		m := map[*Term]*Node{}
		for pos, j := range p {
			m[cs[j].r.lv] = leafOf(mkTerm("lv", tag+strconv.Itoa(100+pos), nil, cs[j].r.typ))
		}
		args := []*Node{dom}
		for _, j := range p {
			args = append(args, cs[j].r.init)
		}
		for _, j := range p {
			args = append(args, substitute(cs[j].r.next, m))
		}
		b := closeRaw("mealy", strconv.Itoa(k)+";body", n, args)
		if b.id < bestID {
			bestID, best, bestPerm = b.id, args, p
		}
	}
	for pos, j := range bestPerm {
		r := cs[j].r
		op := "mealy"
		if isBoolType(r.typ) {
			op = "fsm"
		}
		r.fin = closeRaw(op, strconv.Itoa(k)+";"+strconv.Itoa(pos), n, best)
		setTyp(r.fin, r.typ)
	}
}

var _ = strings.Split

// baseOf: the object a cell belongs to
func baseOf(k *Term) *Term {
	if k.op == "mc" || k.op == "sc" {
		if l := k.args[0].leaf; l != nil {
			return rootOf(l)
		}
	}
	return rootOf(k)
}

// onlyReordered: the write sorts a slice that was not made here in place
func onlyReordered(k *Term, v *Node) bool {
	if k.op != "sc" {
		return false
	}
	l := k.args[0].leaf
	for _, x := range leavesOf(v) {
		for x.op == "sorted" && x.args[0].leaf != nil {
			x = x.args[0].leaf
		}
		if x != l && !isEmptySeq(x) && x.op != "keep" && x.op != "bot" {
			return false
		}
	}
	return true
}

// noteLost: the callee whose result was written to
func (ev *evaluator) noteLost(t *Term) {
	if t.op == "call" {
		if i := strings.LastIndexByte(t.s, '#'); i > 0 {
			if ev.lostCalls == nil {
				ev.lostCalls = map[string]bool{}
			}
			ev.lostCalls[t.s[:i]] = true
		}
	}
}
