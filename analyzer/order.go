package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C20: orders that are not of the program's making ----

// looseOrders: where a value depends on the order in which a map is gone
// through, and by what it sorts
func looseOrders(n *Node) (maps, sorts map[*Term]bool) {
	maps, sorts = map[*Term]bool{}, map[*Term]bool{}
	type key struct {
		n    *Node
		calm bool
	}
	seen := map[key]bool{}
	var walk func(n *Node, calm bool)
	term := func(t *Term, calm bool) {
		if t == nil {
			return
		}
		switch t.op {
		case "mdom":
			if !calm {
				maps[t] = true
			}
			walk(t.args[0], true)
			return
		case "entries":
			walk(t.args[0], true)
			return
		case "call":
			// directories in the order the file system has, packages in the
			// order a parser has
			if strings.HasPrefix(t.s, "dyn#0") || strings.HasPrefix(t.s, "(*os.File).Readdir") || strings.HasPrefix(t.s, "(*os.File).ReadDir#0") {
				if !calm {
					maps[t] = true
				}
			}
		case "sorted":
			sorts[t] = true
			walk(t.args[0], true)
			for _, a := range t.args[1:] {
				walk(a, true)
			}
			return
		case "mapof", "exists", "sum", "len", "has":
			for _, a := range t.args {
				walk(a, true)
			}
			return
		}
		// the order of a sequence does not matter: that of what is in its elements does
		switch t.op {
		case "seq", "pair", "call", "struct", "eff":
			calm = false
		}
		for _, a := range t.args {
			walk(a, calm)
		}
	}
	walk = func(n *Node, calm bool) {
		if n == nil || seen[key{n, calm}] {
			return
		}
		seen[key{n, calm}] = true
		if n.leaf != nil {
			term(n.leaf, calm)
			return
		}
		term(n.atom, calm)
		walk(n.hi, calm)
		walk(n.lo, calm)
	}
	walk(n, false)
	return
}

// onOrder: differences in what an order comes from
func onOrder(c *checker, pi *pairInfo, df diff) bool {
	if df.gotN == nil || df.wantN == nil {
		return false
	}
	gm, gs := looseOrders(df.gotN)
	wm, ws := looseOrders(df.wantN)
	for t := range gm {
		if !wm[t] {
			return true
		}
	}
	// sorted by something else
	by := func(m map[*Term]bool) map[*Node]bool {
		out := map[*Node]bool{}
		for t := range m {
			out[t.args[1]] = true
		}
		return out
	}
	g, w := by(gs), by(ws)
	for k := range w {
		if !g[k] {
			return true
		}
	}
	return false
}

// passOrder: what goroutines collect as they finish is put into an order
func passOrder(c *checker) []finding {
	var out []finding
	n := 0
	for _, fn := range c.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, _, _ := spawned(ins)
				if v == nil {
					continue
				}
				n++
				ob := map[string]any{"goroutine": c.pos(ins.Pos()) + " in " + shortName(fn), "rule": "what is collected as goroutines finish is sorted before it is used", "outcome": "holds"}
				c.obligations = append(c.obligations, ob)
				var g *ssa.Function
				switch x := v.(type) {
				case *ssa.MakeClosure:
					g = x.Fn.(*ssa.Function)
				case *ssa.Function:
					g = x
				}
				if g == nil {
					continue
				}
				for _, f := range finishOrder(c, g, map[*ssa.Function]bool{}) {
					ob["outcome"] = "violated"
					out = append(out, f)
				}
			}
		}
	}
	c.info["goroutine_sites"] = n
	return out
}

// finishOrder: what a goroutine adds to variables it shares
func finishOrder(c *checker, g *ssa.Function, seen map[*ssa.Function]bool) (out []finding) {
	if seen[g] || len(g.Blocks) == 0 || !inModule(g) {
		return nil
	}
	seen[g] = true
	where := func(i ssa.Instruction) string { return c.pos(i.Pos()) + " in " + shortName(i.Parent()) }
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				// v = append(v, ...)
				if isAppendTo(x.Val, x.Addr) && !errorSlice(x.Val.Type()) {
					for _, al := range captured(x.Addr) {
						if use := orderedUse(al); use != nil {
							out = append(out, finding{where: where(x), what: "appended to as goroutines finish, and used in that order at " + c.pos(use.Pos())})
						}
					}
				}
				// v[n] = ... with a shared counter
				if ia := slotOf(x.Addr); ia != nil {
					if sharedCounter(ia.Index) {
						for _, al := range captured(loadAddr(ia.X)) {
							if use := orderedUse(al); use != nil {
								out = append(out, finding{where: where(x), what: "filled as goroutines finish, and used in that order at " + c.pos(use.Pos())})
							}
						}
					}
				}
			case *ssa.Send:
				for _, f := range receivers(c, x.Chan) {
					out = append(out, f)
				}
			case ssa.CallInstruction:
				if h := x.Common().StaticCallee(); h != nil {
					out = append(out, finishOrder(c, h, seen)...)
				}
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
					out = append(out, finishOrder(c, mc.Fn.(*ssa.Function), seen)...)
				}
			}
		}
	}
	return out
}

func errorSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorIface(s.Elem())
}

func loadAddr(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return nil
}

// captured: the variables of the starter that an address in a closure is of
func captured(addr ssa.Value) (out []*ssa.Alloc) {
	switch x := addr.(type) {
	case *ssa.FreeVar:
		for _, b := range bindingsOf(x) {
			switch y := b.(type) {
			case *ssa.Alloc:
				out = append(out, y)
			case *ssa.FreeVar:
				out = append(out, captured(y)...)
			}
		}
	}
	return out
}

func isAppendTo(v, addr ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	return loadAddr(c.Call.Args[0]) == addr
}

// sharedCounter: an index that other goroutines step as well
func sharedCounter(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return sharedCounter(x.X)
	case *ssa.BinOp:
		return sharedCounter(x.X) || sharedCounter(x.Y)
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			for _, b := range fv.Parent().Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(fv) {
						return true
					}
				}
			}
		}
	case *ssa.Call:
		n := calleeName(&x.Call)
		return strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add")
	}
	return false
}

func isSort(name string) bool {
	return strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort")
}

// orderedUse: where the order of a variable's elements is used, if it is not
// sorted first
func orderedUse(al *ssa.Alloc) ssa.Instruction {
	return orderedUseOf(al.Referrers(), al)
}

func orderedUseOf(refs *[]ssa.Instruction, al *ssa.Alloc) ssa.Instruction {
	var loads []ssa.Value
	for _, r := range *refs {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			loads = append(loads, u)
		}
	}
	// what a local closure (a comparison) does with it is of no matter
	for _, l := range loads {
		if sortsIt(l) {
			return nil
		}
	}
	for _, l := range loads {
		if u := ordered(l, map[ssa.Value]bool{}); u != nil {
			return u
		}
	}
	return nil
}

func sortsIt(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if isSort(calleeName(&x.Call)) {
				return true
			}
		case *ssa.MakeInterface:
			if sortsIt(x) {
				return true
			}
		case *ssa.ChangeType:
			if sortsIt(x) {
				return true
			}
		case *ssa.Phi:
			for _, rr := range *x.Referrers() {
				if c, ok := rr.(*ssa.Call); ok && isSort(calleeName(&c.Call)) {
					return true
				}
				if m, ok := rr.(*ssa.MakeInterface); ok && sortsIt(m) {
					return true
				}
			}
		}
	}
	return false
}

// ordered: a use of a slice, or of its elements one after the other, that
// depends on their order
func ordered(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return x
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				if a == loadAddr(v) {
					continue
				}
				for _, rr := range *a.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL {
						if o := ordered(u, seen); o != nil {
							return o
						}
					}
					if fa, ok := rr.(*ssa.FieldAddr); ok {
						if o := ordered(fa, seen); o != nil {
							return o
						}
					}
				}
			case *ssa.IndexAddr, *ssa.FieldAddr:
				return x
			}
		case *ssa.MapUpdate:
			// by key
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					return x
				}
				continue
			}
			if n := calleeName(&x.Call); isSort(n) || strings.HasPrefix(n, "(*sync") {
				continue
			}
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				return x
			}
		case *ssa.IndexAddr:
			if o := ordered(x, seen); o != nil {
				return o
			}
		case *ssa.UnOp, *ssa.Phi, *ssa.Field, *ssa.FieldAddr, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Extract, *ssa.Convert, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Index:
			if o := ordered(x.(ssa.Value), seen); o != nil {
				return o
			}
		}
	}
	return nil
}

// receivers: what is received is used in the order it arrives in
func receivers(c *checker, ch ssa.Value) (out []finding) {
	var chans []ssa.Value
	switch x := ch.(type) {
	case *ssa.UnOp:
		for _, al := range captured(x.X) {
			for _, r := range *al.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					chans = append(chans, u)
				}
			}
		}
	case *ssa.FreeVar:
		chans = append(chans, bindingsOf(x)...)
	}
	if t, ok := ch.Type().Underlying().(*types.Chan); ok && isErrorIface(t.Elem()) {
		return nil
	}
	for _, cv := range chans {
		if cv.Referrers() == nil {
			continue
		}
		for _, r := range *cv.Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW {
				continue
			}
			for _, app := range appendsOf(u, map[ssa.Value]bool{}) {
				if sortsAfter(app, map[ssa.Value]bool{}) {
					continue
				}
				if o := ordered(app, map[ssa.Value]bool{}); o != nil {
					out = append(out, finding{where: c.pos(u.Pos()) + " in " + shortName(u.Parent()), what: "received as goroutines finish, and used in that order at " + c.pos(o.Pos())})
				}
			}
		}
	}
	return out
}

func sortsAfter(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	if sortsIt(v) {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Phi:
			if sortsAfter(x, seen) {
				return true
			}
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, rr := range *al.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok && sortsIt(u) {
						return true
					}
				}
			}
		}
	}
	return false
}

// appendsOf: slices that a value (or a part of it) is appended to
func appendsOf(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.Value) {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					// arguments of append
					for _, rr := range *al.Referrers() {
						if s, ok := rr.(*ssa.Slice); ok {
							out = append(out, appendsOf(s, seen)...)
						}
					}
				}
			case *ssa.Alloc:
				for _, rr := range *a.Referrers() {
					switch u := rr.(type) {
					case *ssa.UnOp:
						out = append(out, appendsOf(u, seen)...)
					case *ssa.FieldAddr:
						out = append(out, appendsOf(u, seen)...)
					}
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) > 1 && x.Call.Args[1] == v {
				out = append(out, x)
			}
		case *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Phi, *ssa.UnOp:
			out = append(out, appendsOf(x.(ssa.Value), seen)...)
		}
	}
	return out
}

// ---- maps gone through while something is printed ----

type mapOrder struct {
	c      *checker
	prints map[*ssa.Function]int
	out    []finding
	seen   map[string]bool
	done   map[ssa.Value]bool
	maps   int
}

func printer(name string) bool {
	return strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint") ||
		strings.Contains(name, "/internal/reporter.Reporter).Print")
}

// outputs: the call writes to the user
func (m *mapOrder) outputs(call *ssa.CallCommon) bool {
	if printer(calleeName(call)) {
		return true
	}
	g := call.StaticCallee()
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		g = mc.Fn.(*ssa.Function)
	}
	if g == nil || !m.c.inProgram(g) {
		return false
	}
	switch m.prints[g] {
	case 1:
		return true
	case 2:
		return false
	}
	m.prints[g] = 2
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(ssa.CallInstruction); ok && m.outputs(x.Common()) {
				m.prints[g] = 1
				return true
			}
		}
	}
	return false
}

// loopAround: the blocks of the innermost loop around a block
func loopAround(b *ssa.BasicBlock) []*ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		back := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				back = true
			}
		}
		if !back {
			continue
		}
		in := naturalLoop(h)
		for _, x := range in {
			if x == b {
				return in
			}
		}
	}
	return nil
}

func naturalLoop(h *ssa.BasicBlock) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{h: true}
	out := []*ssa.BasicBlock{h}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if seen[b] || !h.Dominates(b) {
			return
		}
		seen[b] = true
		out = append(out, b)
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			up(p)
		}
	}
	return out
}

func (m *mapOrder) report(at ssa.Instruction, what string) {
	where := m.c.pos(at.Pos()) + " in " + shortName(at.Parent())
	if m.seen[where] {
		return
	}
	m.seen[where] = true
	m.out = append(m.out, finding{where: where, what: what})
}

// body: what happens in a loop whose order is not of the program's making
func (m *mapOrder) body(blocks []*ssa.BasicBlock, why string, d int) {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		in[b] = true
	}
	for _, b := range blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if m.outputs(call.Common()) {
				m.report(ins, "writes output while going through "+why)
				continue
			}
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if v := call.Value(); v != nil && outlives(v, in) {
					m.slice(v, why, d)
				}
			}
		}
	}
}

// outlives: a slice that is appended to in a loop and was not made in it
func outlives(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	c := v.(*ssa.Call)
	seen := map[ssa.Value]bool{}
	var from func(x ssa.Value) bool
	from = func(x ssa.Value) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		ins, ok := x.(ssa.Instruction)
		if !ok {
			return true
		}
		if !in[ins.Block()] {
			return true
		}
		switch y := x.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				if from(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return from(y.Call.Args[0])
			}
		case *ssa.UnOp:
			if al, ok := y.X.(*ssa.Alloc); ok {
				return !in[al.Block()]
			}
		}
		return false
	}
	return from(c.Call.Args[0])
}

// slice: a slice whose elements are in no particular order
func (m *mapOrder) slice(v ssa.Value, why string, d int) {
	if m.done[v] || d > 6 || errorSlice(v.Type()) {
		return
	}
	// everything that may be this slice
	vs := map[ssa.Value]bool{}
	var grow func(x ssa.Value)
	grow = func(x ssa.Value) {
		if vs[x] || x.Referrers() == nil {
			return
		}
		vs[x] = true
		m.done[x] = true
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Phi:
				grow(y)
			case *ssa.ChangeType:
				grow(y)
			case *ssa.Slice:
				grow(y)
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == x {
					for _, rr := range *al.Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL {
							grow(u)
						}
					}
				}
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && y.Call.Args[0] == x {
					grow(y)
				}
			}
		}
	}
	grow(v)
	for x := range vs {
		if sortsIt(x) {
			return
		}
	}
	for x := range vs {
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				if l := loopAround(y.Block()); l != nil {
					m.body(l, "a slice in the order of "+why, d+1)
				}
			case *ssa.Return:
				m.callers(y, x, why, d)
			case *ssa.Store:
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && y.Val == x {
					t, _ := structIn(fa.X.Type())
					if s := t.String(); strings.Contains(s, "/internal/reporter.") || strings.HasSuffix(s, "/lockfile.Lockfile") {
						m.report(y, "kept for output in the order of "+why)
					}
				}
			case *ssa.MakeInterface:
				if m.shown(y) {
					m.report(y, "written in the order of "+why)
				}
			case *ssa.Call:
				if printer(calleeName(&y.Call)) {
					m.report(y, "written in the order of "+why)
				} else if g := y.Call.StaticCallee(); g != nil && m.c.inProgram(g) {
					for i, a := range y.Call.Args {
						if a == x && i < len(g.Params) {
							m.slice(g.Params[i], why, d+1)
						}
					}
				} else if calleeName(&y.Call) == "strings.Join" && m.shown(y) {
					m.report(y, "written in the order of "+why)
				}
			}
		}
	}
}

// shown: a value that is handed to what prints
func (m *mapOrder) shown(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			if m.shown(x) {
				return true
			}
		case *ssa.Call:
			if printer(calleeName(&x.Call)) {
				return true
			}
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						if s, ok := rr.(*ssa.Slice); ok {
							for _, q := range *s.Referrers() {
								if c, ok := q.(*ssa.Call); ok && printer(calleeName(&c.Call)) {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (m *mapOrder) callers(ret *ssa.Return, v ssa.Value, why string, d int) {
	fn := ret.Parent()
	i := -1
	for k, r := range ret.Results {
		if r == v {
			i = k
		}
	}
	for _, s := range m.c.sites(fn) {
		call, ok := s.(*ssa.Call)
		if !ok {
			continue
		}
		if len(ret.Results) == 1 {
			m.slice(call, why, d+1)
			continue
		}
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				m.slice(e, why, d+1)
			}
		}
	}
}

// passMapOrder: nothing is written in the order of a map
func passMapOrder(c *checker) []finding {
	m := &mapOrder{c: c, prints: map[*ssa.Function]int{}, seen: map[string]bool{}, done: map[ssa.Value]bool{}}
	for _, fn := range c.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Next:
					rg, ok := x.Iter.(*ssa.Range)
					if !ok || x.IsString {
						continue
					}
					if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					m.maps++
					n := len(m.out)
					ob := map[string]any{"map": c.pos(rg.Pos()) + " in " + shortName(fn), "rule": "what is gathered or done in the order of a map is sorted before it is written", "outcome": "holds"}
					c.obligations = append(c.obligations, ob)
					m.body(naturalLoop(x.Block()), "a map", 0)
					if len(m.out) > n {
						ob["outcome"] = "violated"
					}
				case *ssa.Call:
					switch calleeName(&x.Call) {
					case "slices.Collect", "slices.AppendSeq":
						a := x.Call.Args[len(x.Call.Args)-1]
						if k, ok := a.(*ssa.Call); ok {
							if n := calleeName(&k.Call); n == "maps.Keys" || n == "maps.Values" {
								m.maps++
								m.slice(x, "a map", 0)
							}
						}
					}
				}
			}
		}
	}
	c.info["maps_gone_through"] = m.maps
	return m.out
}
