package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership analysis of what goroutines write. Every function that is started
// as a goroutine is followed into the functions it calls; each write in it has
// to be to memory it made itself, to a slot of a shared slice whose index no
// other goroutine has, or happen with a shared lock held. And between starting
// goroutines and waiting for them, the starter neither writes what they read,
// nor reads what they write, nor returns.

type owner uint8

const (
	ownUnknown owner = iota
	ownFresh         // made by the goroutine
	ownSlot          // a part of something shared that only this goroutine has
	ownShared
)

type gframe struct {
	fn     *ssa.Function
	up     *gframe     // where it was made or called
	args   []ssa.Value // of the call, in up
	binds  []ssa.Value // of the closure, in bindUp
	bindUp *gframe
	spawn  ssa.Instruction // set for the frame that starts the goroutine: closures bound there
	inGo   bool
	locked bool
	depth  int
}

type goAnalysis struct {
	c      *checker
	out    []finding
	seen   map[string]bool
	writes int
	unsure []string
	start  ssa.Instruction // the statement that starts the goroutine
	startF *gframe
	many   bool // more than one runs at a time
	// captured variables: what the goroutine does with them
	reads, slots map[*ssa.Alloc]bool
}

// spawned: the function that a call starts as a goroutine
func spawned(ins ssa.Instruction) (ssa.Value, []ssa.Value, ssa.Value) {
	switch x := ins.(type) {
	case *ssa.Go:
		if x.Call.IsInvoke() {
			return nil, nil, nil
		}
		return x.Call.Value, x.Call.Args, nil
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo", "(*sync.WaitGroup).Go":
			return x.Call.Args[1], nil, x.Call.Args[0]
		}
	}
	return nil, nil, nil
}

func waits(ins ssa.Instruction) (ssa.Value, bool) {
	x, ok := ins.(*ssa.Call)
	if !ok {
		return nil, false
	}
	switch calleeName(&x.Call) {
	case "(*golang.org/x/sync/errgroup.Group).Wait", "(*sync.WaitGroup).Wait":
		return x.Call.Args[0], true
	}
	return nil, false
}

// loopsOf: blocks that can reach themselves
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

// perRound: every round of the loop around ins makes the variable anew
func perRound(al *ssa.Alloc, ins ssa.Instruction) bool {
	if al.Parent() != ins.Parent() {
		return false
	}
	ab, ib := al.Block(), ins.Block()
	if !inLoop(ib) {
		return true
	}
	// from ins back to ins without passing al
	seen := map[*ssa.BasicBlock]bool{}
	var todo []*ssa.BasicBlock
	if ab == ib {
		return true
	}
	todo = append(todo, ib.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] || x == ab {
			continue
		}
		seen[x] = true
		if x == ib {
			return false
		}
		todo = append(todo, x.Succs...)
	}
	return true
}

// cell: the variable that a value is the address of, and the frame it is in
func (g *goAnalysis) cell(v ssa.Value, f *gframe) (*ssa.Alloc, *gframe) {
	for f != nil {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, f
		case *ssa.FreeVar:
			i := freeIndex(f.fn, x)
			if i < 0 || i >= len(f.binds) {
				return nil, nil
			}
			v, f = f.binds[i], f.bindUp
			continue
		}
		return nil, nil
	}
	return nil, nil
}

func freeIndex(fn *ssa.Function, x *ssa.FreeVar) int {
	for i, fv := range fn.FreeVars {
		if fv == x {
			return i
		}
	}
	return -1
}

func paramNo(fn *ssa.Function, x *ssa.Parameter) int {
	for i, p := range fn.Params {
		if p == x {
			return i
		}
	}
	return -1
}

func (g *goAnalysis) worst(a, b owner) owner {
	if a > b {
		return a
	}
	return b
}

// object: who owns the memory a pointer, slice or map refers to
func (g *goAnalysis) object(v ssa.Value, f *gframe, d int) owner {
	if f == nil || d > 24 {
		return ownUnknown
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ownFresh
	case *ssa.Alloc:
		if f.inGo || !x.Heap && !f.inGo && f != g.startF {
			return ownFresh
		}
		if f == g.startF && perRound(x, g.start) {
			return ownFresh // only this goroutine gets to see it, and the starter
		}
		return ownShared
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		if f.inGo {
			return ownFresh
		}
		if ins := v.(ssa.Instruction); f == g.startF && inLoop(g.start.Block()) && sameRound(ins, g.start) {
			return ownFresh
		}
		return ownShared
	case *ssa.Global:
		return ownShared
	case *ssa.FreeVar:
		al, af := g.cell(x, f)
		if al == nil {
			i := freeIndex(f.fn, x)
			if i >= 0 && i < len(f.binds) {
				return g.object(f.binds[i], f.bindUp, d+1)
			}
			return ownUnknown
		}
		return g.object(al, af, d+1)
	case *ssa.Parameter:
		i := paramNo(f.fn, x)
		if f.args == nil && f.up == nil {
			return ownShared // from outside
		}
		if i < 0 || i >= len(f.args) {
			return ownUnknown
		}
		return g.object(f.args[i], f.up, d+1)
	case *ssa.FieldAddr:
		return g.object(x.X, f, d+1)
	case *ssa.IndexAddr:
		o := g.object(x.X, f, d+1)
		if o != ownShared {
			return o
		}
		switch g.unique(x.Index, f, 0) {
		case 1:
			return ownSlot
		case 0:
			return ownUnknown
		}
		return ownShared
	case *ssa.Slice:
		return g.object(x.X, f, d+1)
	case *ssa.ChangeType:
		return g.object(x.X, f, d+1)
	case *ssa.ChangeInterface:
		return g.object(x.X, f, d+1)
	case *ssa.Convert:
		return g.object(x.X, f, d+1)
	case *ssa.MakeInterface:
		return g.object(x.X, f, d+1)
	case *ssa.TypeAssert:
		return g.object(x.X, f, d+1)
	case *ssa.Phi:
		o := ownFresh
		for _, e := range x.Edges {
			if e != v {
				o = g.worst(o, g.object(e, f, d+6))
			}
		}
		return o
	case *ssa.Field:
		return g.content(x.X, f, d+1)
	case *ssa.Index:
		return g.content(x.X, f, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return g.loaded(x.X, f, d+1)
		}
		return ownUnknown
	case *ssa.Lookup:
		if g.object(x.X, f, d+1) == ownShared {
			return ownShared
		}
		return ownUnknown
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && g.object(r.X, f, d+1) == ownShared {
				return ownShared
			}
		case *ssa.Lookup:
			return g.object(t, f, d+1)
		case *ssa.TypeAssert:
			return g.object(t.X, f, d+1)
		case *ssa.Call:
			return ownUnknown
		}
		return ownUnknown
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ownUnknown
		}
		return ownUnknown
	}
	return ownUnknown
}

func sameRound(ins, start ssa.Instruction) bool {
	return ins.Parent() == start.Parent() && ins.Block().Dominates(start.Block()) && inLoop(ins.Block())
}

// content: who owns what the references inside a value refer to
func (g *goAnalysis) content(v ssa.Value, f *gframe, d int) owner {
	if f == nil || d > 24 {
		return ownUnknown
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return g.loaded(x.X, f, d+1)
		}
	case *ssa.Parameter:
		i := paramNo(f.fn, x)
		if f.args == nil && f.up == nil {
			return ownShared
		}
		if i < 0 || i >= len(f.args) {
			return ownUnknown
		}
		return g.content(f.args[i], f.up, d+1)
	case *ssa.Field:
		return g.content(x.X, f, d+1)
	case *ssa.Const:
		return ownFresh
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Global, *ssa.FreeVar, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi:
		return g.object(v, f, d+1)
	}
	return ownUnknown
}

// loaded: who owns what a reference kept at an address refers to
func (g *goAnalysis) loaded(addr ssa.Value, f *gframe, d int) owner {
	base, path := addr, 0
	for {
		if fa, ok := base.(*ssa.FieldAddr); ok {
			base = fa.X
			path++
			continue
		}
		break
	}
	if al, af := g.cell(base, f); al != nil {
		// what has been put there
		o := ownFresh
		refs := al.Referrers()
		n := 0
		for _, r := range *refs {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				n++
				if path > 0 {
					o = g.worst(o, g.content(st.Val, af, d+1))
				} else {
					o = g.worst(o, g.object(st.Val, af, d+1))
				}
			}
		}
		if n > 0 {
			if o == ownFresh && af == g.startF && !perRound(al, g.start) {
				return ownShared
			}
			return o
		}
		if path > 0 {
			// its fields have been set one by one
			for _, r := range *refs {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				top, _ := addr.(*ssa.FieldAddr)
				if top == nil || fa.Field != fieldIn(top, al) {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						o = g.worst(o, g.object(st.Val, af, d+1))
						n++
					}
				}
			}
			if n > 0 {
				return o
			}
		}
		if af == g.startF && !perRound(al, g.start) {
			return ownShared
		}
		return ownUnknown
	}
	switch g.object(base, f, d+1) {
	case ownShared:
		return ownShared
	case ownSlot:
		return ownSlot
	}
	return ownUnknown
}

func fieldIn(fa *ssa.FieldAddr, al *ssa.Alloc) int {
	for {
		if fa.X == ssa.Value(al) {
			return fa.Field
		}
		up, ok := fa.X.(*ssa.FieldAddr)
		if !ok {
			return -1
		}
		fa = up
	}
}

// unique: 1 if no two goroutines have the same number there, -1 if they do
func (g *goAnalysis) unique(v ssa.Value, f *gframe, d int) int {
	if f == nil || d > 16 {
		return 0
	}
	if !g.many {
		return 1
	}
	switch x := v.(type) {
	case *ssa.Const:
		return -1
	case *ssa.Convert:
		return g.unique(x.X, f, d+1)
	case *ssa.Parameter:
		i := paramNo(f.fn, x)
		if f.args == nil || i < 0 || i >= len(f.args) {
			return 0
		}
		return g.unique(f.args[i], f.up, d+1)
	case *ssa.BinOp:
		_, cy := x.Y.(*ssa.Const)
		cx, isC := x.X.(*ssa.Const)
		_ = cx
		switch x.Op {
		case token.ADD, token.SUB:
			if u := counter(x); u && f == g.startF {
				return 1
			}
			if cy {
				return g.unique(x.X, f, d+1)
			}
			if isC {
				return g.unique(x.Y, f, d+1)
			}
			// the length of something less a unique number
			if l, ok := x.X.(*ssa.Call); ok && calleeName(&l.Call) == "builtin len" {
				return g.unique(x.Y, f, d+1)
			}
			return 0
		case token.QUO, token.REM, token.AND, token.SHR:
			if cy && g.unique(x.X, f, d+1) == 1 {
				if c, ok := x.Y.(*ssa.Const); ok && x.Op == token.QUO && c.Value != nil && constant.Compare(c.Value, token.EQL, constant.MakeInt64(1)) {
					return 1
				}
				return -1
			}
		}
		return 0
	case *ssa.Phi:
		if f == g.startF && counter(x) {
			return 1
		}
		return 0
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && f == g.startF && x.Index == 1 {
			_ = n
			return 1
		}
		return 0
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0
		}
		al, af := g.cell(x.X, f)
		if al == nil {
			return 0
		}
		if af == g.startF && !perRound(al, g.start) {
			return -1 // one variable for all of them
		}
		var stores []*ssa.Store
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				stores = append(stores, st)
			}
		}
		if len(stores) == 1 {
			return g.unique(stores[0].Val, af, d+1)
		}
		return 0
	}
	return 0
}

// counter: a number that a loop steps through
func counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, isC := b.Y.(*ssa.Const); isC {
			if phi, ok := b.X.(*ssa.Phi); ok {
				return counter(phi)
			}
		}
		return false
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	n := 0
	for _, e := range phi.Edges {
		switch x := e.(type) {
		case *ssa.Const:
		case *ssa.BinOp:
			c, isC := x.Y.(*ssa.Const)
			if x.X != ssa.Value(phi) || x.Op != token.ADD || !isC || c.Value == nil || constant.Sign(c.Value) <= 0 {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// lockedAt: a shared lock is held at every way to an instruction
func (g *goAnalysis) lockedAt(ins ssa.Instruction, f *gframe) bool {
	fn := ins.Parent()
	effect := func(x ssa.Instruction) int {
		c, ok := x.(*ssa.Call)
		if !ok {
			return 0
		}
		switch calleeName(&c.Call) {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			if g.object(c.Call.Args[0], f, 0) == ownFresh {
				return 0
			}
			return 1
		case "(sync.Locker).Lock":
			return 1
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
			return -1
		}
		return 0
	}
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		in[b] = true
	}
	in[fn.Blocks[0]] = false
	outOf := func(b *ssa.BasicBlock) bool {
		l := in[b]
		for _, x := range b.Instrs {
			if e := effect(x); e != 0 {
				l = e > 0
			}
		}
		return l
	}
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks[1:] {
			l := len(b.Preds) > 0
			for _, p := range b.Preds {
				l = l && outOf(p)
			}
			if l != in[b] {
				in[b] = l
				again = true
			}
		}
	}
	l := in[ins.Block()]
	for _, x := range ins.Block().Instrs {
		if x == ins {
			return l
		}
		if e := effect(x); e != 0 {
			l = e > 0
		}
	}
	return l
}

func (g *goAnalysis) report(ins ssa.Instruction, what string) {
	where := g.c.pos(ins.Pos()) + " in " + shortName(ins.Parent())
	if ins.Pos() == token.NoPos {
		where = g.c.at(ins.Parent()) + " in " + shortName(ins.Parent())
	}
	k := where + what
	if !g.seen[k] {
		g.seen[k] = true
		g.out = append(g.out, finding{where: where, what: what + " (goroutine started at " + g.c.pos(g.start.Pos()) + ")"})
	}
}

func (g *goAnalysis) write(ins ssa.Instruction, target ssa.Value, f *gframe, what string) {
	g.writes++
	o := g.object(target, f, 0)
	if o == ownSlot {
		if ia := slotOf(target); ia != nil {
			if u, ok := ia.X.(*ssa.UnOp); ok {
				if al, af := g.cell(u.X, f); al != nil && af == g.startF {
					g.slots[al] = true
				}
			}
		}
	}
	if o == ownFresh || o == ownSlot || f.locked || g.lockedAt(ins, f) {
		return
	}
	if o == ownUnknown {
		return
	}
	if !g.many {
		// only one goroutine: shared with the starter at most
		return
	}
	g.report(ins, what)
}

func slotOf(v ssa.Value) *ssa.IndexAddr {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			return x
		case *ssa.FieldAddr:
			v = x.X
			continue
		}
		return nil
	}
}

// body follows what a goroutine does
func (g *goAnalysis) body(f *gframe) {
	if f.depth > 12 || len(f.fn.Blocks) == 0 {
		return
	}
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				what := "writes to memory that other goroutines share"
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					what = "writes to a variable that other goroutines share"
				} else if _, ok := x.Addr.(*ssa.Global); ok {
					what = "writes to a package-level variable without synchronisation"
				} else if _, ok := x.Addr.(*ssa.IndexAddr); ok {
					what = "writes to a slot that is not its own"
				}
				g.write(ins, x.Addr, f, what)
			case *ssa.MapUpdate:
				g.write(ins, x.Map, f, "writes to a map that other goroutines share")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if al, af := g.cell(x.X, f); al != nil && af == g.startF {
						g.reads[al] = true
					}
				}
			case ssa.CallInstruction:
				g.callee(x, f)
			}
		}
	}
}

var writesArg = map[string]int{
	"encoding/json.Unmarshal": 1, "gopkg.in/yaml.v3.Unmarshal": 1, "encoding/xml.Unmarshal": 1,
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0, "sort.Strings": 0, "sort.Ints": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0,
	"(*bytes.Buffer).Write": 0, "(*bytes.Buffer).WriteString": 0, "(*bytes.Buffer).Reset": 0,
	"(*strings.Builder).WriteString": 0, "(*strings.Builder).Write": 0,
	"(*encoding/json.Decoder).Decode": 1, "(net/http.Header).Set": 0, "(net/http.Header).Add": 0, "(net/http.Header).Del": 0,
	"(net/url.Values).Set": 0, "(net/url.Values).Add": 0, "maps.Copy": 0, "(*net/http.Request).SetBasicAuth": 0,
}

func (g *goAnalysis) callee(call ssa.CallInstruction, f *gframe) {
	c := call.Common()
	ins := call.(ssa.Instruction)
	name := calleeName(c)
	switch name {
	case "builtin copy", "builtin delete", "builtin clear":
		g.write(ins, c.Args[0], f, "writes to memory that other goroutines share")
		return
	}
	if i, ok := writesArg[name]; ok && i < len(c.Args) {
		t := c.Args[i]
		if mi, ok := t.(*ssa.MakeInterface); ok {
			t = mi.X
		}
		g.write(ins, t, f, "lets "+name+" write to memory that other goroutines share")
		return
	}
	if c.IsInvoke() {
		// methods of the module that it could be
		return
	}
	nf := &gframe{up: f, args: c.Args, inGo: true, depth: f.depth + 1, locked: f.locked || g.lockedAt(ins, f)}
	if nf.args == nil {
		nf.args = []ssa.Value{}
	}
	v, vf := c.Value, f
	for vf != nil {
		switch x := v.(type) {
		case *ssa.Function:
			if !inModule(x) {
				if name == "(*sync.Once).Do" {
					if mc, ok := c.Args[1].(*ssa.MakeClosure); ok {
						g.body(&gframe{fn: mc.Fn.(*ssa.Function), up: f, args: []ssa.Value{}, binds: mc.Bindings, bindUp: f, inGo: true, locked: true, depth: f.depth + 1})
					}
					return
				}
				// closures it may call
				for _, a := range c.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						g.body(&gframe{fn: mc.Fn.(*ssa.Function), up: f, args: []ssa.Value{}, binds: mc.Bindings, bindUp: f, inGo: true, locked: nf.locked, depth: f.depth + 1})
					}
				}
				return
			}
			nf.fn = x
			g.body(nf)
			return
		case *ssa.MakeClosure:
			nf.fn, nf.binds, nf.bindUp = x.Fn.(*ssa.Function), x.Bindings, vf
			g.body(nf)
			return
		case *ssa.Parameter:
			i := paramNo(vf.fn, x)
			if vf.args == nil || i < 0 || i >= len(vf.args) {
				return
			}
			v, vf = vf.args[i], vf.up
		case *ssa.FreeVar:
			i := freeIndex(vf.fn, x)
			if i < 0 || i >= len(vf.binds) {
				return
			}
			v, vf = vf.binds[i], vf.bindUp
		case *ssa.UnOp:
			al, af := g.cell(x.X, vf)
			if x.Op != token.MUL || al == nil {
				return
			}
			var st *ssa.Store
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					if st != nil {
						return
					}
					st = s
				}
			}
			if st == nil {
				return
			}
			v, vf = st.Val, af
		default:
			return
		}
	}
}

// between: instructions that can run after start and before its group is waited for
func (g *goAnalysis) between(start ssa.Instruction, group ssa.Value) (out []ssa.Instruction, returns *ssa.Return, joined bool) {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	same := func(v ssa.Value) bool {
		if group == nil {
			return v.Type().String() == "*sync.WaitGroup"
		}
		return v == group || sameVar(v, group)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var todo []pt
	for i, ins := range start.Block().Instrs {
		if ins == start {
			todo = append(todo, pt{start.Block(), i + 1})
		}
	}
	for len(todo) > 0 {
		p := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if p.i == 0 {
			if seen[p.b] {
				continue
			}
			seen[p.b] = true
		}
		stop := false
		for _, ins := range p.b.Instrs[p.i:] {
			if w, ok := waits(ins); ok && same(w) {
				stop, joined = true, true
				break
			}
			if r, ok := ins.(*ssa.Return); ok && returns == nil {
				returns = r
			}
			out = append(out, ins)
		}
		if !stop {
			for _, s := range p.b.Succs {
				todo = append(todo, pt{s, 0})
			}
		}
	}
	return out, returns, joined
}

func sameVar(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		return ua.X == ub.X
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fa.Field == fb.Field && (fa.X == fb.X || sameVar(fa.X, fb.X))
	}
	return false
}

func passGoroutines(c *checker) []finding {
	g := &goAnalysis{c: c, seen: map[string]bool{}}
	for _, fn := range c.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, args, group := spawned(ins)
				if v == nil {
					continue
				}
				// the ways the starter is called, when it starts what it is given
				frames := []*gframe{{fn: fn}}
				takes := false
				for _, p := range fn.Params {
					if _, ok := p.Type().Underlying().(*types.Signature); ok {
						takes = true
					}
				}
				if takes && fn.Parent() == nil {
					frames = nil
					for _, s := range c.sites(fn) {
						frames = append(frames, &gframe{fn: fn, up: &gframe{fn: s.Parent()}, args: s.Common().Args})
					}
				}
				for _, sf := range frames {
					g.start, g.startF = ins, sf
					g.many = inLoop(b) || moreStarts(fn, ins)
					g.reads, g.slots = map[*ssa.Alloc]bool{}, map[*ssa.Alloc]bool{}
					before := len(g.out)
					w0 := g.writes
					gf := &gframe{up: sf, args: args, inGo: true}
					if gf.args == nil {
						gf.args = []ssa.Value{}
					}
					switch x := v.(type) {
					case *ssa.MakeClosure:
						gf.fn, gf.binds, gf.bindUp = x.Fn.(*ssa.Function), x.Bindings, sf
						g.body(gf)
					case *ssa.Function:
						gf.fn = x
						g.body(gf)
					case *ssa.Parameter:
						if i := paramNo(fn, x); sf.args != nil && i < len(sf.args) {
							if mc, ok := sf.args[i].(*ssa.MakeClosure); ok {
								gf.fn, gf.binds, gf.bindUp = mc.Fn.(*ssa.Function), mc.Bindings, sf.up
								g.body(gf)
							}
						}
					}
					g.starter(ins, group, sf)
					ob := map[string]any{"goroutine": c.pos(ins.Pos()) + " in " + shortName(fn), "writes": g.writes - w0, "outcome": "holds"}
					if len(g.out) > before {
						ob["outcome"] = "violated"
					}
					c.obligations = append(c.obligations, ob)
				}
			}
		}
	}
	return g.out
}

func moreStarts(fn *ssa.Function, ins ssa.Instruction) bool {
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if v, _, _ := spawned(x); v != nil && x != ins {
				return true
			}
		}
	}
	return false
}

// starter: what the function that starts goroutines does until they are done
func (g *goAnalysis) starter(start ssa.Instruction, group ssa.Value, sf *gframe) {
	ins, ret, joined := g.between(start, group)
	fn := start.Parent()
	if st, ok := start.(*ssa.Go); ok && !signals(st.Call.Value) {
		g.report(start, "nothing can tell when this goroutine is done")
		return
	}
	// a group that comes from outside is waited for elsewhere
	outside := false
	if group != nil {
		root := group
		for {
			if fa, ok := root.(*ssa.FieldAddr); ok {
				root = fa.X
				continue
			}
			if u, ok := root.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, ok := u.X.(*ssa.FreeVar); ok {
					outside = true
				}
			}
			break
		}
		switch root.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			outside = true
		}
	}
	chans, deferred := false, false
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.UnOp:
				chans = chans || y.Op == token.ARROW
			case *ssa.Select:
				chans = true
			case *ssa.Range:
			case *ssa.Defer:
				n := calleeName(&y.Call)
				if strings.HasSuffix(n, ".Wait") {
					deferred = true
				}
				if mc, ok := y.Call.Value.(*ssa.MakeClosure); ok {
					for _, b2 := range mc.Fn.(*ssa.Function).Blocks {
						for _, z := range b2.Instrs {
							if _, ok := waits(z); ok {
								deferred = true
							}
							if u, ok := z.(*ssa.UnOp); ok && u.Op == token.ARROW {
								chans = true
							}
						}
					}
				}
			case *ssa.Call:
				// the group is handed to something that may wait for it
				if group != nil && inModuleCall(&y.Call) {
					for _, a := range y.Call.Args {
						if a == group || sameVar(a, group) {
							outside = true
						}
					}
				}
				if mc, ok := y.Call.Value.(*ssa.MakeClosure); ok && group != nil {
					for _, bd := range mc.Bindings {
						if bd == group {
							outside = true
						}
					}
				}
			}
		}
	}
	if outside || chans {
		return
	}
	_ = joined
	if ret != nil && !deferred {
		g.report(start, "can return while this goroutine is still running")
	}
	locked := func(x ssa.Instruction) bool { return g.lockedAt(x, sf) }
	for _, x := range ins {
		switch y := x.(type) {
		case *ssa.Store:
			if al, ok := y.Addr.(*ssa.Alloc); ok && g.reads[al] && !perRound(al, start) && !locked(x) {
				g.report(x, "changes a variable that running goroutines read")
			}
			if ia := slotOf(y.Addr); ia != nil {
				g.touch(ia.X, x, locked)
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if ia := slotOf(y.X); ia != nil {
					g.touch(ia.X, x, locked)
				}
			}
		case *ssa.Call:
			n := calleeName(&y.Call)
			if n == "builtin len" || n == "builtin cap" {
				continue
			}
			for _, a := range y.Call.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				g.touch(a, x, locked)
			}
		case *ssa.Return:
			if deferred {
				continue
			}
		}
	}
	if deferred && ret != nil {
		// results handed out before the deferred wait are only a header; the
		// slots are complete once the call has returned
		return
	}
}

// signals: the function tells others that it is done, or may
func signals(v ssa.Value) bool {
	fn, ok := v.(*ssa.Function)
	if mc, isMC := v.(*ssa.MakeClosure); isMC {
		fn, ok = mc.Fn.(*ssa.Function)
	}
	if !ok || len(fn.Blocks) == 0 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Send, *ssa.Select:
				return true
			case ssa.CallInstruction:
				n := calleeName(x.Common())
				if n == "(*sync.WaitGroup).Done" || n == "(*sync.WaitGroup).Add" || n == "builtin close" || n == "(*sync.Cond).Signal" || n == "(*sync.Cond).Broadcast" || strings.HasPrefix(n, "(context.CancelFunc)") {
					return true
				}
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok && mc != v && signals(mc) {
					return true
				}
				// handed something to signal with
				for _, a := range x.Common().Args {
					switch t := a.Type().String(); {
					case strings.Contains(t, "sync.WaitGroup"), strings.HasPrefix(t, "chan "), strings.HasPrefix(t, "chan<-"):
						return true
					}
				}
			}
		}
	}
	return false
}

func inModuleCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && inModule(f)
}

func (g *goAnalysis) touch(v ssa.Value, at ssa.Instruction, locked func(ssa.Instruction) bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || !g.slots[al] || locked(at) {
		return
	}
	g.report(at, "uses what running goroutines are writing")
}
