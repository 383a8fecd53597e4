package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what a flag says about values and places ----

type flagFacts struct {
	c    *checker
	flag string
	memo map[ssa.Value]int
}

func newFlagFacts(c *checker, flag string) *flagFacts {
	return &flagFacts{c: c, flag: flag, memo: map[ssa.Value]int{}}
}

// holds: with the flag set, the (boolean) value is surely val
func (f *flagFacts) holds(v ssa.Value, val bool) bool {
	key := v
	m := f.memo[key]
	bit := 1
	if !val {
		bit = 4
	}
	if m&bit != 0 {
		return m&(bit<<1) != 0
	}
	f.memo[key] |= bit | bit<<1 // assumed while looking
	r := f.holds1(v, val)
	f.memo[key] &^= bit << 1
	if r {
		f.memo[key] |= bit << 1
	}
	return r
}

func (f *flagFacts) holds1(v ssa.Value, val bool) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) == val
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return f.holds(x.X, !val)
		case token.MUL:
			return f.loaded(x.X, val)
		}
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if c, ok := p[1].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				b := constant.BoolVal(c.Value)
				switch x.Op {
				case token.EQL:
					return f.holds(p[0], b == val)
				case token.NEQ:
					return f.holds(p[0], b != val)
				}
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if f.holds(e, val) {
				continue
			}
			// an edge that is not taken when the flag is set
			if !f.excluded(x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return f.allArgs(x, func(a ssa.Value) bool { return f.holds(a, val) })
	case *ssa.FreeVar:
		return false
	case *ssa.Field:
		return f.field(x.X.Type(), x.Field, val)
	case *ssa.ChangeType:
		return f.holds(x.X, val)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !inModule(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !f.holds(r.Results[0], val) && !f.guarded(r) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// allArgs: something is so for the argument at every call
func (f *flagFacts) allArgs(p *ssa.Parameter, ok func(ssa.Value) bool) bool {
	fn := p.Parent()
	i := paramNo(fn, p)
	n := 0
	if fn.Parent() != nil {
		// a closure: called where it is made
		for _, r := range closureCalls(fn) {
			n++
			if i >= len(r.Args) || !ok(r.Args[i]) {
				return false
			}
		}
		return n > 0
	}
	for _, s := range f.c.sites(fn) {
		as := s.Common().Args
		n++
		if i >= len(as) || !ok(as[i]) {
			return false
		}
	}
	return n > 0
}

func closureCalls(fn *ssa.Function) (out []*ssa.CallCommon) {
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					out = append(out, c.Common())
				}
				if c.Common().Value == ssa.Value(fn) {
					out = append(out, c.Common())
				}
			}
		}
	}
	return
}

// loaded: what is kept at an address
func (f *flagFacts) loaded(addr ssa.Value, val bool) bool {
	if f.isFlagPtr(addr) {
		return val
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return f.field(x.X.Type(), x.Field, val)
	case *ssa.Alloc:
		return f.stores(x, val)
	case *ssa.FreeVar:
		for _, b := range bindingsOf(x) {
			if f.isFlagPtr(b) {
				if !val {
					return false
				}
				continue
			}
			al, ok := b.(*ssa.Alloc)
			if !ok || !f.stores(al, val) {
				return false
			}
		}
		return len(bindingsOf(x)) > 0
	case *ssa.Global:
		n := 0
		for _, fn := range f.c.moduleFuncs() {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						n++
						if !f.holds(st.Val, val) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func bindingsOf(fv *ssa.FreeVar) (out []ssa.Value) {
	fn := fv.Parent()
	i := freeIndex(fn, fv)
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

func (f *flagFacts) stores(al *ssa.Alloc, val bool) bool {
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			n++
			if !f.holds(st.Val, val) {
				return false
			}
		}
		if f.definesFlag(r, al) {
			n++
			if !val {
				return false
			}
		}
	}
	return n > 0
}

// definesFlag: (*flag.FlagSet).BoolVar(&al, "name", ...)
func (f *flagFacts) definesFlag(r ssa.Instruction, al ssa.Value) bool {
	c, ok := r.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(&c.Call)
	as := c.Call.Args
	if n == "(*flag.FlagSet).BoolVar" {
		as = as[1:]
	} else if n != "flag.BoolVar" {
		return false
	}
	return as[0] == al && f.isName(as[1])
}

func (f *flagFacts) isName(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == f.flag
}

// isFlagPtr: the value is what defining the flag returned
func (f *flagFacts) isFlagPtr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		as := x.Call.Args
		switch calleeName(&x.Call) {
		case "(*flag.FlagSet).Bool":
			return f.isName(as[1])
		case "flag.Bool":
			return f.isName(as[0])
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		// a variable that holds the pointer
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return f.holdsPtr(a)
		case *ssa.FreeVar:
			bs := bindingsOf(a)
			for _, b := range bs {
				al, ok := b.(*ssa.Alloc)
				if !ok || !f.holdsPtr(al) {
					return false
				}
			}
			return len(bs) > 0
		case *ssa.FieldAddr:
			n := 0
			for _, st := range f.c.fieldStores(a.X.Type(), a.Field) {
				n++
				if !f.isFlagPtr(st.Val) {
					return false
				}
			}
			return n > 0
		}
	case *ssa.Parameter:
		return f.allArgs(x, f.isFlagPtr)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if f.definesFlag(r, x) {
				return true
			}
		}
	}
	return false
}

func (f *flagFacts) holdsPtr(al *ssa.Alloc) bool {
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			n++
			if !f.isFlagPtr(st.Val) {
				return false
			}
		}
	}
	return n > 0
}

func structIn(t types.Type) (types.Type, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return t, s
}

// fieldStores: everything that is put into a field of a struct type
func (c *checker) fieldStores(t types.Type, field int) (out []*ssa.Store) {
	st, _ := structIn(t)
	for _, fn := range c.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field {
					continue
				}
				if u, _ := structIn(fa.X.Type()); types.Identical(u, st) {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// literals: variables of a struct type that are filled in field by field
func (c *checker) literals(t types.Type) (out []*ssa.Alloc) {
	for _, fn := range c.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok {
					continue
				}
				if u := al.Type().Underlying().(*types.Pointer).Elem(); !types.Identical(u, t) {
					continue
				}
				whole := false
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						whole = true
					}
				}
				if !whole {
					out = append(out, al)
				}
			}
		}
	}
	return out
}

// field: every value that a field is given has val with the flag set
func (f *flagFacts) field(t types.Type, field int, val bool) bool {
	st, s := structIn(t)
	if s == nil {
		return false
	}
	if _, named := st.(*types.Named); !named {
		return false
	}
	n := 0
	for _, store := range f.c.fieldStores(t, field) {
		n++
		if !f.holds(store.Val, val) {
			return false
		}
	}
	if val {
		// none may be left out
		for _, al := range f.c.literals(st) {
			set, used := false, false
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					used = true
					if fa.Field == field {
						set = true
					}
				}
			}
			if used && !set {
				return false
			}
		}
	}
	return n > 0
}

// excluded: the edge is not taken when the flag is set
func (f *flagFacts) excluded(from, to *ssa.BasicBlock) bool {
	if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		taken := from.Succs[0] == to
		if f.holds(ifi.Cond, !taken) {
			return true
		}
	}
	return f.blockGuarded(from)
}

// blockGuarded: the block is not reached (within its function) when the flag is set
func (f *flagFacts) blockGuarded(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p := d.Preds[0]
			if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				if f.holds(ifi.Cond, p.Succs[0] != d) {
					return true
				}
			}
		}
	}
	return false
}

func (f *flagFacts) guarded(ins ssa.Instruction) bool { return f.blockGuarded(ins.Block()) }

// ---- reachability ----

type hop struct {
	fn   *ssa.Function
	from *hop
	site ssa.Instruction
}

func (h *hop) path() string {
	var ns []string
	for x := h; x != nil; x = x.from {
		ns = append([]string{shortName(x.fn)}, ns...)
	}
	return strings.Join(ns, " -> ")
}

// methodsNamed: methods of the program that an interface call may end up in
func (c *checker) methodsNamed(m *types.Func) (out []*ssa.Function) {
	sig := m.Type().(*types.Signature)
	for _, fn := range c.moduleFuncs() {
		if fn.Name() != m.Name() || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, fn.Signature.Params(), fn.Signature.Results(), fn.Signature.Variadic()),
			types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, fn)
		}
	}
	return out
}

// reach everything from main, except through what skip leaves out
func (c *checker) reach(roots []*ssa.Function, skip func(ins ssa.Instruction, to *ssa.Function) bool) map[*ssa.Function]*hop {
	seen := map[*ssa.Function]*hop{}
	var todo []*hop
	push := func(fn *ssa.Function, from *hop, site ssa.Instruction) {
		if fn == nil || seen[fn] != nil {
			return
		}
		h := &hop{fn, from, site}
		seen[fn] = h
		todo = append(todo, h)
	}
	for _, r := range roots {
		push(r, nil, nil)
	}
	for len(todo) > 0 {
		h := todo[0]
		todo = todo[1:]
		for _, b := range h.fn.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
					for _, m := range c.methodsNamed(call.Common().Method) {
						if skip == nil || !skip(ins, m) {
							push(m, h, ins)
						}
					}
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g.Synthetic != "" && !c.inProgram(g) {
						continue
					}
					if inModule(g) && (skip == nil || !skip(ins, g)) {
						push(g, h, ins)
					}
				}
			}
		}
	}
	return seen
}

func (c *checker) roots() (out []*ssa.Function) {
	out = append(out, c.p.fn("", "main"))
	for _, fn := range c.moduleFuncs() {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			out = append(out, fn)
		}
		// called by decoders and formatters, through interfaces of theirs
		if fn.Signature.Recv() != nil {
			switch fn.Name() {
			case "UnmarshalJSON", "MarshalJSON", "UnmarshalYAML", "MarshalYAML", "UnmarshalXML", "UnmarshalText", "MarshalText", "UnmarshalTOML", "String", "Error", "Set":
				out = append(out, fn)
			}
		}
	}
	return out
}

// ---- C01: the network ----

func networkSink(name string) bool {
	switch {
	case strings.HasPrefix(name, "net.Dial"), strings.HasPrefix(name, "net.Listen"), strings.HasPrefix(name, "net.Lookup"), strings.HasPrefix(name, "net.Resolve"),
		strings.HasPrefix(name, "(*net.Dialer)."), strings.HasPrefix(name, "(*net.Resolver)."), strings.HasPrefix(name, "(*net.ListenConfig)."),
		strings.HasPrefix(name, "crypto/tls.Dial"), strings.HasPrefix(name, "(*crypto/tls.Dialer)."),
		strings.HasPrefix(name, "net/rpc."), strings.HasPrefix(name, "net/smtp."),
		strings.HasPrefix(name, "(*net/http.Client)."), strings.HasPrefix(name, "(*net/http.Transport).RoundTrip"), name == "(net/http.RoundTripper).RoundTrip",
		name == "net/http.Get", name == "net/http.Head", name == "net/http.Post", name == "net/http.PostForm",
		strings.HasPrefix(name, "net/http.ListenAndServe"), strings.HasPrefix(name, "os/exec."), strings.HasPrefix(name, "(*os/exec.Cmd)."):
		return name != "(*net/http.Client).CloseIdleConnections"
	}
	return false
}

// offlineParam: the parameter that says whether to be offline
func offlineParam(fn *ssa.Function) int {
	at := -1
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

func passOffline(c *checker) []finding {
	var out []finding
	facts := newFlagFacts(c, "offline")
	entry := map[*ssa.Function]string{}
	for _, n := range []string{"NewZippedDB", "NewAPIDB", "Load", "NewDirDB"} {
		if fn := c.p.fn("pkg/database", n); fn != nil {
			entry[fn] = "pkg/database." + n
		}
	}
	equal := func(name string) bool {
		pi := c.pr.m[name]
		if pi == nil || pi.repo == nil || pi.spec == nil {
			return false
		}
		c.pr.decide(pi)
		return pi.status == pairEqual
	}
	definite := func(name string) bool {
		pi := c.pr.m[name]
		return pi != nil && pi.status == pairDiffers && pi.definite
	}
	// the flag gets to every database
	for fn, name := range entry {
		i := offlineParam(fn)
		if i < 0 || name == "pkg/database.NewDirDB" {
			continue
		}
		for _, s := range c.sites(fn) {
			where := c.pos(s.Pos()) + " in " + shortName(s.Parent())
			ob := map[string]any{"call": name, "at": where, "rule": "with the offline flag set, the offline argument is true", "outcome": "holds"}
			c.obligations = append(c.obligations, ob)
			if facts.holds(s.Common().Args[i], true) || facts.guarded(s) {
				continue
			}
			top := modPath + ".run"
			if equal(top) {
				ob["outcome"] = "holds"
				ob["by"] = "run does what its reference does"
				continue
			}
			if definite(top) {
				ob["outcome"] = "violated"
				out = append(out, finding{where: where, what: "the offline flag does not always reach this call of " + name})
				continue
			}
			ob["outcome"] = "undecided"
			c.undecided = append(c.undecided, where+": whether the offline flag reaches "+name)
		}
	}
	// API databases do not come into being
	apiOK := true
	if t := c.p.pkgs[modPath+"/pkg/database"].Type("APIDB"); t != nil {
		made := c.reach(c.roots(), func(ins ssa.Instruction, to *ssa.Function) bool {
			return facts.guarded(ins) || entry[to] == "pkg/database.NewAPIDB"
		})
		for _, al := range c.literals(t.Type()) {
			fields := false
			for _, r := range *al.Referrers() {
				if _, ok := r.(*ssa.FieldAddr); ok {
					fields = true
				}
			}
			if !al.Heap && !fields {
				continue
			}
			where := c.pos(al.Pos()) + " in " + shortName(al.Parent())
			ob := map[string]any{"makes": "APIDB", "at": where, "rule": "not reached with the offline flag set", "outcome": "holds"}
			c.obligations = append(c.obligations, ob)
			if facts.guarded(al) {
				continue
			}
			if h := made[al.Parent()]; h != nil {
				ob["outcome"] = "violated"
				out = append(out, finding{where: where, what: "an API database can be made although offline: " + h.path()})
				continue
			}
			if equal("pkg/database.NewAPIDB") {
				ob["by"] = "NewAPIDB does what its reference does"
				continue
			}
			if definite("pkg/database.NewAPIDB") {
				// decided by the comparison of NewAPIDB with the flag set
				ob["by"] = "comparison of NewAPIDB"
				continue
			}
			apiOK = false
			ob["outcome"] = "undecided"
			c.undecided = append(c.undecided, where+": whether an API database can be made although offline")
		}
	}
	_ = apiOK
	// nothing else uses the network
	isAPI := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		r := fn.Signature.Recv()
		return r != nil && strings.HasSuffix(r.Type().String(), "/pkg/database.APIDB")
	}
	seen := c.reach(c.roots(), func(ins ssa.Instruction, to *ssa.Function) bool { return facts.guarded(ins) || isAPI(to) })
	bare := c.reach(c.roots(), func(ins ssa.Instruction, to *ssa.Function) bool {
		return facts.guarded(ins) || isAPI(to) || entry[to] != "" && entry[to] != "pkg/database.NewDirDB" && entry[to] != "pkg/database.Load"
	})
	var fns []*ssa.Function
	for fn := range seen {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				name := calleeName(call.Common())
				if !networkSink(name) {
					continue
				}
				where := c.pos(ins.Pos()) + " in " + shortName(fn)
				ob := map[string]any{"request": name, "at": where, "rule": "not reached with the offline flag set", "outcome": "holds"}
				c.obligations = append(c.obligations, ob)
				if facts.guarded(ins) {
					continue
				}
				if h := bare[fn]; h != nil {
					ob["outcome"] = "violated"
					out = append(out, finding{where: where, what: "uses the network whether offline or not: " + h.path()})
					continue
				}
				if name != "(*net/http.Client).Do" {
					ob["outcome"] = "violated"
					out = append(out, finding{where: where, what: name + " is called whether offline or not: " + seen[fn].path()})
					continue
				}
				// inside the making of a database: decided by comparing it with the flag set
				ob["by"] = "comparison of the constructors"
			}
		}
	}
	c.info["calls_examined"] = n
	c.info["functions_reached"] = len(fns)
	return out
}

// ---- C15: files ----

var destroys = map[string]string{
	"os.Remove": "deletes", "os.RemoveAll": "deletes", "os.Rename": "renames", "os.Truncate": "changes", "os.Chmod": "changes", "os.Chown": "changes",
	"os.Lchown": "changes", "os.Chtimes": "changes", "os.Symlink": "creates", "os.Link": "creates", "os.Mkdir": "creates", "os.MkdirAll": "creates",
	"os.MkdirTemp": "creates", "os.CopyFS": "creates", "os.StartProcess": "executes", "(*os.File).Truncate": "changes", "(*os.File).Chmod": "changes", "(*os.File).Chown": "changes",
	"(*os.Root).Remove": "deletes", "(*os.Root).RemoveAll": "deletes", "(*os.Root).Rename": "renames", "(*os.Root).Mkdir": "creates", "(*os.Root).MkdirAll": "creates",
	"io/ioutil.TempDir": "creates", "os.CreateTemp": "creates", "io/ioutil.TempFile": "creates", "plugin.Open": "executes",
}

var writers = map[string]bool{"os.WriteFile": true, "os.Create": true, "os.OpenFile": true, "io/ioutil.WriteFile": true}

func passFiles(c *checker) []finding {
	var out []finding
	facts := newFlagFacts(c, "update-config-ignores")
	_ = facts
	seen := c.reach(c.roots(), nil)
	upd := c.p.fn("internal/configer", "UpdateWithIgnores")
	zipped := c.p.fn("pkg/database", "NewZippedDB")
	noUpd := c.reach(c.roots(), func(ins ssa.Instruction, to *ssa.Function) bool { return to == upd })
	noZip := c.reach(c.roots(), func(ins ssa.Instruction, to *ssa.Function) bool { return to == zipped })
	var fns []*ssa.Function
	for fn := range seen {
		if len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n++
				cc := call.Common()
				name := calleeName(cc)
				where := c.pos(ins.Pos()) + " in " + shortName(fn)
				how := destroys[name]
				if strings.HasPrefix(name, "os/exec.") || strings.HasPrefix(name, "(*os/exec.Cmd).") || strings.HasPrefix(name, "syscall.Exec") || name == "syscall.ForkExec" {
					how = "executes"
				}
				if how != "" {
					c.obligations = append(c.obligations, map[string]any{"call": name, "at": where, "rule": "nothing is deleted, renamed, created elsewhere or executed", "outcome": "violated"})
					out = append(out, finding{where: where, what: how + " something with " + name + ": " + seen[fn].path()})
					continue
				}
				if !writers[name] {
					continue
				}
				if name == "os.OpenFile" {
					if fl, ok := cc.Args[1].(*ssa.Const); ok && fl.Value != nil && fl.Int64() == 0 {
						continue // to read
					}
				}
				ob := map[string]any{"call": name, "at": where, "rule": "writes to the cache file or the config being updated", "outcome": "holds"}
				c.obligations = append(c.obligations, ob)
				pv := &provenance{c: c, seen: map[ssa.Value]bool{}, raw: map[string]bool{}, hashed: map[string]bool{}}
				pv.walk(cc.Args[0], nil, false)
				ob["path_from"] = pv.String()
				if noUpd[fn] == nil && noZip[fn] != nil {
					// only when a config is updated: the config itself
					if pv.only("param:internal/configer.UpdateWithIgnores") {
						continue
					}
					ob["outcome"] = "violated"
					out = append(out, finding{where: where, what: "writes to another file than the config to be updated: path made from " + pv.String()})
					continue
				}
				if noZip[fn] == nil {
					if why := pv.cacheFile(); why == "" {
						continue
					} else if pv.unknown == "" || c.differs("pkg/database.NewZippedDB") {
						ob["outcome"] = "violated"
						out = append(out, finding{where: where, what: why + ": path made from " + pv.String()})
						continue
					} else {
						ob["outcome"] = "undecided"
						c.undecided = append(c.undecided, where+": what file this is")
						continue
					}
				}
				ob["outcome"] = "violated"
				out = append(out, finding{where: where, what: "writes a file that is neither a cache nor a config to be updated: " + seen[fn].path()})
			}
		}
	}
	// configs are only updated on request
	if upd != nil {
		for _, s := range c.sites(upd) {
			where := c.pos(s.Pos()) + " in " + shortName(s.Parent())
			ob := map[string]any{"call": "configer.UpdateWithIgnores", "at": where, "rule": "only reached with the flag to update configs set", "outcome": "holds"}
			c.obligations = append(c.obligations, ob)
			req := &onlyWith{facts: newFlagFacts(c, "update-config-ignores"), seen: map[*ssa.Function]bool{}}
			if req.site(s) {
				continue
			}
			pi := c.pr.m[modPath+".run"]
			c.pr.decide(pi)
			switch {
			case pi.status == pairEqual:
				ob["by"] = "run does what its reference does"
			case pi.status == pairDiffers && pi.definite && c.diffIn(pi, "effects fs"):
				ob["outcome"] = "violated"
				out = append(out, finding{where: where, what: "configs can be updated without having been asked to"})
			default:
				ob["outcome"] = "undecided"
				c.undecided = append(c.undecided, where+": whether configs are only updated on request")
			}
		}
	}
	c.info["calls_examined"] = n
	return out
}

func (c *checker) differs(name string) bool {
	pi := c.pr.m[name]
	if pi == nil || pi.repo == nil || pi.spec == nil {
		return false
	}
	c.pr.decide(pi)
	return pi.status == pairDiffers && pi.definite
}

func (c *checker) diffIn(pi *pairInfo, what string) bool {
	for _, d := range pi.diffs {
		if d.what == what {
			return true
		}
	}
	return false
}

// onlyWith: places that are only reached with a flag set
type onlyWith struct {
	facts *flagFacts
	seen  map[*ssa.Function]bool
}

func (o *onlyWith) site(s ssa.Instruction) bool {
	// some branch on the way needs the flag: its condition is the flag, or false without it
	for d := s.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p := d.Preds[0]
			if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				if o.needs(ifi.Cond, p.Succs[0] == d) {
					return true
				}
			}
		}
	}
	fn := s.Parent()
	if o.seen[fn] {
		return true
	}
	o.seen[fn] = true
	n := 0
	for _, t := range o.facts.c.sites(fn) {
		n++
		if !o.site(t) {
			return false
		}
	}
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					n++
					if !o.site(mc) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// needs: the condition has this value only with the flag set
func (o *onlyWith) needs(v ssa.Value, val bool) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return o.needs(x.X, !val)
		}
		return x.Op == token.MUL && val && (o.facts.isFlagPtr(x.X) || o.cell(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != val {
				continue
			}
			if !o.needs(e, val) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return o.facts.allArgs(x, func(a ssa.Value) bool { return o.needs(a, val) })
	case *ssa.Const:
		return x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != val
	}
	return false
}

func (o *onlyWith) cell(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			n++
			if !o.needs(st.Val, true) {
				return false
			}
		}
		if o.facts.definesFlag(r, al) {
			n++
		}
	}
	return n > 0
}

// provenance: what a value is made from
type provenance struct {
	c           *checker
	seen        map[ssa.Value]bool
	raw, hashed map[string]bool
	unknown     string
	depth       int
}

type pframe struct {
	up   *pframe
	fn   *ssa.Function
	args []ssa.Value
}

func (p *provenance) String() string {
	var ks []string
	for k := range p.raw {
		ks = append(ks, k)
	}
	for k := range p.hashed {
		ks = append(ks, "hash of "+k)
	}
	if p.unknown != "" {
		ks = append(ks, "?"+p.unknown)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func (p *provenance) only(leaf string) bool {
	return len(p.hashed) == 0 && p.unknown == "" && len(p.raw) == 1 && p.raw[leaf]
}

// cacheFile: why the path is not that of a cache file
func (p *provenance) cacheFile() string {
	if !p.raw["os.TempDir"] {
		return "writes outside of the temporary directory"
	}
	url := func(k string) bool { return k == "field:ZipDB.ArchiveURL" || k == "field:Config.URL" }
	for k := range p.raw {
		if k == "os.TempDir" || k == "const" {
			continue
		}
		if url(k) {
			return "writes to a path that contains the URL as it is"
		}
		return "writes to a file whose name depends on more than the URL"
	}
	n := 0
	for k := range p.hashed {
		if k == "const" {
			continue
		}
		if !url(k) {
			return "writes to a file whose name depends on more than the URL"
		}
		n++
	}
	if n == 0 && p.unknown == "" {
		return "writes to a file whose name does not depend on the URL"
	}
	if p.unknown != "" {
		return "writes to a file that cannot be told"
	}
	return ""
}

func (p *provenance) leaf(k string, hashed bool) {
	if hashed {
		p.hashed[k] = true
	} else {
		p.raw[k] = true
	}
}

func isHash(name string) bool {
	for _, pre := range []string{"crypto/sha256.Sum", "crypto/sha1.Sum", "crypto/md5.Sum", "crypto/sha512.Sum", "(hash.Hash", "hash/", "(*crypto/", "net/url.QueryEscape", "net/url.PathEscape", "encoding/hex.EncodeToString", "(*encoding/base32.Encoding).EncodeToString"} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

func (p *provenance) walk(v ssa.Value, fr *pframe, hashed bool) {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 60 {
		p.unknown = "too deep"
		return
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		if c, ok := v.(*ssa.Const); ok && (c.Value == nil || c.Value.Kind() != constant.String || constant.StringVal(c.Value) == "") {
			return
		}
		p.leaf("const", hashed)
		return
	case *ssa.Parameter:
		i := paramNo(x.Parent(), x)
		if fr != nil && fr.fn == x.Parent() {
			p.walk(fr.args[i], fr.up, hashed)
			return
		}
		if n := shortName(x.Parent()); n == "internal/configer.UpdateWithIgnores" || n == "pkg/database.NewZippedDB" {
			p.leaf("param:"+n, hashed)
			return
		}
		if p.seen[v] {
			return
		}
		p.seen[v] = true
		ss := p.c.sites(x.Parent())
		if len(ss) == 0 {
			p.unknown = "argument of " + shortName(x.Parent())
		}
		for _, s := range ss {
			if i < len(s.Common().Args) {
				p.walk(s.Common().Args[i], nil, hashed)
			}
		}
		return
	case *ssa.Global:
		p.leaf("var:"+x.Name(), hashed)
		return
	case *ssa.Call:
		name := calleeName(&x.Call)
		if name == "os.TempDir" {
			p.leaf("os.TempDir", hashed)
			return
		}
		if isHash(name) {
			hashed = true
		}
		if g := x.Call.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) > 0 {
			nf := &pframe{up: fr, fn: g, args: x.Call.Args}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					p.walk(r.Results[0], nf, hashed)
				}
			}
			return
		}
		if x.Call.IsInvoke() {
			p.walk(x.Call.Value, fr, hashed)
			// what has been written into a hash
			p.written(x.Call.Value, fr, true)
		}
		if len(x.Call.Args) == 0 && !x.Call.IsInvoke() && name != "crypto/sha256.New" && !isHash(name) {
			p.leaf("call:"+name, hashed)
		}
		for _, a := range x.Call.Args {
			p.walk(a, fr, hashed)
		}
		return
	case *ssa.Extract:
		p.walk(x.Tuple, fr, hashed)
		return
	case *ssa.Phi:
		if p.seen[v] {
			return
		}
		p.seen[v] = true
		for _, e := range x.Edges {
			p.walk(e, fr, hashed)
		}
		return
	case *ssa.BinOp:
		p.walk(x.X, fr, hashed)
		p.walk(x.Y, fr, hashed)
		return
	case *ssa.Convert:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.ChangeType:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.ChangeInterface:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.MakeInterface:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.SliceToArrayPointer:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.Slice:
		p.walk(x.X, fr, hashed)
		return
	case *ssa.Field:
		p.field(x.X.Type(), x.Field, hashed)
		return
	case *ssa.Alloc:
		// what is put into it
		if p.seen[v] {
			return
		}
		p.seen[v] = true
		p.contents(x, fr, hashed)
		return
	case *ssa.FreeVar:
		bs := bindingsOf(x)
		if len(bs) == 0 {
			p.unknown = "captured variable"
		}
		for _, b := range bs {
			p.walk(b, nil, hashed)
		}
		return
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if al, ok := a.X.(*ssa.Alloc); ok {
					n := 0
					for _, r := range *al.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == a.Field {
							for _, r2 := range *fa.Referrers() {
								if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
									n++
									p.walk(st.Val, fr, hashed)
								}
							}
						}
					}
					if n > 0 {
						return
					}
				}
				p.field(a.X.Type(), a.Field, hashed)
				return
			case *ssa.IndexAddr:
				p.walk(a.X, fr, hashed)
				return
			default:
				p.walk(x.X, fr, hashed)
				return
			}
		}
	case *ssa.FieldAddr:
		p.field(x.X.Type(), x.Field, hashed)
		return
	case *ssa.IndexAddr:
		p.walk(x.X, fr, hashed)
		return
	}
	p.unknown = v.String()
}

func (p *provenance) field(t types.Type, i int, hashed bool) {
	st, s := structIn(t)
	n := st.String()
	n = n[strings.LastIndexAny(n, "./")+1:]
	p.leaf("field:"+n+"."+s.Field(i).Name(), hashed)
}

func (p *provenance) contents(al *ssa.Alloc, fr *pframe, hashed bool) {
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				p.walk(y.Val, fr, hashed)
			}
		case *ssa.IndexAddr:
			for _, r2 := range *y.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					p.walk(st.Val, fr, hashed)
				}
			}
		case *ssa.FieldAddr:
			for _, r2 := range *y.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					p.walk(st.Val, fr, hashed)
				}
			}
		}
	}
}

// written: what has been written into a hash
func (p *provenance) written(h ssa.Value, fr *pframe, hashed bool) {
	if h.Referrers() == nil || p.seen[h] {
		return
	}
	p.seen[h] = true
	for _, r := range *h.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			for _, a := range c.Call.Args {
				if a != h {
					p.walk(a, fr, hashed)
				}
			}
		}
		if ci, ok := r.(*ssa.ChangeInterface); ok {
			p.written(ci, fr, hashed)
		}
		if mi, ok := r.(*ssa.MakeInterface); ok {
			p.written(mi, fr, hashed)
		}
	}
}

// ---- C18: who writes to stdout ----

// harmless: what can be asked of a file without writing to it
var harmless = map[string]bool{"Fd": true, "Stat": true, "Name": true, "Sync": true}

// passStdout: apart from main, which hands the stream on, and the reporter,
// which decides by its mode what goes to it, nothing writes to stdout
func passStdout(c *checker) []finding {
	var out []finding
	for _, fn := range c.moduleFuncs() {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || top.Pkg.Pkg.Path() == modPath {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				where := c.pos(ins.Pos()) + " in " + shortName(fn)
				ob := map[string]any{"at": where, "rule": "only the reporter writes to stdout", "outcome": "holds"}
				bad := ""
				switch x := ins.(type) {
				case ssa.CallInstruction:
					name := calleeName(x.Common())
					if name != "fmt.Print" && name != "fmt.Printf" && name != "fmt.Println" {
						continue
					}
					bad = name
				case *ssa.UnOp:
					g, ok := x.X.(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "os" || g.Name() != "Stdout" {
						continue
					}
					bad = c.writesTo(x, map[ssa.Value]bool{})
				default:
					continue
				}
				if bad != "" {
					ob["outcome"] = "violated"
					out = append(out, finding{where: where, what: "writes to stdout with " + bad + ", whatever the output mode"})
				}
				c.obligations = append(c.obligations, ob)
			}
		}
	}
	c.info["stdout"] = "functions looked at: " + strconv.Itoa(len(c.moduleFuncs()))
	return out
}

// writesTo: a library function that is handed the stream
func (c *checker) writesTo(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			if s := c.writesTo(x, seen); s != "" {
				return s
			}
		case *ssa.ChangeInterface:
			if s := c.writesTo(x, seen); s != "" {
				return s
			}
		case *ssa.Phi:
			if s := c.writesTo(x, seen); s != "" {
				return s
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() {
				if cc.Value == v && !harmless[cc.Method.Name()] {
					return cc.Method.FullName()
				}
				continue
			}
			f := cc.StaticCallee()
			if f == nil {
				continue
			}
			if len(f.Blocks) > 0 && c.inProgram(f) {
				if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "internal/reporter") {
					continue
				}
				for i, a := range cc.Args {
					if a == v && i < len(f.Params) {
						if s := c.writesTo(f.Params[i], seen); s != "" {
							return s
						}
					}
				}
				continue
			}
			if len(cc.Args) > 0 && cc.Args[0] == v && f.Signature.Recv() != nil && harmless[f.Name()] {
				continue
			}
			return calleeName(cc)
		}
	}
	return ""
}
