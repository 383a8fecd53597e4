package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typestate analysis of what has to be closed: files and response bodies. From
// every call that opens something, all paths through the function are followed
// until it is closed (or a deferred call that closes it is registered), is
// handed to the caller, is known not to have been opened (its error is not
// nil), or the function returns with it still open.

type opener struct {
	res, err int // results: what was opened, and the error
	what     string
}

var openers = map[string]opener{
	"os.Open": {0, 1, "file"}, "os.Create": {0, 1, "file"}, "os.OpenFile": {0, 1, "file"}, "os.CreateTemp": {0, 1, "file"},
	"os.OpenInRoot": {0, 1, "file"}, "(*os.Root).Open": {0, 1, "file"}, "(*os.Root).OpenFile": {0, 1, "file"}, "(*os.Root).Create": {0, 1, "file"},
	"os.OpenRoot":            {0, 1, "directory"},
	"net/http.Get":           {0, 1, "response"},
	"net/http.Head":          {0, 1, "response"},
	"net/http.Post":          {0, 1, "response"},
	"net/http.PostForm":      {0, 1, "response"},
	"archive/zip.OpenReader": {0, 1, "archive"},

	"(*net/http.Client).Do": {0, 1, "response"}, "(*net/http.Client).Get": {0, 1, "response"}, "(*net/http.Client).Head": {0, 1, "response"},
	"(*net/http.Client).Post": {0, 1, "response"}, "(*net/http.Client).PostForm": {0, 1, "response"},
	"(*net/http.Transport).RoundTrip": {0, 1, "response"}, "(net/http.RoundTripper).RoundTrip": {0, 1, "response"},
	"(*archive/zip.File).Open": {0, 1, "file"}, "(*archive/zip.Reader).Open": {0, 1, "file"}, "(*archive/zip.ReadCloser).Open": {0, 1, "file"},
	"(io/fs.FS).Open": {0, 1, "file"},
}

type tag uint8

const (
	tNone   tag = iota
	tRes        // what was opened
	tErr        // the error of opening it
	tBody       // the body of a response
	tBodyAt     // where the body of a response is kept
	tCloser     // a function that closes it
)

// calleeName: the full name of what is called
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		recv := c.Value.Type().String()
		if n, ok := c.Method.Type().(*types.Signature); ok && n.Recv() != nil {
			recv = n.Recv().Type().String()
		}
		return "(" + recv + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

type closeState struct {
	held     bool
	deferred bool
	tags     map[ssa.Value]tag
	mem      map[ssa.Value]tag // what variables hold
	runs     []*ssa.MakeClosure
	took     map[ssa.Value]bool // decisions
}

func (s *closeState) clone() *closeState {
	n := &closeState{held: s.held, deferred: s.deferred, tags: map[ssa.Value]tag{}, mem: map[ssa.Value]tag{}, took: map[ssa.Value]bool{}}
	for k, v := range s.tags {
		n.tags[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.took {
		n.took[k] = v
	}
	n.runs = append(n.runs, s.runs...)
	return n
}

func (s *closeState) key() string {
	var ks []string
	for k, v := range s.tags {
		ks = append(ks, fmt.Sprintf("t%s%p=%d", k.Name(), k, v))
	}
	for k, v := range s.mem {
		ks = append(ks, fmt.Sprintf("m%s%p=%d", k.Name(), k, v))
	}
	for k, v := range s.took {
		ks = append(ks, fmt.Sprintf("b%p=%v", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprint(s.held, s.deferred, len(s.runs), ks)
}

type closeOutcome struct {
	leaks    []token.Pos // exits at which it is still open
	exits    int
	closedAt int
	returned map[int]bool // handed to the caller, by result
	unsure   string
	paths    int
}

type closeAnalysis struct {
	c     *checker
	depth int
	cond  map[*ssa.Function]opener // functions of the module that open something for their caller
	kind  string
}

func (a *closeAnalysis) opens(c *ssa.CallCommon) (opener, bool) {
	if o, ok := openers[calleeName(c)]; ok {
		return o, true
	}
	if f := c.StaticCallee(); f != nil {
		o, ok := a.cond[f]
		return o, ok
	}
	return opener{}, false
}

// follow what is held from a point in a function on
func (a *closeAnalysis) follow(fn *ssa.Function, from ssa.Instruction, start *closeState) *closeOutcome {
	out := &closeOutcome{returned: map[int]bool{}}
	if a.depth > 6 {
		out.unsure = "calls too deep"
		return out
	}
	a.depth++
	defer func() { a.depth-- }()
	type item struct {
		b    *ssa.BasicBlock
		i    int
		pred *ssa.BasicBlock
		st   *closeState
	}
	var todo []item
	if from != nil {
		b := from.Block()
		for i, ins := range b.Instrs {
			if ins == from {
				todo = append(todo, item{b, i + 1, nil, start})
			}
		}
	} else {
		if len(fn.Blocks) == 0 {
			out.unsure = "no source"
			return out
		}
		todo = append(todo, item{fn.Blocks[0], 0, nil, start})
	}
	seen := map[string]bool{}
	for len(todo) > 0 && out.unsure == "" {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		st := it.st
		if !st.held || st.deferred {
			out.exits++
			out.closedAt++
			continue
		}
		if it.i == 0 {
			// values of an earlier round of a loop are gone
			for _, ins := range it.b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(st.tags, v)
					}
					delete(st.took, v)
				}
			}
			k := fmt.Sprint(it.b.Index, it.pred != nil && len(it.b.Instrs) > 0 && predOf(it.b, it.pred) >= 0, predOf(it.b, it.pred), st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
			out.paths++
			if out.paths > 4000 {
				out.unsure = "too many paths"
				break
			}
			// phis all at once
			pi := predOf(it.b, it.pred)
			nt := map[ssa.Value]tag{}
			for _, ins := range it.b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if pi >= 0 {
					nt[phi] = a.tagOf(st, phi.Edges[pi])
				}
			}
			for v, t := range nt {
				a.set(st, v, t)
			}
		}
		ended := false
		for i := it.i; i < len(it.b.Instrs) && !ended; i++ {
			ins := it.b.Instrs[i]
			if ins == from && st.held && !st.deferred {
				out.leaks = append(out.leaks, ins.Pos())
				ended = true
				break
			}
			if ins == from {
				// opened again: that is another one
				ended = true
				break
			}
			switch ins := ins.(type) {
			case *ssa.Phi:
			case *ssa.Store:
				t := a.tagOf(st, ins.Val)
				switch ad := ins.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					if t == tNone {
						delete(st.mem, ad)
					} else {
						st.mem[ad] = t
					}
				default:
					if t == tRes || t == tBody || t == tCloser {
						out.unsure = "kept in a data structure"
					}
				}
			case *ssa.UnOp:
				switch ins.Op {
				case token.MUL:
					t := a.tagOf(st, ins.X)
					switch {
					case t == tBodyAt:
						a.set(st, ins, tBody)
					case st.mem[ins.X] != tNone:
						a.set(st, ins, st.mem[ins.X])
					}
				case token.ARROW:
				}
			case *ssa.FieldAddr:
				if a.tagOf(st, ins.X) == tRes && fieldName(ins.X.Type(), ins.Field) == "Body" {
					a.set(st, ins, tBodyAt)
				}
			case *ssa.Field:
				if a.tagOf(st, ins.X) == tRes && fieldName(ins.X.Type(), ins.Field) == "Body" {
					a.set(st, ins, tBody)
				}
			case *ssa.MakeInterface:
				a.set(st, ins, a.tagOf(st, ins.X))
			case *ssa.ChangeInterface:
				a.set(st, ins, a.tagOf(st, ins.X))
			case *ssa.ChangeType:
				a.set(st, ins, a.tagOf(st, ins.X))
			case *ssa.Convert:
				a.set(st, ins, a.tagOf(st, ins.X))
			case *ssa.TypeAssert:
				a.set(st, ins, a.tagOf(st, ins.X))
			case *ssa.Extract:
				if t := a.tagOf(st, ins.Tuple); t != tNone && ins.Index == 0 {
					if _, ok := ins.Tuple.(*ssa.TypeAssert); ok {
						a.set(st, ins, t)
					}
				}
			case *ssa.MakeClosure:
				if f, ok := ins.Fn.(*ssa.Function); ok && strings.HasSuffix(f.Name(), "Close$bound") {
					if t := a.tagOf(st, ins.Bindings[0]); t == tRes || t == tBody {
						a.set(st, ins, tCloser)
					}
				}
			case *ssa.Send:
				if t := a.tagOf(st, ins.X); t == tRes || t == tBody {
					out.unsure = "sent to another goroutine"
				}
			case *ssa.MapUpdate:
				if t := a.tagOf(st, ins.Value); t == tRes || t == tBody {
					out.unsure = "kept in a data structure"
				}
			case *ssa.Call:
				if a.call(out, st, &ins.Call, ins) {
					ended = true
				}
			case *ssa.Defer:
				if mc, ok := ins.Call.Value.(*ssa.MakeClosure); ok && st.tags[mc] != tCloser {
					st.runs = append(st.runs, mc)
					// arguments are evaluated now
					s2 := st.clone()
					if a.any(s2, ins.Call.Args) {
						held := s2.held
						a.call(out, s2, &ins.Call, nil)
						if held && !s2.held {
							st.deferred = true
						}
					}
					break
				}
				s2 := st.clone()
				held := s2.held
				a.call(out, s2, &ins.Call, nil)
				if held && !s2.held {
					st.deferred = true
				}
			case *ssa.Go:
				if a.any(st, ins.Call.Args) || a.tagOf(st, ins.Call.Value) != tNone {
					if closes(&ins.Call) || a.tagOf(st, ins.Call.Value) == tCloser {
						// nothing waits for it to have been closed
						break
					}
					out.unsure = "handed to another goroutine"
				}
				if mc, ok := ins.Call.Value.(*ssa.MakeClosure); ok && a.captures(st, mc) {
					out.unsure = "handed to another goroutine"
				}
			case *ssa.Panic:
				ended = true
			case *ssa.Return:
				ended = true
				if !st.held || st.deferred {
					out.exits++
					out.closedAt++
					break
				}
				given := false
				for j, r := range ins.Results {
					switch a.tagOf(st, r) {
					case tRes, tBody, tCloser:
						out.returned[j] = true
						given = true
					}
					if mc, ok := r.(*ssa.MakeClosure); ok && a.captures(st, mc) {
						out.unsure = "handed to the caller in a closure"
						given = true
					}
				}
				if given {
					out.exits++
					break
				}
				// deferred closures run now
				s2 := st.clone()
				for k := len(st.runs) - 1; k >= 0; k-- {
					a.closure(out, s2, st.runs[k])
				}
				out.exits++
				if !s2.held {
					out.closedAt++
					break
				}
				out.leaks = append(out.leaks, ins.Pos())
			case *ssa.If:
				ended = true
				for k, val := range []bool{true, false} {
					s2 := st.clone()
					if a.assume(s2, ins.Cond, val) {
						todo = append(todo, item{it.b.Succs[k], 0, it.b, s2})
					}
				}
			case *ssa.Jump:
				ended = true
				todo = append(todo, item{it.b.Succs[0], 0, it.b, st})
			}
			if out.unsure != "" {
				break
			}
			if !ended && (!st.held || st.deferred) {
				out.exits++
				out.closedAt++
				ended = true
			}
		}
	}
	return out
}

func predOf(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return ""
}

func (a *closeAnalysis) set(st *closeState, v ssa.Value, t tag) {
	if t == tNone {
		delete(st.tags, v)
	} else {
		st.tags[v] = t
	}
}

func (a *closeAnalysis) tagOf(st *closeState, v ssa.Value) tag { return st.tags[v] }

func (a *closeAnalysis) any(st *closeState, vs []ssa.Value) bool {
	for _, v := range vs {
		if t := st.tags[v]; t == tRes || t == tBody || t == tCloser {
			return true
		}
	}
	return false
}

func (a *closeAnalysis) captures(st *closeState, mc *ssa.MakeClosure) bool {
	for _, b := range mc.Bindings {
		if t := st.tags[b]; t == tRes || t == tBody || t == tCloser {
			return true
		}
		if t := st.mem[b]; t == tRes || t == tBody || t == tCloser {
			return true
		}
	}
	return false
}

// assume that a condition has a value; false if it cannot
func (a *closeAnalysis) assume(st *closeState, cond ssa.Value, val bool) bool {
	if v, ok := st.took[cond]; ok && v != val {
		return false
	}
	st.took[cond] = val
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.assume(st, x.X, !val)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return true
		}
		v := x.X
		if isNilConst(v) {
			v = x.Y
		} else if !isNilConst(x.Y) {
			return true
		}
		isNil := (x.Op == token.EQL) == val
		switch st.tags[v] {
		case tErr:
			return isNil // with an error there is nothing to close
		case tRes, tBody, tCloser:
			return !isNil
		}
	case *ssa.Call:
		switch calleeName(&x.Call) {
		case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission":
			if len(x.Call.Args) > 0 && st.tags[x.Call.Args[0]] == tErr && val {
				return false
			}
		}
	}
	return true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func closes(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Close"
	}
	f := c.StaticCallee()
	return f != nil && f.Name() == "Close" && f.Signature.Recv() != nil
}

// call: true if it does not return
func (a *closeAnalysis) call(out *closeOutcome, st *closeState, c *ssa.CallCommon, v ssa.Value) bool {
	name := calleeName(c)
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		return true
	}
	if c.IsInvoke() {
		if c.Method.Name() == "Close" && (st.tags[c.Value] == tRes || st.tags[c.Value] == tBody) {
			st.held = false
		}
		return false
	}
	if st.tags[c.Value] == tCloser {
		st.held = false
		return false
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		a.closureWith(out, st, mc, c.Args)
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		for _, g := range c.Args {
			if mc, ok := g.(*ssa.MakeClosure); ok && a.captures(st, mc) && a.mayClose(st, mc) {
				out.unsure = "closed by a closure that is called elsewhere"
			}
		}
		return false
	}
	if len(c.Args) > 0 && f.Name() == "Close" && f.Signature.Recv() != nil && (st.tags[c.Args[0]] == tRes || st.tags[c.Args[0]] == tBody) {
		if !inModule(f) {
			st.held = false
			return false
		}
	}
	if !inModule(f) {
		for _, g := range c.Args {
			if mc, ok := g.(*ssa.MakeClosure); ok && a.captures(st, mc) && a.mayClose(st, mc) {
				out.unsure = "closed by a closure that is called elsewhere"
			}
		}
		// a wrapper that closes what it wraps
		if v != nil && a.any(st, c.Args) {
			if sig := f.Signature; sig.Results().Len() >= 1 && hasClose(sig.Results().At(0).Type()) && name != "io.NopCloser" {
				if _, opens := openers[name]; !opens {
					st.tags[v] = tRes
				}
			}
		}
		return false
	}
	if !a.any(st, c.Args) {
		caps := false
		for _, g := range c.Args {
			if mc, ok := g.(*ssa.MakeClosure); ok && a.captures(st, mc) && a.mayClose(st, mc) {
				caps = true
			}
		}
		if caps {
			out.unsure = "closed by a closure that is called elsewhere"
		}
		return false
	}
	// into the function
	s2 := &closeState{held: st.held, tags: map[ssa.Value]tag{}, mem: map[ssa.Value]tag{}, took: map[ssa.Value]bool{}}
	for i, p := range f.Params {
		if i < len(c.Args) && st.tags[c.Args[i]] != tNone {
			s2.tags[p] = st.tags[c.Args[i]]
		}
	}
	r := a.follow(f, nil, s2)
	if r.unsure != "" {
		out.unsure = r.unsure
		return false
	}
	if r.exits > 0 && r.closedAt == r.exits {
		st.held = false
		return false
	}
	if len(r.returned) > 0 && v != nil {
		// comes back in a result
		for j := range r.returned {
			if f.Signature.Results().Len() == 1 {
				st.tags[v] = tRes
				continue
			}
			for _, ref := range *v.Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == j {
					st.tags[e] = tRes
				}
			}
		}
	}
	return false
}

func hasClose(t types.Type) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if obj, _, _ := types.LookupFieldOrMethod(x, true, nil, "Close"); obj != nil {
			return true
		}
	}
	return false
}

func (a *closeAnalysis) mayClose(st *closeState, mc *ssa.MakeClosure) bool {
	out := &closeOutcome{returned: map[int]bool{}}
	s2 := st.clone()
	a.closure(out, s2, mc)
	return !s2.held || out.unsure != ""
}

func (a *closeAnalysis) closure(out *closeOutcome, st *closeState, mc *ssa.MakeClosure) {
	a.closureWith(out, st, mc, nil)
}

func (a *closeAnalysis) closureWith(out *closeOutcome, st *closeState, mc *ssa.MakeClosure, args []ssa.Value) {
	f, ok := mc.Fn.(*ssa.Function)
	if !ok || len(f.Blocks) == 0 {
		return
	}
	s2 := &closeState{held: st.held, tags: map[ssa.Value]tag{}, mem: map[ssa.Value]tag{}, took: map[ssa.Value]bool{}}
	for i, fv := range f.FreeVars {
		b := mc.Bindings[i]
		if st.tags[b] != tNone {
			s2.tags[fv] = st.tags[b]
		}
		if st.mem[b] != tNone {
			s2.mem[fv] = st.mem[b]
		}
	}
	for i, p := range f.Params {
		if i < len(args) && st.tags[args[i]] != tNone {
			s2.tags[p] = st.tags[args[i]]
		}
	}
	if len(s2.tags)+len(s2.mem) == 0 {
		return
	}
	r := a.follow(f, nil, s2)
	if r.unsure != "" {
		out.unsure = r.unsure
		return
	}
	if r.exits > 0 && r.closedAt == r.exits {
		st.held = false
	}
}

// passClosing: everything that is opened is closed
func passClosing(c *checker) []finding {
	a := &closeAnalysis{c: c, cond: map[*ssa.Function]opener{}}
	fns := c.moduleFuncs()
	var out []finding
	done := map[ssa.Instruction]bool{}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok || done[ins] {
						continue
					}
					o, ok := a.opens(call.Common())
					if !ok {
						continue
					}
					done[ins] = true
					where := c.pos(ins.Pos()) + " in " + shortName(fn)
					ob := map[string]any{"opens": calleeName(call.Common()), "at": where}
					c.obligations = append(c.obligations, ob)
					v, isVal := ins.(ssa.Value)
					if !isVal {
						// go or defer: nobody can close it
						ob["outcome"] = "never closed"
						out = append(out, finding{where: where, what: "the " + o.what + " opened here is never closed"})
						continue
					}
					st := &closeState{held: true, tags: map[ssa.Value]tag{}, mem: map[ssa.Value]tag{}, took: map[ssa.Value]bool{}}
					if tup, ok := v.Type().(*types.Tuple); ok && tup.Len() > 1 {
						for _, ref := range *v.Referrers() {
							if e, ok := ref.(*ssa.Extract); ok {
								switch e.Index {
								case o.res:
									st.tags[e] = tRes
								case o.err:
									st.tags[e] = tErr
								}
							}
						}
					} else {
						st.tags[v] = tRes
					}
					r := a.follow(fn, ins, st)
					ob["paths"], ob["exits"] = r.paths, r.exits
					switch {
					case r.unsure != "":
						ob["outcome"] = "undecided: " + r.unsure
						c.undecided = append(c.undecided, where+": "+r.unsure)
					case len(r.leaks) > 0:
						ob["outcome"] = "leaks"
						var at []string
						for _, p := range r.leaks {
							if p.IsValid() {
								at = append(at, c.pos(p))
							}
						}
						what := "the " + o.what + " opened here is still open when the function returns"
						if len(at) > 0 {
							what += " at " + strings.Join(uniq(at), ", ")
						}
						out = append(out, finding{where: where, what: what})
					default:
						ob["outcome"] = "holds"
					}
					if len(r.returned) > 0 {
						res := fn.Signature.Results()
						n := opener{res: -1, err: -1, what: o.what}
						for j := range r.returned {
							if n.res < 0 || j < n.res {
								n.res = j
							}
						}
						if l := res.Len() - 1; l > n.res && isErrorIface(res.At(l).Type()) {
							n.err = l
						}
						if _, ok := a.cond[fn]; !ok {
							a.cond[fn] = n
							again = true
						}
					}
				}
			}
		}
	}
	return out
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}
