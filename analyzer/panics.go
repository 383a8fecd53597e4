package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C21: crashes ----
//
// In this mode the evaluator keeps, next to the values, the condition under
// which a run-time check fails (index, slice bounds, nil, type, division) or
// the code aborts deliberately. It is a boolean that a path only ever sets, so
// it has a normal form like any other value.

var panicCell = func() *Term { return mkTerm("pn", "panic", nil, nil) }

// fails: the program crashes here if cond holds
func (ev *evaluator) fails(st *state, cond *Node) {
	if !ev.panics || cond == F || cond == Bot {
		return
	}
	if os.Getenv("TRACEFAIL") != "" {
		fmt.Printf("FAIL %.300s\n", show(cond))
	}
	cond = isTrue(cond)
	k := panicCell()
	ev.cellTyp[k] = tBool
	old, ok := st.mem[k]
	if !ok {
		old = F
	}
	if old == T {
		return
	}
	st.mem[k] = or(old, cond)
}

// outOfRange: an index is not one of a sequence or string
func outOfRange(i, n *Node) *Node {
	return or(ltConst(i, 0), not(intLess(i, n)))
}

// mayBeNil: under which condition a pointer is nil
func (ev *evaluator) mayBeNil(v *Node) *Node {
	return condOf(v, func(t *Term) bool { return t == Nil.leaf }).orNil(v)
}

func (n *Node) orNil(v *Node) *Node {
	out := n
	for _, t := range leavesOf(v) {
		if t == Nil.leaf || t.op == "bot" || knownNonNil(t) || !nilSource(t) {
			continue
		}
		t := t
		g := T
		if v.leaf == nil {
			g = condOf(v, func(x *Term) bool { return x == t })
		}
		out = or(out, and(g, eqNode(leafOf(t), Nil)))
	}
	return out
}

// ofResponse: what the client documents to be there in every response
func ofResponse(t *Term) bool {
	for len(t.args) > 0 && t.args[0].leaf != nil {
		switch t.s {
		case "Request", "Body", "Header", "URL":
		default:
			return false
		}
		t = t.args[0].leaf
		if t.op == "call" {
			return t.s == "http.Do#0"
		}
	}
	return false
}

// nilSource: pointers that may well be nil: what was decoded or looked up, or
// what a function of the module returns
func nilSource(t *Term) bool {
	if ofResponse(t) {
		return false
	}
	switch t.op {
	case "param", "fa", "ia", "ea", "var", "sc", "mc":
		return false
	case "call":
		return !strings.Contains(t.s, "/") == false && strings.HasPrefix(t.s, "pkg/") || strings.HasPrefix(t.s, "internal/") || strings.HasPrefix(t.s, "(*pkg/") || strings.HasPrefix(t.s, "(pkg/")
	}
	return true
}

func (fr *frame) panicChecks(ins ssa.Instruction, st *state) {
	ev := fr.ev
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			ev.fails(st, ev.mayBeNil(fr.get(st, x.X)))
		}
	case *ssa.FieldAddr:
		ev.fails(st, ev.mayBeNil(fr.get(st, x.X)))
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.Alloc); !ok {
			ev.fails(st, ev.mayBeNil(fr.get(st, x.Addr)))
		}
	case *ssa.Index:
		if isStringType(x.X.Type()) {
			ev.fails(st, outOfRange(fr.get(st, x.Index), lenOf(fr.get(st, x.X), "str")))
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			ev.fails(st, outOfRange(fr.get(st, x.Index), lenOf(fr.get(st, x.X), "str")))
		}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			s, i := fr.get(st, x.X), fr.get(st, x.Index)
			if ev.fromLoop(st, s, i) {
				return
			}
			ev.fails(st, outOfRange(i, ev.sliceLen(st, s)))
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return
		}
		var n *Node
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			n = ev.sliceLen(st, fr.get(st, x.X))
		case *types.Basic:
			n = lenOf(fr.get(st, x.X), "str")
		default:
			_ = u
			return
		}
		lo, hi := Int(0), n
		if x.Low != nil {
			lo = fr.get(st, x.Low)
			ev.fails(st, ltConst(lo, 0))
		}
		if x.High != nil {
			hi = fr.get(st, x.High)
			ev.fails(st, intLess(n, hi))
		}
		ev.fails(st, intLess(hi, lo))
	case *ssa.MapUpdate:
		ev.fails(st, ev.mayBeNil(fr.get(st, x.Map)))
	case *ssa.BinOp:
		switch x.Op.String() {
		case "/", "%":
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ev.fails(st, eqNode(fr.get(st, x.Y), Int(0)))
			}
		}
	case *ssa.MakeSlice:
		ev.fails(st, ltConst(fr.get(st, x.Len), 0))
	case *ssa.TypeAssert:
		if !x.CommaOk {
			ev.fails(st, not(fr.isOf(st, x)))
		}
	case *ssa.Call:
		if x.Call.IsInvoke() {
			ev.fails(st, ev.mayBeNil(fr.get(st, x.Call.Value)))
		}
	}
}

// fromLoop: the index of the loop that goes through the slice
func (ev *evaluator) fromLoop(st *state, s, i *Node) bool {
	if i.leaf == nil || i.leaf.op != "ix" {
		return false
	}
	n, _ := varName(i.leaf.s)
	if n <= 0 || loopDom[n] == nil {
		return false
	}
	return loopDom[n] == ev.content(st, s) || lenOf(loopDom[n], "seq") == ev.sliceLen(st, s)
}

// sliceLen is the length of a slice: storing to its elements leaves it as it
// was made.
func (ev *evaluator) sliceLen(st *state, s *Node) *Node {
	return apply1(s, func(t *Term) *Node {
		if t.op == "mks" {
			return t.args[0]
		}
		k := mkTerm("sc", "", []*Node{leafOf(t)}, nil)
		for _, le := range ev.loops {
			if r := le.byKey[k]; r != nil && r.init != nil {
				return lenOf(r.init, "seq")
			}
		}
		return lenOf(ev.content(st, leafOf(t)), "seq")
	})
}

func (fr *frame) isOf(st *state, x *ssa.TypeAssert) *Node {
	v := fr.get(st, x.X)
	return apply1(v, func(t *Term) *Node {
		if t == Nil.leaf {
			return F
		}
		if dt := fr.ev.dynType(t); dt != nil {
			if i, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				return Bool(types.Implements(dt, i))
			}
			return Bool(types.Identical(dt, x.AssertedType) || typeKey(dt) == typeKey(x.AssertedType))
		}
		if types.IsInterface(x.AssertedType) {
			return atomNode(mkTerm("is", typeKey(x.AssertedType), []*Node{leafOf(t)}, nil))
		}
		return typeIs(leafOf(t), typeKey(x.AssertedType))
	})
}

// worse: the condition under which one crashes and the other does not, if an
// interpretation shows there is one
func worse(got, want *Node) (*Node, bool) {
	x := and(got, not(want))
	if x == F {
		return F, false
	}
	_, found, st := distinguish(x, F, modelLimit(), 30_000_000)
	if os.Getenv("TRACEINTERP") != "" {
		fmt.Printf("WORSE found=%v models=%d failed=%d %.300s\n", found, st.models, st.failed, show(x))
	}
	return x, found
}

// ---- known findings ----

type knownFinding struct{ property, callee, under, what string }

// knownFindings: the entries of /verif/known-findings.txt that stand for defects
// that are not repaired
func knownFindings() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		var k knownFinding
		for _, f := range []struct {
			name string
			to   *string
		}{{"property=", &k.property}, {"callee=", &k.callee}, {"under=", &k.under}} {
			v, rest, _ := strings.Cut(l, " ")
			*f.to = strings.TrimPrefix(v, f.name)
			l = rest
		}
		k.what = l
		out = append(out, k)
	}
	return out
}

// passKnownCrashes: the listed crashes that the source still has
func passKnownCrashes(c *checker) []finding {
	var out []finding
	for _, k := range knownFindings() {
		pi := c.pr.m[k.under]
		if k.property != "C21" || pi == nil || pi.repo == nil {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var sites []string
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil && g.String() == k.callee {
							sites = append(sites, c.pos(ins.Pos()))
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
			for _, g := range callees(f) {
				walk(g)
			}
		}
		walk(pi.repo)
		sort.Strings(sites)
		if len(sites) > 0 {
			out = append(out, finding{known: k.what + " (" + k.callee + " at " + strings.Join(sites, ", ") + ", under " + k.under + ")"})
		}
	}
	return out
}

// canCrashLater: which differences of the error of a constructor let in values
// that other functions crash on
func canCrashLater(c *checker, pi *pairInfo, df diff) bool {
	if pi.name != "pkg/database.NewAPIDB" || !strings.HasPrefix(df.what, "error result") {
		return true
	}
	if df.gotN == nil || df.wantN == nil {
		return false
	}
	var size *Term
	for _, n := range []*Node{df.gotN, df.wantN} {
		anyTerm(n, func(t *Term) bool {
			if t.op == "param" && paramIndex(t.s) == 2 {
				size = t
			}
			return false
		})
	}
	if size == nil {
		return false
	}
	small := ltConst(leafOf(size), 1)
	_, yes := worse(and(eqNode(df.gotN, Nil), small), and(eqNode(df.wantN, Nil), small))
	return yes
}
