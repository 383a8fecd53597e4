package main

// A recursive call is an uninterpreted function of its arguments. How much it
// may change is found by a small effect analysis of the function's body, and
// its value for a nil argument by evaluating the function on it.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pureExternals = []string{"strings.", "path.", "path/filepath.", "strconv.", "unicode.", "slices.Contains", "slices.Index", "slices.Clone", "slices.Concat",
	"maps.Keys", "maps.Values", "regexp.", "(*regexp.Regexp).", "net/url.", "(*net/url.URL).", "(net/url.Values).Get", "(net/url.Values).Has", "fmt.Sprint", "fmt.Errorf", "errors.", "cmp."}

// recPure: fn changes nothing but what it makes itself, and has no effects
func (ev *evaluator) recPure(fn *ssa.Function) bool {
	if v, ok := ev.pure[fn]; ok {
		return v
	}
	if ev.pure == nil {
		ev.pure = map[*ssa.Function]bool{}
	}
	ev.pure[fn] = true // while it is being looked at
	r := ev.recPure0(fn)
	if traceEval {
		fmt.Println("PURE", fullName(fn), r)
	}
	ev.pure[fn] = r
	return r
}

func (ev *evaluator) recPure0(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 {
		return false
	}
	if strings.HasSuffix(fullName(fn), "/internal/cachedregexp.MustCompile") {
		return true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !ownValue(x.Addr, map[ssa.Value]bool{}) {
					return false
				}
			case *ssa.MapUpdate:
				if !ownValue(x.Map, map[ssa.Value]bool{}) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.RunDefers, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if !ev.pureCall(&x.Call) {
					return false
				}
			}
		}
	}
	return true
}

func (ev *evaluator) pureCall(c *ssa.CallCommon) bool {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap", "append", "min", "max":
			return true
		}
		return false
	}
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	if inModule(fn) {
		return ev.recPure(fn)
	}
	name := fn.String()
	if strings.HasPrefix(name, "maps.Copy") {
		return ownValue(c.Args[0], map[ssa.Value]bool{})
	}
	for _, p := range pureExternals {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// ownValue: made by the function itself, or handed to it as a result
func ownValue(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownValue(e, seen) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return ownValue(x.X, seen)
	case *ssa.IndexAddr:
		return ownValue(x.X, seen)
	case *ssa.Slice:
		return ownValue(x.X, seen)
	case *ssa.ChangeType:
		return ownValue(x.X, seen)
	}
	return false
}

// nilBase: what fn gives for a nil argument, where that needs no recursion
func (ev *evaluator) nilBase(fn *ssa.Function) []*Node {
	if r, ok := ev.nilBases[fn]; ok {
		return r
	}
	if ev.nilBases == nil {
		ev.nilBases = map[*ssa.Function][]*Node{}
	}
	ev.nilBases[fn] = nil
	if fn.Signature.Params().Len() != 1 || fn.Signature.Recv() != nil {
		return nil
	}
	switch fn.Params[0].Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return nil
	}
	if ev.inNilBase {
		return nil
	}
	ev.inNilBase = true
	stack := ev.stack
	ev.stack = nil
	defer func() { ev.inNilBase, ev.stack = false, stack }()
	res, st := ev.callFn(fn, []*Node{Nil}, nil, &state{mem: map[*Term]*Node{}}, nil, "nilbase")
	out := make([]*Node, len(res))
	for i, r := range res {
		out[i] = ev.snapshot(st, r)
		// the value has to be one that needs no recursion
		for _, t := range leavesOf(out[i]) {
			if out[i].leaf == nil || t.op != "mapof" && t.op != "c" && t.op != "seq" || len(t.args) > 0 && t.args[0] != emptySeq {
				return nil
			}
		}
	}
	ev.nilBases[fn] = out
	return out
}
