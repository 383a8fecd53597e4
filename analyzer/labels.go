package main

import (
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C22: ecosystems of packages ----

var labelKeys = []string{"ecosystem,omitempty", "compareAs,omitempty"}

// labelsOf: what the packages in a value graph are labelled with
func labelsOf(n *Node) map[string]bool {
	out := map[string]bool{}
	seenN, seenT := map[*Node]bool{}, map[*Term]bool{}
	var walk func(n *Node)
	var term func(t *Term)
	term = func(t *Term) {
		if t == nil || seenT[t] {
			return
		}
		seenT[t] = true
		if t.op == "struct" {
			ks := structKeys(t)
			for i, k := range ks {
				for _, l := range labelKeys {
					if k != l {
						continue
					}
					for _, v := range leavesOf(t.args[i]) {
						if v.op != "bot" {
							out[k+"="+show(leafOf(v))] = true
						}
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk = func(n *Node) {
		if n == nil || seenN[n] {
			return
		}
		seenN[n] = true
		term(n.leaf)
		term(n.atom)
		walk(n.hi)
		walk(n.lo)
	}
	walk(n)
	return out
}

// onLabels: differences in what packages are labelled with
func onLabels(c *checker, pi *pairInfo, df diff) bool {
	if !strings.HasPrefix(pi.name, "pkg/lockfile.Parse") || df.gotN == nil || df.wantN == nil {
		return true
	}
	a, b := labelsOf(df.gotN), labelsOf(df.wantN)
	if len(a) != len(b) {
		return true
	}
	for k := range a {
		if !b[k] {
			return true
		}
	}
	return false
}

type labelStore struct {
	field string
	where ssa.Instruction
	val   ssa.Value
}

// labelFlow: what is put into the label fields of packages below a parser
type labelFlow struct {
	c    *checker
	seen map[*ssa.Function]*hop
}

func isPackageDetails(v ssa.Value) (string, bool) {
	t, st := structIn(v.Type())
	if st == nil {
		return "", false
	}
	return "", strings.HasSuffix(t.String(), "/lockfile.PackageDetails")
}

func (f *labelFlow) fns() (out []*ssa.Function) {
	for fn := range f.seen {
		if len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

func (f *labelFlow) stores() (out []labelStore, bare []*ssa.Alloc) {
	for _, fn := range f.fns() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, ok := isPackageDetails(fa.X); !ok {
						continue
					}
					_, st := structIn(fa.X.Type())
					if n := st.Field(fa.Field).Name(); n == "Ecosystem" || n == "CompareAs" {
						out = append(out, labelStore{n, x, x.Val})
					}
				case *ssa.Alloc:
					if _, ok := isPackageDetails(x); ok {
						bare = append(bare, x)
					}
				}
			}
		}
	}
	return
}

// constants: the constants a value may be; ok if that is all it may be
func (f *labelFlow) constants(v ssa.Value, seen map[ssa.Value]bool, out map[string]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			out[constant.StringVal(x.Value)] = true
			return true
		}
	case *ssa.ChangeType:
		return f.constants(x.X, seen, out)
	case *ssa.Convert:
		return f.constants(x.X, seen, out)
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			ok = f.constants(e, seen, out) && ok
		}
		return ok
	case *ssa.Parameter:
		fn := x.Parent()
		i, n := paramNo(fn, x), 0
		ok := true
		for _, s := range f.c.sites(fn) {
			if f.seen[s.Parent()] == nil {
				continue
			}
			n++
			ok = i < len(s.Common().Args) && f.constants(s.Common().Args[i], seen, out) && ok
		}
		return ok && n > 0
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			// copied from another package: what that is labelled with is looked at too
			if _, ok := isPackageDetails(a.X); ok {
				return true
			}
		case *ssa.Alloc:
			ok := true
			for _, r := range *a.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(a) {
					ok = f.constants(st.Val, seen, out) && ok
				}
			}
			return ok
		}
	case *ssa.Field:
		if _, ok := isPackageDetails(x.X); ok {
			return true
		}
	}
	return false
}

// leftOut: a package that is given a name or version, but not this label
func leftOut(al *ssa.Alloc, label string) bool {
	named := false
	_, st := structIn(al.Type())
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					switch st.Field(x.Field).Name() {
					case label:
						return false
					case "Name":
						named = true
					}
				} else if _, ok := u.(*ssa.UnOp); !ok {
					return false // the field itself is handed on
				}
			}
		case *ssa.UnOp:
			// copied into a variable: filled there
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok {
					if to, ok := s.Addr.(*ssa.Alloc); !ok || !neverLabelled(to, label) {
						return false
					}
				}
			}
		case *ssa.DebugRef:
		default:
			return false // filled elsewhere
		}
	}
	return named
}

func neverLabelled(al *ssa.Alloc, label string) bool {
	_, st := structIn(al.Type())
	if st == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if st.Field(x.Field).Name() == label {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func passLabels(c *checker) []finding {
	var out []finding
	n := 0
	done := map[string]bool{}
	for _, name := range parserNames {
		pi := c.pr.m["pkg/lockfile."+name]
		if pi == nil || pi.repo == nil || pi.spec == nil {
			continue
		}
		want := map[string]bool{}
		ref := &labelFlow{c, c.reach([]*ssa.Function{pi.spec}, nil)}
		rs, _ := ref.stores()
		for _, s := range rs {
			ref.constants(s.val, map[ssa.Value]bool{}, want)
		}
		got := &labelFlow{c, c.reach([]*ssa.Function{pi.repo}, nil)}
		ss, allocs := got.stores()
		report := func(at ssa.Instruction, what string) {
			where := c.pos(at.Pos()) + " in " + shortName(at.Parent())
			if !done[where+what] {
				done[where+what] = true
				out = append(out, finding{where: where, what: what, given: name})
			}
		}
		for _, s := range ss {
			n++
			cs := map[string]bool{}
			ok := got.constants(s.val, map[ssa.Value]bool{}, cs)
			ob := map[string]any{"parser": name, "field": s.field, "at": c.pos(s.where.Pos()), "rule": "only the format's ecosystem is stored", "outcome": "holds"}
			c.obligations = append(c.obligations, ob)
			bad := ""
			for k := range cs {
				if !want[k] {
					bad = k
				}
			}
			switch {
			case pi.status == pairEqual:
				ob["by"] = "comparison"
			case bad != "" || cs[""]:
				ob["outcome"] = "violated"
				report(s.where, name+": "+s.field+" of a package may be \""+bad+"\"")
			case !ok:
				ob["outcome"] = "undecided"
			}
		}
		for _, al := range allocs {
			for _, l := range []string{"Ecosystem", "CompareAs"} {
				n++
				if pi.status != pairEqual && leftOut(al, l) {
					report(al, name+": a package is made without "+l)
				}
			}
		}
	}
	c.info["label_sites"] = n
	return out
}
