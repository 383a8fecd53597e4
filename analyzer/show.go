package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// show prints a value for reports
func show(n *Node) string { return showD(n, 0) }

func showD(n *Node, d int) string {
	if n == nil {
		return "<nil>"
	}
	if n.leaf != nil {
		return showT(n.leaf, d)
	}
	if d > 14 {
		return "…"
	}
	if isBoolean(n) {
		return showBool(n, d)
	}
	return "(" + showT(n.atom, d+1) + " ? " + showD(n.hi, d+1) + " : " + showD(n.lo, d+1) + ")"
}

func isBoolean(n *Node) bool {
	for _, l := range leavesOf(n) {
		if l != termTrue && l != termFalse {
			return false
		}
	}
	return true
}

func showBool(n *Node, d int) string {
	if n == T {
		return "true"
	}
	if n == F {
		return "false"
	}
	a := showT(n.atom, d+1)
	switch {
	case n.hi == T && n.lo == F:
		return a
	case n.hi == F && n.lo == T:
		return "!" + a
	case n.lo == F:
		return a + " && " + paren(showBool(n.hi, d+1))
	case n.hi == F:
		return "!" + a + " && " + paren(showBool(n.lo, d+1))
	case n.hi == T:
		return a + " || " + paren(showBool(n.lo, d+1))
	case n.lo == T:
		return "!" + a + " || " + paren(showBool(n.hi, d+1))
	}
	return "(" + a + " ? " + showBool(n.hi, d+1) + " : " + showBool(n.lo, d+1) + ")"
}

func paren(s string) string {
	if strings.ContainsAny(s, " ") {
		return "(" + s + ")"
	}
	return s
}

func showArgs(as []*Node, d int) string {
	var ss []string
	for _, a := range as {
		ss = append(ss, showD(a, d+1))
	}
	return strings.Join(ss, ", ")
}

func showT(t *Term, d int) string {
	if d > 18 {
		return "…"
	}
	switch t.op {
	case "c":
		if strings.HasPrefix(t.s, "s:") {
			return fmt.Sprintf("%q", t.s[2:])
		}
		if i := strings.IndexByte(t.s, ':'); i >= 0 {
			return t.s[i+1:]
		}
		return t.s
	case "bot":
		return "⊥"
	case "struct":
		var ss []string
		for i, k := range structKeys(t) {
			ss = append(ss, k+": "+showD(t.args[i], d+1))
		}
		return "{" + strings.Join(ss, ", ") + "}"
	case "field":
		return showD(t.args[0], d+1) + "." + t.s
	case "eq", "eq2":
		return showD(t.args[0], d+1) + "==" + showD(t.args[1], d+1)
	case "lt":
		return showD(t.args[0], d+1) + "<" + t.s
	case "slt":
		return showD(t.args[0], d+1) + "<" + showD(t.args[1], d+1)
	case "len":
		return "len(" + showD(t.args[0], d+1) + ")"
	case "seq":
		return "[" + showArgs(t.args, d) + "]"
	case "cat":
		return "cat(" + showArgs(t.args, d) + ")"
	case "scat":
		var ss []string
		for _, a := range t.args {
			ss = append(ss, showD(a, d+1))
		}
		return strings.Join(ss, "+")
	case "el", "ix", "key", "sa", "sb", "lv":
		return t.op + t.s
	case "comp":
		return fmt.Sprintf("for %%%d in %s: %s", binderHeight(t), showD(t.args[0], d+1), showD(t.args[1], d+1))
	case "exists":
		return fmt.Sprintf("∃%%%d in %s: (%s)", binderHeight(t), showD(t.args[0], d+1), showD(t.args[1], d+1))
	case "bcall":
		return strings.TrimPrefix(t.s, "call:") + "(" + showArgs(t.args, d) + ")"
	case "call":
		return t.s + "(" + showArgs(t.args, d) + ")"
	case "index":
		return showD(t.args[0], d+1) + "[" + showD(t.args[1], d+1) + "]"
	}
	s := t.op
	if t.s != "" {
		s += "‹" + strings.SplitN(t.s, "/", 2)[0] + "›"
	}
	if len(t.args) == 0 {
		return s
	}
	return s + "(" + showArgs(t.args, d) + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// apart lists the innermost places where two forms differ
func apart(x, y *Node, max int) (out []string) {
	seen := map[[2]*Node]bool{}
	var rn func(x, y *Node, path string)
	var rt func(x, y *Term, path string)
	rt = func(x, y *Term, path string) {
		if x == y || len(out) >= max {
			return
		}
		if x.op != y.op || x.s != y.s || len(x.args) != len(y.args) {
			out = append(out, fmt.Sprintf("at %s\n     A %.700s\n     B %.700s", path, showT(x, 0), showT(y, 0)))
			return
		}
		for i := range x.args {
			rn(x.args[i], y.args[i], path+"/"+x.op+strconv.Itoa(i))
		}
	}
	rn = func(x, y *Node, path string) {
		if x == y || seen[[2]*Node{x, y}] || len(out) >= max {
			return
		}
		seen[[2]*Node{x, y}] = true
		if x.leaf != nil && y.leaf != nil {
			rt(x.leaf, y.leaf, path)
			return
		}
		if x.leaf == nil && y.leaf == nil {
			if x.atom == y.atom {
				rn(x.hi, y.hi, path+"+")
				rn(x.lo, y.lo, path+"-")
				return
			}
			if x.atom.op == y.atom.op && x.atom.s == y.atom.s && len(x.atom.args) == len(y.atom.args) {
				rt(x.atom, y.atom, path+"?")
				return
			}
		}
		out = append(out, fmt.Sprintf("at %s\n     A %.700s\n     B %.700s", path, show(x), show(y)))
	}
	rn(x, y, "")
	return out
}
