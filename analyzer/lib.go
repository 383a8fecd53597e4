package main

// Models of library functions.

import (
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr   *frame
	ev   *evaluator
	st   *state
	fn   *ssa.Function
	args []*Node
	site string
	name string
	sig  *types.Signature
}

type model = func(*callCtx) ([]*Node, bool)

var models map[string]model

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func one(f func(c *callCtx) *Node) model {
	return func(c *callCtx) ([]*Node, bool) { return []*Node{f(c)}, false }
}

func none(f func(c *callCtx)) model {
	return func(c *callCtx) ([]*Node, bool) { f(c); return nil, false }
}

func (c *callCtx) snap(i int) *Node { return c.ev.snapshot(c.st, c.args[i]) }

func (c *callCtx) call(i int, name string, typ types.Type, args ...*Node) *Node {
	return callTerm(name, i, args, typ)
}

func (c *callCtx) res(i int) types.Type {
	sig := c.sig
	if sig == nil && c.fn != nil {
		sig = c.fn.Signature
	}
	if sig == nil || sig.Results().Len() <= i {
		return nil
	}
	return sig.Results().At(i).Type()
}

// variadic gives the elements of a variadic argument
func (c *callCtx) variadic(i int) ([]*Node, bool) {
	a := c.ev.content(c.st, c.args[i])
	n := -1
	for _, t := range leavesOf(a) {
		if t.op == "bot" {
			continue
		}
		if isEmptySeq(t) && (n == -1 || n == 0) {
			n = 0
			continue
		}
		if t.op != "seq" || n >= 0 && len(t.args) != n {
			return nil, false
		}
		n = len(t.args)
	}
	if n < 0 {
		return nil, false
	}
	r := make([]*Node, n)
	for i := range r {
		i := i
		r[i] = mapLeaves(a, func(t *Term) *Node {
			if t.op == "bot" {
				return Bot
			}
			return t.args[i]
		})
	}
	return r, true
}

var errType = types.Universe.Lookup("error").Type()

func trimPrefix(s, p *Node) (*Node, *Node) {
	h := strTest("prefix", s, p)
	var rest *Node
	if k, ok := p.constStr(); ok {
		rest = dropOf(s, strconv.Itoa(len(k)))
	} else {
		rest = callTerm("strings.TrimPrefix", 0, []*Node{s, p}, tString)
	}
	return ite(h, rest, s), h
}

func trimSuffix(s, p *Node) (*Node, *Node) {
	h := strTest("suffix", s, p)
	rest := apply2(s, p, func(x, y *Term) *Node {
		xs, ok1 := leafOf(x).constStr()
		ys, ok2 := leafOf(y).constStr()
		if ok1 && ok2 {
			return Str(strings.TrimSuffix(xs, ys))
		}
		return opaque("chop", "", []*Node{leafOf(x), leafOf(y)}, tString)
	})
	return ite(h, rest, s), h
}

// opaqueErr: whether and how a library call fails
func (c *callCtx) errOf(name string, i int, args ...*Node) *Node {
	return callTerm(name, i, args, errType)
}

func pureStr1(name string, f func(string) string) {
	callFolders[name+"#0"] = func(args []*Node, typ types.Type) *Node {
		if s, ok := args[0].constStr(); ok {
			return Str(f(s))
		}
		if args[0].leaf == nil {
			return apply1(args[0], func(t *Term) *Node { return callTerm(name, 0, []*Node{leafOf(t)}, typ) })
		}
		if t := args[0].leaf; t.op == "call" && t.s == name+"#0" {
			return args[0] // idempotent
		}
		return nil
	}
}

func joinFolder(args []*Node, typ types.Type) *Node {
	if args[0].leaf == nil || args[1].leaf == nil {
		return apply2(args[0], args[1], func(a, b *Term) *Node {
			return callTerm("strings.Join", 0, []*Node{leafOf(a), leafOf(b)}, typ)
		})
	}
	t := args[0].leaf
	if isEmptySeq(t) {
		return Str("")
	}
	if t.op == "seq" {
		var parts []*Node
		for i, e := range t.args {
			if i > 0 {
				parts = append(parts, args[1])
			}
			parts = append(parts, e)
		}
		return concat(parts...)
	}
	if t.op == "slice" && t.s == "seq" {
		lo, ok1 := t.args[1].constInt()
		hi, ok2 := t.args[2].constInt()
		if ok1 && ok2 && hi >= lo && hi-lo <= 4 {
			var parts []*Node
			for k := lo; k < hi; k++ {
				if k > lo {
					parts = append(parts, args[1])
				}
				parts = append(parts, indexOf(t.args[0], Int(k), tString))
			}
			return concat(parts...)
		}
	}
	if sep, ok := args[1].constStr(); ok && sep == "" && t.op == "cat" {
		var parts []*Node
		for _, p := range t.args {
			parts = append(parts, callTerm("strings.Join", 0, []*Node{p, args[1]}, typ))
		}
		return concat(parts...)
	}
	return nil
}

// ---- formatting ----

func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// text of a value as %s / %v prints it
func (c *callCtx) text(v *Node, verb string) *Node {
	return apply1(v, func(t *Term) *Node {
		if s, ok := leafOf(t).constStr(); ok {
			return Str(s)
		}
		if k, ok := termInt(t); ok {
			return Str(strconv.FormatInt(k, 10))
		}
		if t == termTrue {
			return Str("true")
		}
		if t == termFalse {
			return Str("false")
		}
		switch t.op {
		case "scat", "cutb", "cuta", "drop", "chop", "line":
			return leafOf(t)
		case "len", "lin", "sum", "ix":
			return opaque("itoa", "", []*Node{leafOf(t)}, tString)
		}
		typ := t.typ
		if d := ifaceTyp[t]; d != nil {
			typ = d
		}
		if isStringType(typ) && !hasMethod(typ, "String") && !hasMethod(typ, "Error") {
			return leafOf(t)
		}
		if isIntType(typ) && !hasMethod(typ, "String") {
			return opaque("itoa", "", []*Node{leafOf(t)}, tString)
		}
		if typ != nil && types.Implements(typ, errType.Underlying().(*types.Interface)) || t.op == "err" {
			return opaque("errstr", "", []*Node{leafOf(t)}, tString)
		}
		return opaque("fmt", "%v", []*Node{c.ev.snapshot(c.st, leafOf(t))}, tString)
	})
}

func (c *callCtx) sprintf(format *Node, args []*Node) *Node {
	f, ok := format.constStr()
	if !ok {
		if len(args) == 0 {
			if format.leaf != nil {
				return opaque("fmtlit", "", []*Node{format}, tString)
			}
			return mapLeaves(format, func(t *Term) *Node { return c.sprintf(leafOf(t), args) })
		}
		if format.leaf == nil {
			return mapLeaves(format, func(t *Term) *Node { return c.sprintf(leafOf(t), args) })
		}
		return opaque("fmtdyn", "", append([]*Node{format}, args...), tString)
	}
	var parts []*Node
	lit := ""
	ai := 0
	flush := func() {
		if lit != "" {
			parts = append(parts, Str(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			lit += "%!" + verb[1:] + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		flush()
		switch verb {
		case "%s", "%v", "%d", "%w":
			parts = append(parts, c.text(a, verb))
		default:
			parts = append(parts, opaque("fmt", verb, []*Node{c.ev.snapshot(c.st, a)}, tString))
		}
	}
	flush()
	if ai < len(args) {
		parts = append(parts, Str("%!(EXTRA)"))
	}
	return concat(parts...)
}

func wrapped(format *Node, args []*Node) []*Node {
	f, ok := format.constStr()
	if !ok {
		return nil
	}
	var out []*Node
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		i = j
		if f[j] == '%' {
			continue
		}
		if f[j] == 'w' && ai < len(args) {
			out = append(out, args[ai])
		}
		ai++
	}
	return out
}

func errTerm(wrap []*Node) *Node {
	if len(wrap) == 0 {
		return leafOf(mkTerm("err", "", nil, nil))
	}
	return apply(wrap, func(ts []*Term) *Node {
		as := make([]*Node, len(ts))
		for i, t := range ts {
			as[i] = leafOf(t)
		}
		return leafOf(mkTerm("err", "", as, nil))
	})
}

// ---- decoding ----

// decode stores what decoding data gives in the target
func (c *callCtx) decode(kind string, data, target *Node) *Node {
	ev := c.ev
	for _, t := range leavesOf(target) {
		typ := ev.pointee(t)
		if typ == nil {
			if t.op == "bot" || t == Nil.leaf {
				continue
			}
			giveUp("decoding into an unknown target %s", showT(t, 0))
		}
		g := T
		if target.leaf == nil {
			t := t
			g = condOf(target, func(x *Term) bool { return x == t })
		}
		args := []*Node{data}
		old := ev.loadT(c.st, t, typ)
		if p, ok := typ.Underlying().(*types.Pointer); ok && old.leaf != nil && old.leaf.op == "obj" {
			// pointer to an existing object
			old2 := ev.loadT(c.st, old.leaf, p.Elem())
			if old2 != zeroOf(p.Elem()) {
				args = append(args, ev.snapshot(c.st, old2))
			}
		} else if old != zeroOf(typ) {
			args = append(args, ev.snapshot(c.st, old))
		}
		v := opaque("out", kind, args, typ)
		ev.storeT(c.st, t, v, typ, g)
	}
	return c.errOf("decode."+kind, 0, data, Str(c.targetShape(target)))
}

func (c *callCtx) targetShape(target *Node) string {
	return ""
}

// pointee is the type an address points to
func (ev *evaluator) pointee(t *Term) types.Type {
	switch t.op {
	case "obj":
		return ev.objTyp[mkTerm("objsite", t.s, nil, nil)]
	case "fa", "ia", "ea":
		return ev.cellTyp[t]
	}
	typ := t.typ
	if d := ifaceTyp[t]; d != nil {
		typ = d
	}
	if typ != nil {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// ---- closures over elements ----

// pureFn evaluates a function value on arguments that mention loop variables
func (c *callCtx) pureFn(f *Node, args ...*Node) *Node {
	sig := c.fnSig(f)
	st := c.st.clone()
	r, stop := c.fr.callValue(st, f, args, sig, c.site+"/f")
	if stop || len(r) == 0 {
		giveUp("callback without result in %s", c.name)
	}
	return r[0]
}

func (c *callCtx) fnSig(f *Node) *types.Signature {
	for _, l := range leavesOf(f) {
		if fn := c.ev.fnByTerm[l]; fn != nil {
			return fn.Signature
		}
	}
	giveUp("unknown callback in %s", c.name)
	return nil
}

func elemVar(n int, typ types.Type) *Node { return loopVar("el", n, typ) }

func (c *callCtx) withElems(s *Node, f func(n int, el *Node) *Node) *Node {
	dom := c.ev.content(c.st, s)
	n := newLoopID()
	c.ev.stack = append(c.ev.stack, n)
	loopDom[n] = dom
	defer func() {
		c.ev.stack = c.ev.stack[:len(c.ev.stack)-1]
		delete(loopDom, n)
	}()
	var et types.Type
	if c.fn != nil {
		et = elemType(c.fn.Signature.Params().At(0).Type())
		if targs := c.fn.TypeArgs(); len(targs) > 0 {
			if e := elemType(targs[0]); e != nil {
				et = e
			}
		}
	}
	return f(n, elemVar(n, et))
}

func sortedSeq(dom *Node, less func(n int, a, b *Node) *Node, et types.Type) *Node {
	return apply1(dom, func(t *Term) *Node {
		if isEmptySeq(t) || t.op == "seq" && len(t.args) == 1 {
			return leafOf(t)
		}
		n := newLoopID()
		a := leafOf(mkTerm("sa", "#"+strconv.Itoa(n), nil, et))
		b := leafOf(mkTerm("sb", "#"+strconv.Itoa(n), nil, et))
		l := less(n, a, b)
		return closeRaw("sorted", "", n, []*Node{leafOf(t), l})
	})
}

func (c *callCtx) setContent(s, v *Node) {
	for _, l := range leavesOf(s) {
		if isEmptySeq(l) || l.op == "bot" {
			continue
		}
		k := mkTerm("sc", "", []*Node{leafOf(l)}, nil)
		if s.leaf != nil {
			c.st.mem[k] = v
		} else {
			l := l
			g := condOf(s, func(t *Term) bool { return t == l })
			c.st.mem[k] = constrain(v, g)
		}
	}
}

func natLess(t types.Type) func(n int, a, b *Node) *Node {
	return func(n int, a, b *Node) *Node {
		if isIntType(t) {
			return intLess(a, b)
		}
		return strLess(a, b)
	}
}

// sortSlice: sort.Slice with a less function over indices
func (c *callCtx) sortSlice() {
	s, f := c.args[0], c.args[1]
	dom := c.ev.content(c.st, s)
	v := apply1(dom, func(t *Term) *Node {
		if isEmptySeq(t) || t.op == "seq" && len(t.args) == 1 {
			return leafOf(t)
		}
		n := newLoopID()
		tag := "#" + strconv.Itoa(n)
		i := leafOf(mkTerm("sa", tag+".i", nil, tInt))
		j := leafOf(mkTerm("sb", tag+".i", nil, tInt))
		l := c.pureFn(f, i, j)
		// elements at the indices
		m := map[*Term]*Node{}
		anyTerm(l, func(x *Term) bool {
			if x.op == "index" && x.args[0].leaf != nil {
				if x.args[1] == i {
					m[x] = leafOf(mkTerm("sa", tag, nil, x.typ))
				} else if x.args[1] == j {
					m[x] = leafOf(mkTerm("sb", tag, nil, x.typ))
				}
			}
			return false
		})
		l = substitute(l, m)
		if mentions(l, i.leaf) || mentions(l, j.leaf) {
			giveUp("comparison uses positions")
		}
		return closeRaw("sorted", "", n, []*Node{leafOf(t), l})
	})
	c.setContent(s, v)
}

func compare3(lt, eq *Node) *Node { return ite(lt, Int(-1), ite(eq, Int(0), Int(1))) }

func reTerm(p *Node) *Node {
	return apply1(p, func(t *Term) *Node { return leafOf(mkTerm("re", "", []*Node{leafOf(t)}, nil)) })
}

func reGroups(t *Term) (int, bool) {
	if t.op != "re" {
		return 0, false
	}
	s, ok := t.args[0].constStr()
	if !ok {
		return 0, false
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return 0, false
	}
	return re.NumSubexp(), true
}

func init() {
	for n, f := range map[string]func(string) string{
		"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	} {
		pureStr1(n, f)
	}
	callFolders["strings.Join#0"] = joinFolder
	callFolders["unicode.IsSpace#0"] = nil
	models = map[string]model{}
	m := models
	m["strings.HasPrefix"] = one(func(c *callCtx) *Node { return strTest("prefix", c.args[0], c.args[1]) })
	m["strings.HasSuffix"] = one(func(c *callCtx) *Node { return strTest("suffix", c.args[0], c.args[1]) })
	m["strings.Contains"] = one(func(c *callCtx) *Node { return strTest("contains", c.args[0], c.args[1]) })
	m["strings.ContainsRune"] = one(func(c *callCtx) *Node {
		if k, ok := c.args[1].constInt(); ok {
			return strTest("contains", c.args[0], Str(string(rune(k))))
		}
		return callTerm("strings.ContainsRune", 0, c.args, tBool)
	})
	m["strings.ContainsAny"] = one(func(c *callCtx) *Node {
		if s, ok := c.args[1].constStr(); ok {
			r := F
			for _, x := range s {
				r = or(r, strTest("contains", c.args[0], Str(string(x))))
			}
			return r
		}
		return callTerm("strings.ContainsAny", 0, c.args, tBool)
	})
	m["strings.TrimPrefix"] = one(func(c *callCtx) *Node { r, _ := trimPrefix(c.args[0], c.args[1]); return r })
	m["strings.CutPrefix"] = func(c *callCtx) ([]*Node, bool) {
		r, h := trimPrefix(c.args[0], c.args[1])
		return []*Node{r, h}, false
	}
	m["strings.TrimSuffix"] = one(func(c *callCtx) *Node { r, _ := trimSuffix(c.args[0], c.args[1]); return r })
	m["strings.CutSuffix"] = func(c *callCtx) ([]*Node, bool) {
		r, h := trimSuffix(c.args[0], c.args[1])
		return []*Node{r, h}, false
	}
	m["strings.Cut"] = func(c *callCtx) ([]*Node, bool) {
		h := strTest("contains", c.args[0], c.args[1])
		b := ite(h, cutPart("cutb", c.args[0], c.args[1]), c.args[0])
		a := ite(h, cutPart("cuta", c.args[0], c.args[1]), Str(""))
		return []*Node{b, a, h}, false
	}
	idx := one(func(c *callCtx) *Node {
		sub := c.args[1]
		if k, ok := sub.constInt(); ok {
			sub = Str(string(rune(k)))
		}
		return callTerm("strings.Index", 0, []*Node{c.args[0], sub}, tInt)
	})
	m["strings.Index"] = idx
	m["strings.IndexByte"] = idx
	m["strings.IndexRune"] = idx
	m["strings.Split"] = one(func(c *callCtx) *Node {
		return callTerm("strings.Split", 0, c.args, types.NewSlice(tString))
	})
	m["strings.Join"] = one(func(c *callCtx) *Node {
		return callTerm("strings.Join", 0, []*Node{c.snap(0), c.args[1]}, tString)
	})
	m["strings.ReplaceAll"] = one(func(c *callCtx) *Node { return callTerm("strings.ReplaceAll", 0, c.args, tString) })
	m["strings.Replace"] = one(func(c *callCtx) *Node {
		if k, ok := c.args[3].constInt(); ok && k < 0 {
			return callTerm("strings.ReplaceAll", 0, c.args[:3], tString)
		}
		return callTerm("strings.Replace", 0, c.args, tString)
	})
	m["strings.Compare"] = one(func(c *callCtx) *Node {
		return compare3(strLess(c.args[0], c.args[1]), eqNode(c.args[0], c.args[1]))
	})
	m["cmp.Compare"] = one(func(c *callCtx) *Node {
		t := c.fn.Signature.Params().At(0).Type()
		if ta := c.fn.TypeArgs(); len(ta) > 0 {
			t = ta[0]
		}
		if isIntType(t) {
			return compare3(intLess(c.args[0], c.args[1]), eqNode(c.args[0], c.args[1]))
		}
		return compare3(strLess(c.args[0], c.args[1]), eqNode(c.args[0], c.args[1]))
	})
	m["cmp.Less"] = one(func(c *callCtx) *Node {
		t := c.fn.TypeArgs()[0]
		return natLess(t)(0, c.args[0], c.args[1])
	})
	m["cmp.Or"] = one(func(c *callCtx) *Node {
		es, ok := c.variadic(0)
		if !ok {
			giveUp("cmp.Or")
		}
		z := zeroOf(c.fn.TypeArgs()[0])
		r := z
		for i := len(es) - 1; i >= 0; i-- {
			r = ite(eqNode(es[i], z), r, es[i])
		}
		return r
	})
	m["fmt.Sprintf"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(1)
		if !ok {
			return opaque("fmtdyn", "", []*Node{c.args[0], c.snap(1)}, tString)
		}
		return c.sprintf(c.args[0], as)
	})
	m["fmt.Sprint"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(0)
		if ok && len(as) == 1 {
			return c.text(as[0], "%v")
		}
		return opaque("sprint", "", []*Node{c.snap(0)}, tString)
	})
	m["fmt.Sprintln"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(0)
		if !ok {
			return opaque("sprintln", "", []*Node{c.snap(0)}, tString)
		}
		return c.println(as)
	})
	m["fmt.Errorf"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(1)
		if !ok {
			return errTerm(nil)
		}
		return errTerm(wrapped(c.args[0], as))
	})
	m["errors.New"] = one(func(c *callCtx) *Node {
		if c.fr.inInit {
			if s, ok := c.args[0].constStr(); ok {
				return leafOf(mkTerm("err", "sentinel:"+s, nil, nil))
			}
		}
		return errTerm(nil)
	})
	m["errors.Join"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(0)
		if !ok {
			giveUp("errors.Join")
		}
		all := T
		for _, a := range as {
			all = and(all, eqNode(a, Nil))
		}
		return ite(all, Nil, errTerm(as))
	})
	m["errors.Is"] = one(func(c *callCtx) *Node { return errIs(c.args[0], c.args[1]) })
	m["errors.Unwrap"] = one(func(c *callCtx) *Node {
		return apply1(c.args[0], func(t *Term) *Node {
			if t.op == "err" {
				if len(t.args) == 1 {
					return t.args[0]
				}
				return Nil
			}
			return opaque("unwrap", "", []*Node{leafOf(t)}, errType)
		})
	})
	m["iface.Error"] = one(func(c *callCtx) *Node { return opaque("errstr", "", []*Node{c.args[0]}, tString) })
	// output
	out := func(w, text *Node, c *callCtx) ([]*Node, bool) {
		if c.ev.keepText {
			c.ev.effect(c.st, "out", c.writer(w), text)
		} else {
			c.ev.effect(c.st, "out", c.writer(w))
		}
		return []*Node{lenOf(text, "str"), Nil}, false
	}
	m["fmt.Fprintf"] = func(c *callCtx) ([]*Node, bool) {
		as, ok := c.variadic(2)
		if !ok {
			return out(c.args[0], opaque("fmtdyn", "", []*Node{c.args[1], c.snap(2)}, tString), c)
		}
		return out(c.args[0], c.sprintf(c.args[1], as), c)
	}
	m["fmt.Fprint"] = func(c *callCtx) ([]*Node, bool) {
		as, ok := c.variadic(1)
		if ok && len(as) == 1 {
			return out(c.args[0], c.text(as[0], "%v"), c)
		}
		if ok && len(as) == 0 {
			return []*Node{Int(0), Nil}, false
		}
		return out(c.args[0], opaque("sprint", "", []*Node{c.snap(1)}, tString), c)
	}
	m["fmt.Fprintln"] = func(c *callCtx) ([]*Node, bool) {
		as, ok := c.variadic(1)
		if !ok {
			return out(c.args[0], opaque("sprintln", "", []*Node{c.snap(1)}, tString), c)
		}
		return out(c.args[0], c.println(as), c)
	}
	m["io.WriteString"] = func(c *callCtx) ([]*Node, bool) { return out(c.args[0], c.args[1], c) }
	stdout := func(ln bool) model {
		return func(c *callCtx) ([]*Node, bool) {
			w := opaque("gval", "os.Stdout", nil, nil)
			as, ok := c.variadic(0)
			if !ok {
				return out(w, opaque("sprintln", "", []*Node{c.snap(0)}, tString), c)
			}
			if ln {
				return out(w, c.println(as), c)
			}
			var ps []*Node
			for _, a := range as {
				ps = append(ps, c.text(a, "%v"))
			}
			return out(w, concat(ps...), c)
		}
	}
	m["fmt.Println"] = stdout(true)
	m["fmt.Print"] = stdout(false)
	m["fmt.Printf"] = func(c *callCtx) ([]*Node, bool) {
		w := opaque("gval", "os.Stdout", nil, nil)
		as, ok := c.variadic(1)
		if !ok {
			giveUp("fmt.Printf")
		}
		return out(w, c.sprintf(c.args[0], as), c)
	}
	for _, col := range []string{"Cyan", "Green", "HiCyan", "Magenta", "Red", "Yellow", "Blue", "HiRed", "HiGreen", "HiYellow", "White", "Black"} {
		col := col
		m["github.com/fatih/color."+col+"String"] = one(func(c *callCtx) *Node {
			as, ok := c.variadic(1)
			if !ok {
				giveUp("colour format %.300s", show(c.ev.content(c.st, c.args[1])))
			}
			return opaque("color", col, []*Node{c.sprintf(c.args[0], as)}, tString)
		})
	}
	stop := func(c *callCtx) ([]*Node, bool) { return nil, true }
	m["os.Exit"] = stop
	m["log.Fatal"] = stop
	m["log.Fatalf"] = stop
	m["log.Fatalln"] = stop
	// regular expressions
	m[modPath+"/internal/cachedregexp.MustCompile"] = one(func(c *callCtx) *Node {
		if _, ok := c.args[0].constStr(); !ok && c.args[0].leaf != nil {
			c.ev.fails(c.st, atomNode(mkTerm("bcall", "panics:regexp", []*Node{c.args[0]}, nil)))
		}
		return reTerm(c.args[0])
	})
	m[modPath+"/internal/verifspec/internal/cachedregexp.MustCompile"] = m[modPath+"/internal/cachedregexp.MustCompile"]
	m["regexp.MustCompile"] = m[modPath+"/internal/cachedregexp.MustCompile"]
	match := func(re, s *Node) *Node { return callTerm("re.Match", 0, []*Node{re, s}, tBool) }
	m["(*regexp.Regexp).MatchString"] = one(func(c *callCtx) *Node { return match(c.args[0], c.args[1]) })
	m["(*regexp.Regexp).FindStringSubmatch"] = one(func(c *callCtx) *Node {
		return ite(match(c.args[0], c.args[1]), callTerm("re.FindStringSubmatch", 0, c.args, types.NewSlice(tString)), emptySeq)
	})
	m["(*regexp.Regexp).FindString"] = one(func(c *callCtx) *Node {
		return ite(match(c.args[0], c.args[1]), indexOf(callTerm("re.FindStringSubmatch", 0, c.args, types.NewSlice(tString)), Int(0), tString), Str(""))
	})
	for _, x := range []string{"ReplaceAllString", "ReplaceAllLiteralString", "Split"} {
		x := x
		m["(*regexp.Regexp)."+x] = one(func(c *callCtx) *Node { return callTerm("re."+x, 0, c.args, c.res(0)) })
	}
	// sequences
	m["slices.Contains"] = one(func(c *callCtx) *Node {
		return c.withElems(c.args[0], func(n int, el *Node) *Node {
			return mkExists(c.ev.content(c.st, c.args[0]), n, eqNode(el, c.args[1]))
		})
	})
	m["slices.ContainsFunc"] = one(func(c *callCtx) *Node {
		return c.withElems(c.args[0], func(n int, el *Node) *Node {
			return mkExists(c.ev.content(c.st, c.args[0]), n, c.pureFn(c.args[1], el))
		})
	})
	idxOf := func(c *callCtx, cond func(el *Node) *Node) *Node {
		return c.withElems(c.args[0], func(n int, el *Node) *Node {
			d := c.ev.content(c.st, c.args[0])
			b := cond(el)
			return ite(mkExists(d, n, b), mkFirst("ix", d, n, b, tInt), Int(-1))
		})
	}
	m["slices.Index"] = one(func(c *callCtx) *Node {
		return idxOf(c, func(el *Node) *Node { return eqNode(el, c.args[1]) })
	})
	m["slices.IndexFunc"] = one(func(c *callCtx) *Node {
		return idxOf(c, func(el *Node) *Node { return c.pureFn(c.args[1], el) })
	})
	m["slices.DeleteFunc"] = one(func(c *callCtx) *Node {
		return c.withElems(c.args[0], func(n int, el *Node) *Node {
			return mkComp(c.ev.content(c.st, c.args[0]), n, ite(c.pureFn(c.args[1], el), emptySeq, seqLit(el)))
		})
	})
	m["slices.Clone"] = one(func(c *callCtx) *Node { return c.ev.content(c.st, c.args[0]) })
	m["slices.Grow"] = m["slices.Clone"]
	m["slices.Clip"] = m["slices.Clone"]
	m["slices.Collect"] = m["slices.Clone"]
	m["slices.Values"] = m["slices.Clone"]
	m["slices.Concat"] = one(func(c *callCtx) *Node {
		as, ok := c.variadic(0)
		if !ok {
			giveUp("slices.Concat")
		}
		var ps []*Node
		for _, a := range as {
			ps = append(ps, c.ev.content(c.st, a))
		}
		return seqCat(ps...)
	})
	m["slices.Sort"] = none(func(c *callCtx) {
		et := elemType(c.fn.TypeArgs()[0])
		c.setContent(c.args[0], sortedSeq(c.ev.content(c.st, c.args[0]), natLess(et), et))
	})
	m["sort.Strings"] = none(func(c *callCtx) {
		c.setContent(c.args[0], sortedSeq(c.ev.content(c.st, c.args[0]), natLess(tString), tString))
	})
	m["slices.Sorted"] = one(func(c *callCtx) *Node {
		et := c.fn.TypeArgs()[0]
		return sortedSeq(c.args[0], natLess(et), et)
	})
	sortFn := func(c *callCtx) *Node {
		et := elemType(c.fn.Signature.Params().At(0).Type())
		if ta := c.fn.TypeArgs(); len(ta) > 0 && elemType(ta[0]) != nil {
			et = elemType(ta[0])
		} else if len(ta) > 1 {
			et = ta[1]
		}
		return sortedSeq(c.ev.content(c.st, c.args[0]), func(n int, a, b *Node) *Node {
			return ltConst(c.pureFn(c.args[1], a, b), 0)
		}, et)
	}
	m["slices.SortFunc"] = none(func(c *callCtx) { c.setContent(c.args[0], sortFn(c)) })
	m["slices.SortStableFunc"] = m["slices.SortFunc"]
	m["slices.SortedFunc"] = one(sortFn)
	m["sort.Slice"] = none(func(c *callCtx) { c.sortSlice() })
	m["sort.SliceStable"] = m["sort.Slice"]
	// maps
	m["slices.AppendSeq"] = one(func(c *callCtx) *Node {
		return seqCat(c.ev.content(c.st, c.args[0]), c.ev.content(c.st, c.args[1]))
	})
	m["maps.Copy"] = none(func(c *callCtx) {
		src := c.ev.mcontent(c.st, c.args[1])
		for _, t := range leavesOf(c.args[0]) {
			old := c.ev.mcontentT(c.st, t)
			c.ev.mapStoreT(c.st, t, mapOf(seqCat(entriesOf(old), entriesOf(src))))
		}
	})
	m["maps.Clone"] = one(func(c *callCtx) *Node {
		t := c.ev.objTerm(c.site, c.fn.TypeArgs()[0])
		c.st.mem[mkTerm("mc", "", []*Node{leafOf(t)}, nil)] = c.ev.mcontent(c.st, c.args[0])
		return leafOf(t)
	})
	m["maps.Keys"] = one(func(c *callCtx) *Node {
		n := newLoopID()
		k := loopVar("key", n, c.mapTyp().Key())
		return mkComp(mapDom(c.ev.mcontent(c.st, c.args[0])), n, seqLit(k))
	})
	m["maps.Values"] = one(func(c *callCtx) *Node {
		n := newLoopID()
		k := loopVar("el", n, c.mapTyp().Elem())
		return mkComp(mapDom(c.ev.mcontent(c.st, c.args[0])), n, seqLit(k))
	})
	// readers
	ident := one(func(c *callCtx) *Node { return leafOrReader(c.snap(0)) })
	m["bytes.NewBuffer"] = ident
	m["bytes.NewReader"] = ident
	m["bytes.NewBufferString"] = ident
	m["strings.NewReader"] = ident
	m["io.NopCloser"] = one(func(c *callCtx) *Node { return c.args[0] })
	m["io.ReadAll"] = func(c *callCtx) ([]*Node, bool) {
		a := c.snap(0)
		if a.leaf != nil && a.leaf.op == "reader" {
			return []*Node{a.leaf.args[0], Nil}, false
		}
		return []*Node{callTerm("io.ReadAll", 0, []*Node{a}, nil), callTerm("io.ReadAll", 1, []*Node{a}, errType)}, false
	}
	dec := func(kind string) model {
		return one(func(c *callCtx) *Node { return c.decode(kind, c.snap(0), c.args[1]) })
	}
	m["encoding/json.Unmarshal"] = dec("json")
	m["encoding/xml.Unmarshal"] = dec("xml")
	m["gopkg.in/yaml.v3.Unmarshal"] = dec("yaml")
	m["github.com/BurntSushi/toml.Unmarshal"] = dec("toml")
	m["github.com/BurntSushi/toml.Decode"] = func(c *callCtx) ([]*Node, bool) {
		e := c.decode("toml", c.snap(0), c.args[1])
		return []*Node{Nil, e}, false
	}
	m["(*gopkg.in/yaml.v3.Node).Decode"] = dec("yamlnode")
	// decoders reading from a reader: the whole of it
	for pk, kind := range map[string]string{"encoding/json": "json", "gopkg.in/yaml.v3": "yaml", "encoding/xml": "xml", "github.com/BurntSushi/toml": "toml"} {
		kind := kind
		m[pk+".NewDecoder"] = one(func(c *callCtx) *Node { return opaque("decoder", kind, []*Node{c.snap(0)}, c.res(0)) })
	}
	m["(*encoding/xml.Decoder).DecodeElement"] = one(func(c *callCtx) *Node {
		d := c.args[0]
		k := mkTerm("stt", "", []*Node{d}, nil)
		pos := c.ev.cell(c.st, k)
		e := c.decode("xmlel", seqLit(d, pos, c.snap(2)), c.args[1])
		c.st.mem[k] = linAdd(pos, Int(1))
		return e
	})
	m["(*encoding/xml.Decoder).Token"] = func(c *callCtx) ([]*Node, bool) {
		d := c.args[0]
		k := mkTerm("stt", "", []*Node{d}, nil)
		pos := c.ev.cell(c.st, k)
		c.st.mem[k] = linAdd(pos, Int(1))
		return []*Node{opaque("tok", "", []*Node{d, pos}, c.res(0)), opaque("tokerr", "", []*Node{d, pos}, errType)}, false
	}
	m["bufio.NewScanner"] = one(func(c *callCtx) *Node { return opaque("scanner", "", []*Node{c.snap(0)}, c.res(0)) })
	scCfg := func(c *callCtx, s *Node) *Node {
		k := mkTerm("tr", "scan", []*Node{s}, nil)
		if v, ok := c.st.mem[k]; ok {
			return opaque("scancfg", "", []*Node{s, v}, nil)
		}
		return s
	}
	m["(*bufio.Scanner).Scan"] = one(func(c *callCtx) *Node {
		s := c.args[0]
		k := mkTerm("stt", "", []*Node{s}, nil)
		pos := c.ev.cell(c.st, k)
		c.st.mem[k] = linAdd(pos, Int(1))
		return opaque2("scan", scCfg(c, s), pos)
	})
	text := one(func(c *callCtx) *Node {
		s := c.args[0]
		k := mkTerm("stt", "", []*Node{s}, nil)
		pos := linSub(c.ev.cell(c.st, k), Int(1))
		return lineOf(scCfg(c, s), pos)
	})
	m["(*bufio.Scanner).Text"] = text
	m["(*bufio.Scanner).Bytes"] = text
	m["(*bufio.Scanner).Err"] = one(func(c *callCtx) *Node {
		if pos := c.ev.cell(c.st, mkTerm("stt", "", []*Node{c.args[0]}, nil)); pos == Int(0) {
			return Nil // nothing was read yet
		}
		return opaque("scanerr", "", []*Node{scCfg(c, c.args[0])}, errType)
	})
	m["(*bufio.Scanner).Buffer"] = none(func(c *callCtx) {
		k := mkTerm("tr", "scan", []*Node{c.args[0]}, nil)
		c.st.mem[k] = seqCat(c.ev.cell(c.st, k), seqLit(c.snap(2)))
	})
	m["(*bufio.Scanner).Split"] = none(func(c *callCtx) {
		k := mkTerm("tr", "scan", []*Node{c.args[0]}, nil)
		c.st.mem[k] = seqCat(c.ev.cell(c.st, k), seqLit(c.args[1]))
	})
	m["encoding/csv.NewReader"] = one(func(c *callCtx) *Node {
		t := c.ev.objTerm(c.site, c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		c.st.mem[mkTerm("fa", "src", []*Node{leafOf(t)}, nil)] = c.snap(0)
		return leafOf(t)
	})
	m["(*encoding/csv.Reader).Read"] = func(c *callCtx) ([]*Node, bool) {
		r := c.args[0]
		k := mkTerm("stt", "", []*Node{r}, nil)
		pos := c.ev.cell(c.st, k)
		c.st.mem[k] = linAdd(pos, Int(1))
		src := c.csvSrc(r)
		return []*Node{rowOf(src, pos), opaque("rowerr", "", []*Node{src, pos}, errType)}, false
	}
	// concurrency
	m["(*golang.org/x/sync/errgroup.Group).SetLimit"] = none(func(c *callCtx) {})
	m["golang.org/x/sync/errgroup.WithContext"] = func(c *callCtx) ([]*Node, bool) {
		t := c.ev.objTerm(c.site, c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return []*Node{leafOf(t), c.args[0]}, false
	}
	m["(*golang.org/x/sync/errgroup.Group).Go"] = none(func(c *callCtx) {
		k := mkTerm("egs", "", []*Node{c.args[0]}, nil)
		c.ev.cellTyp[k] = errType
		r, stop := c.fr.callValue(c.st, c.args[1], nil, c.fnSig(c.args[1]), c.site+"/go")
		if stop {
			return
		}
		old := c.ev.cell(c.st, k)
		c.st.mem[k] = ite(eqNode(old, Nil), r[0], old)
	})
	m["(*golang.org/x/sync/errgroup.Group).Wait"] = one(func(c *callCtx) *Node {
		return c.ev.cell(c.st, mkTerm("egs", "", []*Node{c.args[0]}, nil))
	})
	for _, x := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		m[x] = none(func(c *callCtx) {})
	}
	m["(*sync.Once).Do"] = none(func(c *callCtx) { c.fr.callValue(c.st, c.args[1], nil, c.fnSig(c.args[1]), c.site+"/once") })
	// building text
	m["(*strings.Builder).WriteString"] = func(c *callCtx) ([]*Node, bool) {
		c.sbAdd(c.args[1])
		return []*Node{lenOf(c.args[1], "str"), Nil}, false
	}
	m["(*strings.Builder).WriteByte"] = one(func(c *callCtx) *Node {
		if k, ok := c.args[1].constInt(); ok {
			c.sbAdd(Str(string([]byte{byte(k)})))
		} else {
			c.sbAdd(opaque("runestr", "", []*Node{c.args[1]}, tString))
		}
		return Nil
	})
	m["(*strings.Builder).WriteRune"] = func(c *callCtx) ([]*Node, bool) {
		if k, ok := c.args[1].constInt(); ok {
			c.sbAdd(Str(string(rune(k))))
		} else {
			c.sbAdd(opaque("runestr", "", []*Node{c.args[1]}, tString))
		}
		return []*Node{Int(1), Nil}, false
	}
	m["(*strings.Builder).String"] = one(func(c *callCtx) *Node { return c.ev.cell(c.st, sbKey(c.args[0])) })
	m["(*strings.Builder).Len"] = one(func(c *callCtx) *Node { return lenOf(c.ev.cell(c.st, sbKey(c.args[0])), "str") })
	m["(*strings.Builder).Grow"] = none(func(c *callCtx) {})
	m["strconv.Itoa"] = one(func(c *callCtx) *Node { return c.text(c.args[0], "%d") })
	m["strconv.Quote"] = one(func(c *callCtx) *Node { return opaque("fmt", "%q", c.args, tString) })
	// files
	m["(*os.File).Close"] = one(func(c *callCtx) *Node { return callTerm("os.File.Close", 0, []*Node{c.args[0]}, errType) })
	for _, x := range []string{"os.WriteFile", "os.Create", "os.OpenFile", "os.Remove", "os.RemoveAll", "os.Rename", "os.Mkdir", "os.MkdirAll"} {
		effectClass[x] = "fs"
	}
	// http
	m["net/http.NewRequestWithContext"] = newRequest
	m["net/http.NewRequest"] = func(c *callCtx) ([]*Node, bool) {
		c.args = append([]*Node{Nil}, c.args...)
		return newRequest(c)
	}
	hdr := func(c *callCtx) ([]*Node, bool) {
		k := c.args[1]
		if s, ok := k.constStr(); ok {
			k = Str(strings.ToLower(s))
		}
		c.ev.mapSet(c.st, c.args[0], k, c.args[2])
		return nil, false
	}
	m["(net/http.Header).Add"] = hdr
	m["(net/http.Header).Set"] = hdr
	m["(net/http.Header).Get"] = one(func(c *callCtx) *Node {
		k := c.args[1]
		if s, ok := k.constStr(); ok {
			k = Str(strings.ToLower(s))
		}
		return callTerm("http.Header.Get", 0, []*Node{c.snap(0), k}, tString)
	})
	m["(*net/http.Client).Do"] = func(c *callCtx) ([]*Node, bool) {
		req := c.request(c.args[1])
		c.ev.effect(c.st, "http", req)
		return []*Node{callTerm("http.Do", 0, []*Node{req}, c.res(0)), callTerm("http.Do", 1, []*Node{req}, errType)}, false
	}
	m["(*net/url.URL).String"] = one(func(c *callCtx) *Node {
		return callTerm("url.String", 0, []*Node{c.ev.load(c.st, c.args[0], urlType(c.fn))}, tString)
	})
	m["(*net/url.URL).Query"] = one(func(c *callCtx) *Node {
		return callTerm("url.Query", 0, []*Node{c.ev.load(c.st, c.args[0], urlType(c.fn))}, c.res(0))
	})
	m["path/filepath.Walk"] = one(walkModel)
	// flags
	m["flag.NewFlagSet"] = one(func(c *callCtx) *Node { return leafOf(mkTerm("flagset", "", nil, nil)) })
	flagVal := func(kind string) model {
		return one(func(c *callCtx) *Node { return c.flagPtr(kind, c.args[1], c.snap(2)) })
	}
	flagVar := func(kind string, typ types.Type) model {
		return none(func(c *callCtx) {
			p := c.flagPtr(kind, c.args[2], c.snap(3))
			for _, t := range leavesOf(c.args[1]) {
				c.ev.storeT(c.st, t, c.ev.load(c.st, p, typ), typ, T)
			}
		})
	}
	m["(*flag.FlagSet).BoolVar"] = flagVar("bool", tBool)
	m["(*flag.FlagSet).StringVar"] = flagVar("string", tString)
	m["(*flag.FlagSet).IntVar"] = flagVar("int", tInt)
	m["(*flag.FlagSet).Bool"] = flagVal("bool")
	m["(*flag.FlagSet).String"] = flagVal("string")
	m["(*flag.FlagSet).Int"] = flagVal("int")
	m["(*flag.FlagSet).Args"] = one(func(c *callCtx) *Node { return opaque("flagargs", "", nil, types.NewSlice(tString)) })
	m["(*flag.FlagSet).NArg"] = one(func(c *callCtx) *Node {
		return lenOf(opaque("flagargs", "", nil, types.NewSlice(tString)), "seq")
	})
	m["(*flag.FlagSet).Parse"] = one(func(c *callCtx) *Node {
		return callTerm("flag.Parse", 0, []*Node{c.snap(1)}, errType)
	})
	m["(*flag.FlagSet).Var"] = none(func(c *callCtx) {
		// the value holds what the user gave
		for _, t := range leavesOf(c.args[1]) {
			if typ := c.ev.pointee(t); typ != nil {
				v := opaque("flagval", "", []*Node{c.args[2]}, typ)
				c.ev.storeT(c.st, t, v, typ, T)
			}
		}
	})
}

// flagPtr: the value of a flag, which may be fixed for a case
func (c *callCtx) flagPtr(kind string, name, def *Node) *Node {
	p := leafOf(mkTerm("flagptr", kind, []*Node{name}, nil))
	s, ok := name.constStr()
	if !ok {
		giveUp("computed flag name")
	}
	c.ev.effect(c.st, "flag:"+s, def)
	if v := c.ev.presets[s]; v != nil {
		c.st.mem[p.leaf] = v
	}
	return p
}

func (c *callCtx) println(as []*Node) *Node {
	var ps []*Node
	for i, a := range as {
		if i > 0 {
			ps = append(ps, Str(" "))
		}
		ps = append(ps, c.text(a, "%v"))
	}
	return concat(append(ps, Str("\n"))...)
}

func (c *callCtx) writer(w *Node) *Node { return c.ev.snapshot(c.st, w) }

func (c *callCtx) mapTyp() *types.Map {
	for _, t := range c.fn.TypeArgs() {
		if m, ok := t.Underlying().(*types.Map); ok {
			return m
		}
	}
	giveUp("map type")
	return nil
}

func urlType(fn *ssa.Function) types.Type {
	return fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
}

func (ev *evaluator) cell(st *state, k *Term) *Node {
	if v, ok := st.mem[k]; ok {
		return v
	}
	if k.op == "egs" {
		// group made in an iteration of an earlier loop is not tracked
		return Nil
	}
	return ev.defaultCell(st, k)
}

func sbKey(b *Node) *Term {
	return mkTerm("sbs", "", []*Node{b}, nil)
}

func (c *callCtx) sbAdd(s *Node) {
	k := sbKey(c.args[0])
	c.ev.cellTyp[k] = tString
	c.st.mem[k] = concat(c.ev.cell(c.st, k), s)
}

func leafOrReader(a *Node) *Node {
	return apply1(a, func(t *Term) *Node { return leafOf(mkTerm("reader", "", []*Node{leafOf(t)}, nil)) })
}

func opaque2(kind string, a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node {
		return atomNode(mkTerm("bcall", kind, []*Node{leafOf(x), leafOf(y)}, nil))
	})
}

func lineOf(src, pos *Node) *Node {
	return apply2(src, pos, func(x, y *Term) *Node {
		if y.op == "ix" {
			fr, _ := varName(y.s)
			if d := loopDom[fr]; d != nil && d.leaf != nil && d.leaf.op == "lines" && d.leaf.args[0].leaf == x {
				return loopVar("el", fr, tString)
			}
		}
		return opaque("line", "", []*Node{leafOf(x), leafOf(y)}, tString)
	})
}

func rowOf(src, pos *Node) *Node {
	return apply2(src, pos, func(x, y *Term) *Node {
		if y.op == "ix" {
			fr, _ := varName(y.s)
			if d := loopDom[fr]; d != nil && d.leaf != nil && d.leaf.op == "rows" && d.leaf.args[0].leaf == x {
				return loopVar("el", fr, types.NewSlice(tString))
			}
		}
		return opaque("row", "", []*Node{leafOf(x), leafOf(y)}, types.NewSlice(tString))
	})
}

// csvSrc: what the reader reads, with its settings
func (c *callCtx) csvSrc(r *Node) *Node {
	if r.leaf == nil {
		giveUp("conditional csv reader")
	}
	var ks []string
	vals := map[string]*Node{}
	for _, k := range byID(c.st.mem) {
		v := c.st.mem[k]
		if k.op == "fa" && k.args[0] == r {
			ks = append(ks, k.s)
			vals[k.s] = v
		}
	}
	sortStrings(ks)
	args := make([]*Node, len(ks))
	for i, k := range ks {
		args[i] = vals[k]
	}
	return opaque("csv", strings.Join(ks, "|"), args, nil)
}

// request: what a request asks for
func (c *callCtx) request(r *Node) *Node {
	return apply1(r, func(t *Term) *Node {
		if rootOf(t).op != "obj" {
			return leafOf(t)
		}
		var args []*Node
		for _, k := range []string{"Body", "Header", "Method", "URL"} {
			a := addrFA(t, k, nil)
			typ := c.ev.cellTyp[a]
			if typ == nil {
				typ = tString
			}
			args = append(args, c.ev.snapshot(c.st, c.ev.loadT(c.st, a, typ)))
		}
		return opaque("request", "", args, nil)
	})
}

func newRequest(c *callCtx) ([]*Node, bool) {
	method, url, body := c.snap(1), c.snap(2), c.snap(3)
	res := c.fn.Signature.Results()
	t := c.ev.objTerm(c.site, res.At(0).Type().Underlying().(*types.Pointer).Elem())
	h := c.ev.objTerm(c.site+"/hdr", types.NewMap(tString, tString))
	c.st.mem[mkTerm("mc", "", []*Node{leafOf(h)}, nil)] = emptyMap
	set := func(k string, v *Node, typ types.Type) {
		a := addrFA(t, k, nil)
		c.st.mem[a] = v
		c.ev.cellTyp[a] = typ
	}
	set("Method", method, tString)
	set("URL", url, tString)
	set("Body", body, nil)
	set("Header", leafOf(h), nil)
	e := callTerm("http.NewRequest", 1, []*Node{method, url}, errType)
	return []*Node{ite(eqNode(e, Nil), leafOf(t), Nil), e}, false
}

// walkModel: the callback is run for every file below the root
func walkModel(c *callCtx) *Node {
	root, f := c.args[0], c.args[1]
	dom := apply1(root, func(t *Term) *Node { return leafOf(mkTerm("walk", "", []*Node{leafOf(t)}, nil)) })
	sig := c.fnSig(f)
	outs := c.fr.synth(dom, c.st, func(st *state, n int) ([]edge, []edge) {
		el := leafOf(mkTerm("el", "#"+strconv.Itoa(n), nil, nil))
		path := opaque("walkpath", "", []*Node{el}, tString)
		info := opaque("walkinfo", "", []*Node{el}, sig.Params().At(1).Type())
		werr := opaque("walkerr", "", []*Node{el}, errType)
		st2 := st.clone()
		r, stop := c.fr.callValue(st2, f, []*Node{path, info, werr}, sig, c.site+"/walk")
		if stop {
			return nil, nil
		}
		ok := eqNode(r[0], Nil)
		k := mkTerm("wres", "", nil, nil)
		st3 := st2.clone()
		st3.mem[k] = r[0]
		var backs, os []edge
		if ok != F {
			backs = append(backs, edge{cond: ok, st: st2})
		}
		if not(ok) != F {
			os = append(os, edge{cond: not(ok), st: st3})
		}
		return backs, os
	})
	k := mkTerm("wres", "", nil, nil)
	vals := make([]*Node, len(outs))
	for i, o := range outs {
		if v, ok := o.st.mem[k]; ok {
			vals[i] = v
			s := o.st.clone()
			delete(s.mem, k)
			outs[i].st = s
		} else {
			vals[i] = Nil
		}
	}
	if len(outs) == 0 {
		return Nil
	}
	_, m := c.ev.mergeStates(outs)
	c.st.mem = m.clone().mem
	return phiOf(outs, vals)
}

// knownExternal: library functions whose results are functions of their
// arguments and that have no effects the checks look at
func knownExternal(name string) bool {
	for _, p := range []string{"strings.", "path.", "path/filepath.", "strconv.", "unicode.", "bytes.", "math."} {
		// what may be one way of several to say the same thing is only known if
		// it is interpreted
		if strings.HasPrefix(name, p) {
			return meaning[name+"#0"] != nil
		}
	}
	for _, p := range []string{"net/url.", "(net/url.", "(*net/url.", "os.ReadFile", "os.Open", "os.Getenv", "os.TempDir",
		"(*os.File)", "io.ReadAll", "archive/zip", "(*archive/zip", "crypto/sha256.Sum256", "encoding/json", "context.", "github.com/google/osv-scalibr", "golang.org/x/mod", "github.com/tidwall", "gopkg.in/yaml", "(*gopkg.in/yaml", "net/http", "os.WriteFile", "os.Stat", "os.Lstat", "os.ReadDir", "time.", "(time.Time)"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}
