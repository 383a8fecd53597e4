package main

// Regression verification in the style of SymDiff: functions of the two trees
// are paired by name, compared callees first, and pairs that were found equal
// are uninterpreted in their callers. Functions without an equal partner are
// inlined there instead, so that only what an anchor does as a whole counts.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type pairStatus int

const (
	pairUnknown pairStatus = iota
	pairEqual
	pairDiffers
	pairUndecided
	pairBusy
)

type pairInfo struct {
	apart      *comparison
	name       string
	repo, spec *ssa.Function
	status     pairStatus
	public     bool
	why        string
	diffs      []diff
	classes    []string // kinds of effects it has
	memory     bool     // changes what its arguments refer to
	sticky     []*Term  // flags of a reporter that it may set, if that is all
	wild       bool     // changes memory in other ways
	level      string
	definite   bool     // differs on every level that could be decided
	split      []string // flags to distinguish cases by
	cases      int
	took       time.Duration
	got, want  *outcome
	unknown    []string
	lost       bool
	lookInto   []string
}

type pairing struct {
	p       *program
	m       map[string]*pairInfo
	opaque  map[string]bool // anchors that are never inlined at level A and B
	presets map[string]*Node
	panics  bool // crashes are compared as well
}

func newPairing(p *program) *pairing {
	pr := &pairing{p: p, m: map[string]*pairInfo{}}
	pairStructs(p)
	for fn := range ssautil.AllFunctions(p.prog) {
		if !inModule(fn) || fn.Parent() != nil || fn.Synthetic != "" || fn.Origin() != nil || len(fn.Blocks) == 0 || fn.Pkg == nil {
			continue
		}
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		n := shortName(fn)
		pi := pr.m[n]
		if pi == nil {
			pi = &pairInfo{name: n}
			pr.m[n] = pi
		}
		if strings.Contains(fn.Pkg.Pkg.Path(), "/internal/verifspec") {
			pi.spec = fn
		} else {
			pi.repo = fn
		}
	}
	pr.addPromoted(p)
	if pi := pr.m[modPath+".run"]; pi != nil {
		pi.split = []string{"list-packages", "no-config", "update-config-ignores", "no-config-ignores", "use-api", "use-dbs", "no-config-databases", "json", "version", "list-ecosystems"}
	}
	for _, pi := range pr.m {
		if pi.repo != nil && pi.spec != nil && sigShape(pi.repo) != sigShape(pi.spec) {
			pi.status = pairDiffers
			pi.why = "signatures differ"
		}
	}
	return pr
}

// addPromoted pairs the methods that exported types have from embedded ones
func (pr *pairing) addPromoted(p *program) {
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || !tn.Object().Exported() || types.IsInterface(tn.Type()) {
				continue
			}
			ms := p.prog.MethodSets.MethodSet(types.NewPointer(tn.Type()))
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				if len(sel.Index()) < 2 || !sel.Obj().Exported() {
					continue
				}
				fn := p.prog.MethodValue(sel)
				if fn == nil || !inModule(fn) {
					continue
				}
				path := plainName(sp.Pkg.Path())
				n := "(*" + strings.TrimPrefix(path, modPath+"/") + "." + tn.Name() + ")." + sel.Obj().Name()
				pi := pr.m[n]
				if pi == nil {
					pi = &pairInfo{name: n}
					pr.m[n] = pi
				}
				if strings.Contains(sp.Pkg.Path(), "/internal/verifspec") {
					pi.spec = fn
				} else {
					pi.repo = fn
				}
			}
		}
	}
}

func sigShape(fn *ssa.Function) string {
	s := plainName(types.TypeString(fn.Signature, nil))
	if r := fn.Signature.Recv(); r != nil {
		s = plainName(types.TypeString(r.Type(), nil)) + s
	}
	// names of parameters do not matter
	var b strings.Builder
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		b.WriteString(plainName(types.TypeString(fn.Signature.Params().At(i).Type(), nil)) + ",")
	}
	b.WriteString("->")
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		b.WriteString(plainName(types.TypeString(fn.Signature.Results().At(i).Type(), nil)) + ",")
	}
	_ = s
	return b.String()
}

// callees: functions of the module called or referred to by fn
func callees(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok || seen[g] || !inModule(g) {
						continue
					}
					seen[g] = true
					if g.Parent() != nil || g.Synthetic != "" {
						walk(g)
						continue
					}
					out = append(out, g)
				}
			}
		}
	}
	walk(fn)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// eligible: functions that may be left uninterpreted in a caller
func (pr *pairing) eligible(fn *ssa.Function, self *pairInfo) *pairInfo {
	if fn.Origin() != nil || fn.Parent() != nil {
		return nil
	}
	pi := pr.m[shortName(fn)]
	if pi == nil || pi == self || pi.repo == nil || pi.spec == nil || pi.wild && pi.name != modPath+".run" || pi.status == pairBusy || pi.why == "signatures differ" {
		return nil
	}
	if strings.HasPrefix(pi.name, reporterMethods) || pi.name == "internal/reporter.New" {
		return nil
	}
	return pi
}

// boundary: the functions that are uninterpreted when comparing self. A
// function is only left uninterpreted when both trees get to call it.
func (pr *pairing) boundary(level string, self *pairInfo, dirtyToo bool) func(fn *ssa.Function) bool {
	want := func(pi *pairInfo) bool {
		if contains(self.lookInto, pi.name) {
			return false
		}
		switch level {
		case "A":
			return pi.status == pairEqual || pr.opaque[pi.name] || dirtyToo && pi.status == pairDiffers && pi.definite
		case "B":
			return pr.opaque[pi.name]
		}
		return false
	}
	dropped := map[*pairInfo]bool{}
	for {
		hit := [2]map[*pairInfo]bool{{}, {}}
		for i, root := range []*ssa.Function{self.repo, self.spec} {
			seen := map[*ssa.Function]bool{}
			var walk func(f *ssa.Function)
			walk = func(f *ssa.Function) {
				if seen[f] {
					return
				}
				seen[f] = true
				for _, g := range callees(f) {
					if pi := pr.eligible(g, self); pi != nil && !dropped[pi] && want(pi) {
						hit[i][pi] = true
						continue
					}
					walk(g)
				}
			}
			walk(root)
		}
		n := len(dropped)
		for i := range hit {
			for pi := range hit[i] {
				if !hit[1-i][pi] {
					dropped[pi] = true
				}
			}
		}
		if len(dropped) == n {
			break
		}
	}
	return func(fn *ssa.Function) bool {
		pi := pr.eligible(fn, self)
		return pi != nil && !dropped[pi] && want(pi)
	}
}

func (pr *pairing) effectsOf(fn *ssa.Function) []string {
	if pi := pr.m[shortName(fn)]; pi != nil {
		return pi.classes
	}
	return nil
}

// decide compares a pair, after its callees
func (pr *pairing) decide(pi *pairInfo) {
	if pi.status != pairUnknown {
		return
	}
	if pi.repo == nil || pi.spec == nil {
		pi.status = pairDiffers
		pi.why = "only in one tree"
		for _, f := range []*ssa.Function{pi.repo, pi.spec} {
			if f != nil {
				pr.decideCallees(f)
			}
		}
		return
	}
	pi.status = pairBusy
	pr.decideCallees(pi.repo)
	pr.decideCallees(pi.spec)
	t0 := time.Now()
	defer func() { pi.took = time.Since(t0) }()
	for _, level := range []string{"A", "B", "C"} {
		if level != "A" && (pi.split != nil || pi.want == nil && level == "B") {
			// too large without cutting it up
			break
		}
		c := pr.compare(pi, level, false)
		for try := 0; try < 3 && level == "A" && c.why == "" && len(c.lostCalls) > 0; try++ {
			// look into the callees whose results are written to
			n := len(pi.lookInto)
			for k := range c.lostCalls {
				if !contains(pi.lookInto, k) {
					pi.lookInto = append(pi.lookInto, k)
				}
			}
			if len(pi.lookInto) == n {
				break
			}
			pi.wild, pi.memory, pi.sticky = false, false, nil
			c = pr.compare(pi, level, false)
		}
		if os.Getenv("TRACEDECIDE") != "" {
			fmt.Printf("DECIDE wild=%v lost=%v mem=%v %s %s why=%s diffs=%d unknown=%v nodes=%d\n", pi.wild, lostOf(pi), memOf(pi), pi.name, level, c.why, len(c.diffs), c.unknown, nodeCount)
		}
		if c.why != "" {
			if pi.why == "" {
				pi.why = c.why
			}
			continue
		}
		pi.level, pi.cases = level, c.cases
		if len(c.diffs) == 0 && level == "A" && pi.split == nil && c.lost && len(c.lostCalls) > 0 {
			// writes to what an uninterpreted callee returned: look into it
			pi.lost = true
			continue
		}
		if len(c.diffs) == 0 {
			pi.status = pairEqual
			pi.diffs, pi.why, pi.unknown = nil, "", nil
			return
		}
		pi.diffs, pi.unknown = c.diffs, c.unknown
	}
	pi.status = pairUndecided
	if pi.diffs == nil && pi.lost && pi.why == "" {
		pi.why = "writes that could not be followed"
	}
	if pi.diffs != nil {
		if len(pi.unknown) > 0 {
			pi.why = "differs, but uses " + strings.Join(pi.unknown, ", ")
			return
		}
		pi.status = pairDiffers
		pi.definite = true
		pi.why = ""
	}
}

// apart compares a pair apart from the functions it uses
func (pr *pairing) apart(pi *pairInfo) comparison {
	if pi.apart == nil {
		c := pr.compare(pi, "A", true)
		pi.apart = &c
	}
	return *pi.apart
}

type comparison struct {
	diffs     []diff
	unknown   []string
	why       string // not decided
	cases     int
	left      int // cases that were too large
	lostCalls map[string]bool
	lost      bool // writes that have no place in the value graph
}

// compare the two functions of a pair with some of their callees
// uninterpreted, in cases if need be
func (pr *pairing) compare(pi *pairInfo, level string, dirtyToo bool) comparison {
	bd := pr.boundary(level, pi, dirtyToo)
	paramTag = "/" + shortName(pi.spec)
	limit := 1000000
	var res comparison
	budget := nodeCount + 14000000
	var do func(label string, flags []string)
	do = func(label string, flags []string) {
		if res.why != "" || len(res.diffs) > 0 && nodeCount > budget-9000000 {
			return
		}
		n0 := nodeCount
		retry := func(why string) {
			if os.Getenv("TRACEDECIDE") != "" {
				fmt.Println("CASE", label, why, nodeCount-n0)
			}
			if why == tooLarge && len(flags) > 0 && nodeCount < budget {
				f := flags[0]
				old := pr.presets
				order := []*Node{F, T}
				if f == "list-packages" || strings.HasPrefix(f, "no-") || f == "version" || f == "list-ecosystems" {
					order = []*Node{T, F} // the smaller case first
				}
				for _, v := range order {
					pr.presets = map[string]*Node{f: v}
					for k, x := range old {
						pr.presets[k] = x
					}
					l := label + " -" + f
					if v == F {
						l = label + " -" + f + "=false"
					}
					do(l, flags[1:])
				}
				pr.presets = old
				return
			}
			if why == tooLarge && nodeCount < budget {
				// the other cases may still tell
				res.left++
				return
			}
			res.why = why
		}
		if label == "" && len(flags) > 0 || pr.presets["list-packages"] == F && len(pr.presets) < eager {
			retry(tooLarge)
			return
		}
		b, why := summarise(pr.p, pi.spec, true, bd, pr, level != "C", limit)
		if b == nil {
			if why != tooLarge {
				why = "reference: " + why
			}
			retry(why)
			return
		}
		for k := range b.traces {
			pi.addClass(k)
		}
		pi.noteMemory(b)
		a, why := summarise(pr.p, pi.repo, false, bd, pr, level != "C", limit)
		if a == nil {
			retry(why)
			return
		}
		for k := range a.traces {
			pi.addClass(k)
		}
		pi.noteMemory(a)
		nodeLimit = nodeCount + limit
		ds, why := outcomesApart(pi, a, b)
		if why != "" {
			retry(why)
			return
		}
		if os.Getenv("TRACEDECIDE") != "" {
			fmt.Println("CASE", label, len(ds), nodeCount-n0)
		}
		pi.got, pi.want = a, b
		res.cases++
		for _, d := range ds {
			d.given = strings.TrimSpace(label)
			res.diffs = append(res.diffs, d)
		}
		for _, m := range []map[string]bool{a.ev.lostCalls, b.ev.lostCalls} {
			for k := range m {
				if res.lostCalls == nil {
					res.lostCalls = map[string]bool{}
				}
				res.lostCalls[k] = true
			}
		}
		res.lost = res.lost || len(a.ev.lost)+len(b.ev.lost) > 0
		for k := range a.ev.unknownEx {
			if b.ev.unknownEx[k] == 0 && !contains(res.unknown, k) {
				res.unknown = append(res.unknown, k)
			}
		}
		for _, r := range [][2]map[string]bool{{a.ev.recs, b.ev.recs}, {b.ev.recs, a.ev.recs}} {
			for k := range r[0] {
				if w := "another form of recursion"; !r[1][k] && !contains(res.unknown, w) {
					res.unknown = append(res.unknown, w)
				}
			}
		}
		sort.Strings(res.unknown)
	}
	do("", pi.split)
	switch {
	case len(res.diffs) > 0 && res.why == tooLarge:
		res.why = ""
	case len(res.diffs) == 0 && res.left > 0 && res.why == "":
		res.why = tooLarge
	}
	return res
}

// outcomesApart compares outcomes, and says so if that is too much
func outcomesApart(pi *pairInfo, a, b *outcome) (ds []diff, why string) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			ds, why = nil, u.msg
		}
	}()
	return compareOutcomes(pi.repo, a, b), ""
}

var eager = 2

const tooLarge = "value graph too large"

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (pi *pairInfo) addClass(k string) {
	for _, c := range pi.classes {
		if c == k {
			return
		}
	}
	pi.classes = append(pi.classes, k)
	sort.Strings(pi.classes)
}

func (pr *pairing) decideCallees(fn *ssa.Function) {
	for _, g := range callees(fn) {
		if pi := pr.m[shortName(g)]; pi != nil {
			pr.decide(pi)
		}
	}
}

// noteMemory: whether all the function does to its arguments is to set flags
// of the reporter
func (pi *pairInfo) noteMemory(o *outcome) {
	if len(o.ev.lost) > 0 {
		pi.wild, pi.memory = true, true
	}
	for name, v := range o.mem {
		pi.memory = true
		k := o.keys[name]
		if k == nil || k.op != "fa" || k.args[0].leaf.op != "param" {
			pi.wild = true
			continue
		}
		i := paramIndex(rootOf(k).s)
		if !isReporterPtr(pi.repo.Signature, i) {
			pi.wild = true
			continue
		}
		old := fieldOf(k.args[0], k.s, tBool)
		bools := true
		for _, l := range leavesOf(v) {
			bools = bools && (leafOf(l) == T || leafOf(l) == F)
		}
		if old.leaf != nil || !bools || or(v, old) != v {
			pi.wild = true
			continue
		}
		has := false
		for _, s := range pi.sticky {
			has = has || s == k
		}
		if !has {
			pi.sticky = append(pi.sticky, k)
			sort.Slice(pi.sticky, func(i, j int) bool { return pi.sticky[i].s < pi.sticky[j].s })
		}
	}
}

func (pr *pairing) stickyOf(fn *ssa.Function) []*Term {
	if pi := pr.m[shortName(fn)]; pi != nil {
		return pi.sticky
	}
	return nil
}

func lostOf(pi *pairInfo) (out []string) {
	if pi.got != nil {
		for k := range pi.got.ev.lost {
			out = append(out, k)
		}
	}
	return
}

func memOf(pi *pairInfo) (out []string) {
	if pi.got != nil {
		for k := range pi.got.mem {
			out = append(out, k)
		}
	}
	return
}
