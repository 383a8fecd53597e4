package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	where, what string
	got, want   string
	given       string
	known       string // set when it is listed as a known finding
}

type checker struct {
	p    *program
	pr   *pairing
	tier string
	// what was looked at
	obligations []map[string]any
	undecided   []string
	info        map[string]any
}

func matches(aspects, what string) bool {
	for _, a := range strings.Fields(aspects) {
		switch {
		case a == "all":
			return true
		case a == "res" && strings.HasPrefix(what, "result "),
			a == "err" && strings.HasPrefix(what, "error result "),
			a == "mem" && strings.HasPrefix(what, "memory "),
			strings.HasPrefix(a, "res:") && what == "result "+a[4:],
			strings.HasPrefix(a, "eff:") && what == "effects "+a[4:]:
			return true
		case what == "signature":
			return true
		}
	}
	return false
}

// position of a function
func (c *checker) at(fn *ssa.Function) string {
	if fn == nil || !fn.Pos().IsValid() {
		return "?"
	}
	pos := c.p.prog.Fset.Position(fn.Pos())
	if r, err := filepath.Rel(repoDir(), pos.Filename); err == nil {
		return r + ":" + strconv.Itoa(pos.Line)
	}
	return pos.String()
}

// dirty: functions used by fn that are known to differ from their reference
func (c *checker) dirty(pi *pairInfo) []*pairInfo {
	seen := map[*ssa.Function]bool{}
	got := map[*pairInfo]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range callees(f) {
			if x := c.pr.m[shortName(g)]; x != nil && x != pi && x.definite && !x.wild {
				got[x] = true
			}
			if x := c.pr.m[shortName(g)]; x != nil && c.pr.opaque[x.name] {
				continue
			}
			walk(g)
		}
	}
	walk(pi.repo)
	walk(pi.spec)
	var out []*pairInfo
	for x := range got {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var listed map[string]bool

// giveUps: a part of the analysis that cannot go on leaves its obligation open
func (c *checker) giveUps(what string) {
	if x := recover(); x != nil {
		if os.Getenv("TRACEDECIDE") != "" {
			panic(x)
		}
		why := fmt.Sprint("the analysis stopped: ", x)
		if u, ok := x.(undecided); ok {
			why = u.msg
		}
		c.undecided = append(c.undecided, what+": "+why)
	}
}

func (c *checker) decideDuties(prop *property) []finding {
	if listed == nil {
		listed = map[string]bool{}
		for _, q := range properties {
			for _, du := range q.duties {
				listed[du.fn] = true
			}
		}
	}
	var out []finding
	helpers := map[string]string{}
	for _, du := range prop.duties {
		if du.helper {
			helpers[du.fn] = du.aspects
		}
	}
	blamed := map[string]bool{}
	add := func(pi *pairInfo, aspects string) bool {
		hit := false
		for _, df := range pi.diffs {
			if !matches(aspects, df.what) || prop.filter != nil && !prop.filter(c, pi, df) {
				continue
			}
			hit = true
			k := pi.name + df.what
			if blamed[k] {
				continue
			}
			blamed[k] = true
			out = append(out, finding{where: c.at(pi.repo) + " " + pi.name, what: df.what, got: df.got, want: df.want, given: df.given})
		}
		return hit
	}
	one := func(du duty) {
		defer c.giveUps(du.fn)
		pi := c.pr.m[du.fn]
		if pi == nil || pi.repo == nil || pi.spec == nil {
			c.undecided = append(c.undecided, du.fn+": not found")
			return
		}
		c.pr.decide(pi)
		ob := map[string]any{"function": pi.name, "at": c.at(pi.repo), "aspects": du.aspects, "level": pi.level, "cases": pi.cases, "seconds": pi.took.Seconds()}
		c.obligations = append(c.obligations, ob)
		if pi.status == pairEqual {
			ob["outcome"] = "equal"
			return
		}
		ob["outcome"] = "differs"
		if pi.status == pairUndecided {
			ob["outcome"] = "undecided: " + pi.why
		}
		// is the anchor itself the same, apart from functions it uses?
		dirty := c.dirty(pi)
		if len(dirty) > 0 && !prop.panics {
			if cmp := c.pr.apart(pi); cmp.why == "" && len(cmp.diffs) == 0 {
				anyListed := false
				for _, x := range dirty {
					if !c.selfDirty(x) {
						continue
					}
					anyListed = anyListed || listed[x.name]
					if a, ok := helpers[x.name]; ok && add(x, a) {
						ob["blamed"] = x.name
					}
				}
				if anyListed {
					return
				}
			}
		}
		if pi.status == pairDiffers && pi.definite {
			add(pi, du.aspects)
			return
		}
		c.undecided = append(c.undecided, pi.name+": "+pi.why)
	}
	for _, du := range prop.duties {
		if !du.helper {
			one(du)
		}
	}
	return out
}

// selfDirty: the function differs even if the functions it uses do not
func (c *checker) selfDirty(pi *pairInfo) bool {
	if len(c.dirty(pi)) == 0 {
		return true
	}
	cmp := c.pr.apart(pi)
	return cmp.why != "" || len(cmp.diffs) > 0
}

func cmdCheck(id, tier string) int {
	t0 := time.Now()
	var prop *property
	for i := range properties {
		if properties[i].id == id {
			prop = &properties[i]
		}
	}
	if prop == nil {
		fmt.Println("no such property:", id)
		return 2
	}
	p, err := loadProgram()
	if err != nil {
		fmt.Println("cannot load the source:", err)
		return 2
	}
	c := &checker{p: p, tier: tier, info: map[string]any{}}
	c.pr = newPairing(p)
	c.pr.opaque = contracts
	c.pr.panics = prop.panics
	fs := c.decideDuties(prop)
	for i, pass := range prop.passes {
		func() {
			defer c.giveUps("pass " + strconv.Itoa(i+1))
			fs = append(fs, pass(c)...)
		}()
	}
	var open []finding
	for _, f := range fs {
		if f.known != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.known)
			continue
		}
		open = append(open, f)
	}
	replay := filepath.Join(verifDir(), "evidence", "replay", id+".txt")
	_ = os.MkdirAll(filepath.Dir(replay), 0o755)
	if len(open) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is violated by:\n\n", id)
		for _, f := range open {
			fmt.Fprintf(&b, "%s\n  %s\n", f.where, f.what)
			if f.given != "" {
				fmt.Fprintf(&b, "  given %s\n", f.given)
			}
			if f.got != "" || f.want != "" {
				fmt.Fprintf(&b, "  found:    %.4000s\n  expected: %.4000s\n", f.got, f.want)
			}
			fmt.Fprintln(&b)
		}
		_ = os.WriteFile(replay, []byte(b.String()), 0o644)
	} else {
		_ = os.Remove(replay)
	}
	equal := 0
	for _, o := range c.obligations {
		if o["outcome"] == "equal" || o["outcome"] == "holds" {
			equal++
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.info["explanation"] = "static analysis of /repo's current source: " + strconv.Itoa(len(c.obligations)) + " obligations, " + strconv.Itoa(equal) + " discharged"
	c.info["obligations"] = len(c.obligations)
	c.info["discharged"] = equal
	c.info["details"] = c.obligations
	c.info["undecided"] = c.undecided
	c.info["files"] = p.files
	c.info["value_graph_nodes"] = nodeCount
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": c.info,
		"wall_s": time.Since(t0).Seconds(), "violations": len(open),
		"assumptions": []string{
			"functions of the standard library and of dependencies do what their models say, or are deterministic functions of their arguments",
			"the reference in /verif/spec has the property",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
	for _, u := range c.undecided {
		fmt.Println("UNDECIDED:", u)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations (%.1f s)\n", id, len(c.obligations), equal, len(open), time.Since(t0).Seconds())
	if len(open) > 0 {
		for _, f := range open {
			fmt.Printf("  %s: %s\n", f.where, f.what)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

// cmdCheckAll decides all properties at once, for trying out changes
func cmdCheckAll() int {
	p, err := loadProgram()
	if err != nil {
		fmt.Println("cannot load the source:", err)
		return 2
	}
	pr := newPairing(p)
	pr.opaque = contracts
	for i := range properties {
		c := &checker{p: p, pr: pr, tier: "quick", info: map[string]any{}}
		if properties[i].panics {
			c.pr = newPairing(p)
			c.pr.opaque, c.pr.panics = contracts, true
		}
		fs := c.decideDuties(&properties[i])
		for _, pass := range properties[i].passes {
			fs = append(fs, pass(c)...)
		}
		for _, f := range fs {
			if f.known != "" {
				continue
			}
			fmt.Printf("%s VIOLATED %s: %s\n", properties[i].id, f.where, f.what)
			if os.Getenv("VERBOSE") != "" {
				fmt.Printf("      given %s\n      got  %.3000s\n      want %.3000s\n", f.given, f.got, f.want)
			}
		}
		for _, u := range c.undecided {
			fmt.Printf("%s UNDECIDED %s\n", properties[i].id, u)
		}
	}
	return 0
}
