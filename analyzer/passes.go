package main

import (
	"go/token"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (c *checker) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := c.p.prog.Fset.Position(p)
	if r, err := filepath.Rel(repoDir(), pos.Filename); err == nil {
		return r + ":" + strconv.Itoa(pos.Line)
	}
	return pos.String()
}

// inProgram: functions of the program itself, not of the reference or of
// tools that are not part of the program
func (c *checker) inProgram(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil || fn.Pkg.Pkg == nil {
		return false
	}
	path := fn.Pkg.Pkg.Path()
	if !c.linked()[path] {
		return false
	}
	return true
}

var linkedPkgs map[string]bool

// linked: the packages of the module that end up in the program
func (c *checker) linked() map[string]bool {
	if linkedPkgs != nil {
		return linkedPkgs
	}
	linkedPkgs = map[string]bool{}
	var walk func(path string)
	walk = func(path string) {
		if linkedPkgs[path] || path != modPath && !strings.HasPrefix(path, modPath+"/") {
			return
		}
		sp := c.p.pkgs[path]
		if sp == nil {
			return
		}
		linkedPkgs[path] = true
		for _, im := range sp.Pkg.Imports() {
			walk(im.Path())
		}
	}
	walk(modPath)
	return linkedPkgs
}

var moduleFns []*ssa.Function

// moduleFuncs: all functions of the program's own packages, with closures
func (c *checker) moduleFuncs() []*ssa.Function {
	if moduleFns != nil {
		return moduleFns
	}
	for fn := range ssautil.AllFunctions(c.p.prog) {
		if len(fn.Blocks) == 0 || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if c.inProgram(fn) {
			moduleFns = append(moduleFns, fn)
		}
	}
	sort.Slice(moduleFns, func(i, j int) bool {
		if moduleFns[i].Pos() != moduleFns[j].Pos() {
			return moduleFns[i].Pos() < moduleFns[j].Pos()
		}
		return moduleFns[i].String() < moduleFns[j].String()
	})
	return moduleFns
}

var siteIndex map[*ssa.Function][]ssa.CallInstruction

// sites: where a function is called directly
func (c *checker) sites(fn *ssa.Function) []ssa.CallInstruction {
	if siteIndex == nil {
		siteIndex = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range c.moduleFuncs() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil {
							siteIndex[g] = append(siteIndex[g], call)
						}
					}
				}
			}
		}
	}
	return siteIndex[fn]
}
