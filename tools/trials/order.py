L='pkg/lockfile/'; D='pkg/database/'; M='main.go'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,p,*e): edits[n]=('bug',p,list(e))
bug('q_parse_ver','C20',(L+'parse.go','''			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
''','''			return packages[i].Version < packages[j].Version
'''))
bug('q_parse_cond','C20',(L+'parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name''','''	if len(packages) > 64 {
		return Lockfile{FilePath: pathToLockfile, ParsedAs: parsedAs, Packages: packages}, err
	}

	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name'''))
bug('q_ecos','C20',(L+'parse.go','''	slices.Sort(slicedEcosystems)
''',''),(L+'parse.go','''	"slices"
''',''))
bug('q_readdir','C20',(M,'''	slices.Sort(lockfiles)
''',''))
bug('q_lines','C20',(M,'''	slices.Sort(lines)
''',''))
bug('q_ignores','C20',(M,'''		slices.Sort(ignores)
''','''		if len(ignores) < 2 {
			slices.Sort(ignores)
		}
'''))
bug('q_fetchall','C20',(D+'api-fetch-all.go','''	osvs := make(Vulnerabilities, len(ids))

	for i, id := range ids {
		eg.Go(func() error {''','''	osvs := make(Vulnerabilities, 0, len(ids))
	var mu sync.Mutex

	for _, id := range ids {
		eg.Go(func() error {'''),(D+'api-fetch-all.go','''			osvs[i] = osv
''','''			mu.Lock()
			osvs = append(osvs, osv)
			mu.Unlock()
'''),(D+'api-fetch-all.go','''	sort.Slice(osvs, func(i, j int) bool {
		return osvs[i].ID < osvs[j].ID
	})

''',''),(D+'api-fetch-all.go','"sort"','"sync"'))
same('q_fetchall_sorted',(D+'api-fetch-all.go','''	osvs := make(Vulnerabilities, len(ids))

	for i, id := range ids {
		eg.Go(func() error {''','''	osvs := make(Vulnerabilities, 0, len(ids))
	var mu sync.Mutex

	for _, id := range ids {
		eg.Go(func() error {'''),(D+'api-fetch-all.go','''			osvs[i] = osv
''','''			mu.Lock()
			osvs = append(osvs, osv)
			mu.Unlock()
'''),(D+'api-fetch-all.go','"sort"','"sort"\n\t"sync"'))
bug('q_check_append','C20',(D+'api-check.go','''			batchResults[i] = results
''','''			mu.Lock()
			batchResults = append(batchResults, results)
			mu.Unlock()
'''),(D+'api-check.go','''	for i, batch := range batches {''','''	var mu sync.Mutex
	for _, batch := range batches {'''),(D+'api-check.go','''	batchResults := make([][][]ObjectWithID, len(batches))
''','''	batchResults := make([][][]ObjectWithID, 0, len(batches))
'''),(D+'api-check.go','''	"net/http"
''','''	"net/http"
	"sync"
'''))
bug('q_list','C20',(L+'parse.go','''		return strings.ToLower(ps[i]) < strings.ToLower(ps[j])
''','''		return strings.ToLower(ps[i])[0] < strings.ToLower(ps[j])[0]
'''))
same('q_ecos_helper',(L+'parse.go','''	slicedEcosystems := toSliceOfEcosystems(ecosystems)

	slices.Sort(slicedEcosystems)

	return slicedEcosystems
''','''	return toSliceOfEcosystems(ecosystems)
'''),(L+'parse.go','''		ecosystems = append(ecosystems, ecosystem)
	}

	return ecosystems
''','''		ecosystems = append(ecosystems, ecosystem)
	}

	sort.Slice(ecosystems, func(i, j int) bool { return ecosystems[i] < ecosystems[j] })

	return ecosystems
'''),(L+'parse.go','''	"slices"
''',''))
same('q_parse_sortfunc',(L+'parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})
''','''	slices.SortFunc(packages, func(a, b PackageDetails) int {
		if c := strings.Compare(a.Name, b.Name); c != 0 {
			return c
		}
		if c := strings.Compare(a.Version, b.Version); c != 0 {
			return c
		}

		return strings.Compare(a.Commit, b.Commit)
	})
'''))
same('q_parse_stable',(L+'parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})
''','''	sort.SliceStable(packages, func(i, j int) bool {
		a, b := packages[i], packages[j]
		switch {
		case a.Name != b.Name:
			return a.Name < b.Name
		case a.Version != b.Version:
			return a.Version < b.Version
		default:
			return a.Commit < b.Commit
		}
	})
'''))
same('q_parse_cmpor',(L+'parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})
''','''	slices.SortFunc(packages, func(a, b PackageDetails) int {
		return cmp.Or(cmp.Compare(a.Name, b.Name), cmp.Compare(a.Version, b.Version), cmp.Compare(a.Commit, b.Commit))
	})
'''),(L+'parse.go','import (','import (\n\t"cmp"'),(L+'parse.go','''	"sort"
''','''	"sort"
'''))
same('q_keys',(M,'''		var ignores []string

		for id := range vulns {
			ignores = append(ignores, id)
		}
		slices.Sort(ignores)
''','''		ignores := slices.Sorted(maps.Keys(vulns))
'''),(M,'''	"io"
''','''	"io"
	"maps"
'''))

bug('q_warn_map','C20',(L+'parse-npm-lock.go','''	for namePath, detail := range packages {
		if namePath == "" {
			continue
		}
''','''	for namePath, detail := range packages {
		if namePath == "" {
			continue
		}
		if detail.Version == "" {
			fmt.Fprintf(os.Stderr, "%s has no version\\n", namePath)
		}
'''))
bug('q_cfg_direct','C20',(M,'''			lines = append(lines, fmt.Sprintf(
				"Updated''','''			r.PrintTextf("%s", fmt.Sprintf(
				"Updated'''))
