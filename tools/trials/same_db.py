D='pkg/database/'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
same('osv_version_switch',(D+'osv.go','''	if e.Introduced != "" {
		return e.Introduced
	}

	if e.Fixed != "" {
		return e.Fixed
	}

	if e.LastAffected != "" {
		return e.LastAffected
	}

	return ""
''','''	switch {
	case e.Introduced != "":
		return e.Introduced
	case e.Fixed != "":
		return e.Fixed
	default:
		return e.LastAffected
	}
'''))
same('osv_contains_helper',(D+'osv.go','''	var affected bool
	for _, e := range ar.Events {
		if affected {
			if e.Fixed != "" {
				order, _ := vp.CompareStr(e.Fixed)
				affected = order < 0
			} else if e.LastAffected != "" {
				order, _ := vp.CompareStr(e.LastAffected)
				affected = e.LastAffected == pkg.Version || order <= 0
			}
		} else if e.Introduced != "" {
			order, _ := vp.CompareStr(e.Introduced)
			affected = e.Introduced == "0" || order >= 0
		}
	}

	return affected
}
''','''	affected := false
	for i := range ar.Events {
		affected = applyEvent(ar.Events[i], vp, pkg.Version, affected)
	}

	return affected
}

func applyEvent(e RangeEvent, vp semantic.Version, version string, affected bool) bool {
	if !affected {
		if e.Introduced == "" {
			return false
		}

		if e.Introduced == "0" {
			return true
		}

		order, _ := vp.CompareStr(e.Introduced)

		return order >= 0
	}

	switch {
	case e.Fixed != "":
		order, _ := vp.CompareStr(e.Fixed)

		return order < 0
	case e.LastAffected != "":
		if e.LastAffected == version {
			return true
		}
		order, _ := vp.CompareStr(e.LastAffected)

		return order <= 0
	}

	return true
}
'''))
same('osv_sort_named',(D+'osv.go','''	sort.Slice(ar.Events, func(i, j int) bool {
		a := ar.Events[i]
		b := ar.Events[j]

		if a.Introduced == "0" {
			return true
		}

		if b.Introduced == "0" {
			return false
		}

		// Ignore errors as we assume the version is correct
		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())

		return order < 0
	})
''','''	sortEvents(ar.Events, string(pkg.CompareAs))
'''),(D+'osv.go','''type Affects []AffectsRange
''','''func sortEvents(events []RangeEvent, ecosystem string) {
	sort.Slice(events, func(i, j int) bool {
		first, second := events[i], events[j]

		switch {
		case first.Introduced == "0":
			return true
		case second.Introduced == "0":
			return false
		}

		order, _ := semantic.MustParse(first.version(), ecosystem).CompareStr(second.version())

		return order < 0
	})
}

type Affects []AffectsRange
'''))
same('osv_affects_dupe_check',(D+'osv.go','''		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			continue
		}
		if r.containsVersion(pkg) {
			return true
		}
	}

	return false
''','''		if r.containsVersion(pkg) {
			return true
		}
	}

	return false
'''))
same('osv_affects_containsfunc',(D+'osv.go','''	for _, r := range a {
		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			continue
		}
		if r.containsVersion(pkg) {
			return true
		}
	}

	return false
''','''	return slices.ContainsFunc(a, func(r AffectsRange) bool {
		return r.containsVersion(pkg)
	})
'''))
same('osv_isaffected_split',(D+'osv.go','''	for _, affected := range osv.Affected {
		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
			affected.Package.NormalizedName() == name {
			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
				_, _ = fmt.Fprintf(
					os.Stderr,
					"%s does not have any ranges or versions - this is probably a mistake!\\n",
					osv.ID,
				)

				continue
			}

			if slices.Contains(affected.Versions, pkg.Version) {
				return true
			}

			if affected.Ranges.affectsVersion(pkg) {
				return true
			}

			if pkg.Version == "" {
				return true
			}
		}
	}

	return false
}''','''	for i := range osv.Affected {
		affected := &osv.Affected[i]

		if !areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) {
			continue
		}

		if affected.Package.NormalizedName() != name {
			continue
		}

		if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
			_, _ = fmt.Fprintf(
				os.Stderr,
				"%s does not have any ranges or versions - this is probably a mistake!\\n",
				osv.ID,
			)

			continue
		}

		if affected.includes(pkg) {
			return true
		}
	}

	return false
}

func (a *Affected) includes(pkg internal.PackageDetails) bool {
	return pkg.Version == "" ||
		slices.Contains(a.Versions, pkg.Version) ||
		a.Ranges.affectsVersion(pkg)
}'''))
same('osv_ecosystems_nested',(D+'osv.go','''	aEcosystem, aSuffix, _ := strings.Cut(string(a), ":")
	bEcosystem, bSuffix, _ := strings.Cut(string(b), ":")

	// only care about the minor version if both ecosystems have one
	// otherwise we just assume that they're the same and move on
	if aSuffix != "" && bSuffix != "" {
		return aEcosystem == bEcosystem && aSuffix == bSuffix
	}

	return aEcosystem == bEcosystem
''','''	nameA, suffixA, _ := strings.Cut(string(a), ":")
	nameB, suffixB, _ := strings.Cut(string(b), ":")

	if nameA != nameB {
		return false
	}

	return suffixA == "" || suffixB == "" || suffixA == suffixB
'''))
same('osv_alias_split',(D+'osv.go','''	for _, alias := range vulnerability.Aliases {
		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {
			return true
		}
	}

	return false
''','''	if slices.Contains(vulnerability.Aliases, osv.ID) {
		return true
	}

	for _, alias := range osv.Aliases {
		if slices.Contains(vulnerability.Aliases, alias) {
			return true
		}
	}

	return false
'''))
same('vul_includes_or',(D+'vulnerabilities.go','''		if osv.ID == vulnerability.ID {
			return true
		}

		if osv.isAliasOf(vulnerability) {
			return true
		}
		if vulnerability.isAliasOf(osv) {
			return true
		}
''','''		if osv.ID == vulnerability.ID || osv.isAliasOf(vulnerability) || vulnerability.isAliasOf(osv) {
			return true
		}
'''))
same('vul_includes_containsfunc',(D+'vulnerabilities.go','''	for _, osv := range vs {
		if osv.ID == vulnerability.ID {
			return true
		}

		if osv.isAliasOf(vulnerability) {
			return true
		}
		if vulnerability.isAliasOf(osv) {
			return true
		}
	}

	return false
''','''	return slices.ContainsFunc(vs, func(osv OSV) bool {
		return osv.ID == vulnerability.ID ||
			osv.isAliasOf(vulnerability) ||
			vulnerability.isAliasOf(osv)
	})
'''),(D+'vulnerabilities.go','''	"fmt"
''','''	"fmt"
	"slices"
'''))
same('vul_includes_helper',(D+'vulnerabilities.go','''		if osv.ID == vulnerability.ID {
			return true
		}

		if osv.isAliasOf(vulnerability) {
			return true
		}
		if vulnerability.isAliasOf(osv) {
			return true
		}
	}

	return false
}
''','''		if isSame(&osv, &vulnerability) {
			return true
		}
	}

	return false
}

func isSame(a, b *OSV) bool {
	return a.ID == b.ID || a.isAliasOf(*b) || b.isAliasOf(*a)
}
'''))
same('mem_hash_helper',(D+'mem-check.go','''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns := db.vulnerabilities[hash]

		if vulns == nil {
			vulns = []OSV{}
		}

		db.vulnerabilities[hash] = append(vulns, osv)
''','''		hash := hashOf(affected.Package)

		db.vulnerabilities[hash] = append(db.vulnerabilities[hash], osv)
'''),(D+'mem-check.go','''	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()

	if vulns, ok := db.vulnerabilities[hash]; ok {
		for _, vulnerability := range vulns {
			if vulnerability.Withdrawn == nil && vulnerability.IsAffected(pkg) && !vulnerabilities.Includes(vulnerability) {
				vulnerabilities = append(vulnerabilities, vulnerability)
			}
		}
	}

	return vulnerabilities
}
''','''	for _, vulnerability := range db.vulnerabilities[hashOf(Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem})] {
		if vulnerability.Withdrawn != nil {
			continue
		}

		if !vulnerability.IsAffected(pkg) {
			continue
		}

		if vulnerabilities.Includes(vulnerability) {
			continue
		}

		vulnerabilities = append(vulnerabilities, vulnerability)
	}

	return vulnerabilities
}

func hashOf(p Package) string {
	return fmt.Sprintf("%s-%s", p.NormalizedEcosystem(), p.NormalizedName())
}
'''),(D+'mem-check.go','''import (
''','''import (
	"fmt"

'''))
same('mem_check_index',(D+'mem-check.go','''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	for _, pkg := range pkgs {
		vulnerabilities = append(vulnerabilities, db.VulnerabilitiesAffectingPackage(pkg))
	}

	return vulnerabilities, nil
''','''	results := make([]Vulnerabilities, len(pkgs))

	for i := range pkgs {
		results[i] = db.VulnerabilitiesAffectingPackage(pkgs[i])
	}

	return results, nil
'''))
same('mem_add_filter',(D+'mem-check.go','''	if len(pkgNames) != 0 && !mightAffectPackages(osv, pkgNames) {
		return
	}

	for _, affected''','''	shouldLoad := len(pkgNames) == 0 || mightAffectPackages(osv, pkgNames)

	if !shouldLoad {
		return
	}

	for _, affected'''))
same('mem_vulns_bool',(D+'mem-check.go','''	ids := make(map[string]struct{})
''','''	ids := map[string]bool{}
'''),(D+'mem-check.go','''			if _, ok := ids[vulnerability.ID]; ok {
				continue
			}

			if (vulnerability.Withdrawn == nil) || includeWithdrawn {
				vulnerabilities = append(vulnerabilities, vulnerability)
				ids[vulnerability.ID] = struct{}{}
			}
''','''			if ids[vulnerability.ID] {
				continue
			}

			if vulnerability.Withdrawn != nil && !includeWithdrawn {
				continue
			}

			ids[vulnerability.ID] = true
			vulnerabilities = append(vulnerabilities, vulnerability)
'''))
same('api_payload_early',(D+'api-check.go','''	var query apiQuery

	// this mirrors the logic used by the osv-scalibr vulnmatch enricher
	if pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != "" {
		query.Package.Name = pkg.Name
		query.Package.Ecosystem = pkg.Ecosystem
		query.Version = pkg.Version
	} else if pkg.Commit != "" {
		query.Commit = pkg.Commit
	}

	return query
''','''	hasVersion := pkg.Name != "" && pkg.Ecosystem != "" && pkg.Version != ""

	if !hasVersion {
		return apiQuery{Commit: pkg.Commit}
	}

	query := apiQuery{Version: pkg.Version}
	query.Package.Name = pkg.Name
	query.Package.Ecosystem = pkg.Ecosystem

	return query
'''))
same('api_post_helper',(D+'api-check.go','''	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return [][]ObjectWithID{}, fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)
	}

	defer resp.Body.Close()

	var body []byte

	body, err = io.ReadAll(resp.Body)

	if resp.StatusCode != http.StatusOK {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s %d)",
			ErrAPIUnexpectedResponse,
			resp.Request.Method,
			resp.Request.URL,
			resp.StatusCode,
		)
	}

	if err != nil {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,
			resp.Request.Method,
			resp.Request.URL,
			err,
		)
	}
''','''	body, resp, err := doRequest(req)

	if err != nil {
		return [][]ObjectWithID{}, err
	}
'''),(D+'api-check.go','''func batchPkgs(''','''// doRequest sends the request and returns the body of its response
func doRequest(req *http.Request) ([]byte, *http.Response, error) {
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return nil, nil, fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)
	}

	defer resp.Body.Close()

	body, err := io.ReadAll(resp.Body)

	if resp.StatusCode != http.StatusOK {
		return nil, resp, fmt.Errorf(
			"%w (%s %s %d)",
			ErrAPIUnexpectedResponse,
			resp.Request.Method,
			resp.Request.URL,
			resp.StatusCode,
		)
	}

	if err != nil {
		return nil, resp, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,
			resp.Request.Method,
			resp.Request.URL,
			err,
		)
	}

	return body, resp, nil
}

func batchPkgs('''))
same('api_fetch_helper_both',(D+'api-fetch.go','''	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return osv, fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)
	}

	defer resp.Body.Close()

	var body []byte

	body, err = io.ReadAll(resp.Body)

	if resp.StatusCode != http.StatusOK {
		return osv, fmt.Errorf(
			"%w (%s %s %d)",
			ErrAPIUnexpectedResponse,
			resp.Request.Method,
			resp.Request.URL,
			resp.StatusCode,
		)
	}

	if err != nil {
		return osv, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,
			resp.Request.Method,
			resp.Request.URL,
			err,
		)
	}

	err = json.Unmarshal(body, &osv)

	if err != nil {
		return osv, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIResponseNotJSON,
			resp.Request.Method,
			resp.Request.URL,
			err,
		)
	}

	return osv, nil
}
''','''	if err := doJSON(req, &osv); err != nil {
		return osv, err
	}

	return osv, nil
}

func doJSON(req *http.Request, into *OSV) error {
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return fmt.Errorf("%w: %w", ErrAPIRequestFailed, err)
	}

	defer func() {
		_ = resp.Body.Close()
	}()

	body, err := io.ReadAll(resp.Body)
	where := resp.Request.Method + " " + resp.Request.URL.String()

	switch {
	case resp.StatusCode != http.StatusOK:
		return fmt.Errorf("%w (%s %d)", ErrAPIUnexpectedResponse, where, resp.StatusCode)
	case err != nil:
		return fmt.Errorf("%w (%s): %w", ErrAPIUnreadableResponse, where, err)
	}

	if err := json.Unmarshal(body, into); err != nil {
		return fmt.Errorf("%w (%s): %w", ErrAPIResponseNotJSON, where, err)
	}

	return nil
}
'''))
same('api_batch_loop',(D+'api-check.go','''	batches := make(
		[][]internal.PackageDetails,
		0,
		(len(pkgs)/batchSize)+int(math.Min(float64(len(pkgs)%batchSize), 1)),
	)

	for i := 0; i < len(pkgs); i += batchSize {
		end := min(i+batchSize, len(pkgs))

		batches = append(batches, pkgs[i:end])
	}

	return batches
''','''	var batches [][]internal.PackageDetails

	for start := 0; start < len(pkgs); start += batchSize {
		end := start + batchSize

		if end > len(pkgs) {
			end = len(pkgs)
		}

		batches = append(batches, pkgs[start:end])
	}

	return batches
'''),(D+'api-check.go','''	"math"
''',''))
same('api_batch_chunk',(D+'api-check.go','''	batches := make(
		[][]internal.PackageDetails,
		0,
		(len(pkgs)/batchSize)+int(math.Min(float64(len(pkgs)%batchSize), 1)),
	)

	for i := 0; i < len(pkgs); i += batchSize {
		end := min(i+batchSize, len(pkgs))

		batches = append(batches, pkgs[i:end])
	}

	return batches
''','''	return slices.Collect(slices.Chunk(pkgs, batchSize))
'''),(D+'api-check.go','''	"math"
''',''),(D+'api-check.go','''	"path"
''','''	"path"
	"slices"
'''))
same('api_check_merged_loops',(D+'api-check.go','''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	// todo: pretty sure some of these loops and slices can be merged and simplified
	for _, results := range batchResults {
		for _, withIDs := range results {
			vulns := make(Vulnerabilities, 0, len(withIDs))

			for _, withID := range withIDs {
				vulns = append(vulns, OSV{ID: withID.ID})
			}

			vulnerabilities = append(vulnerabilities, vulns)
		}
	}

	var osvs Vulnerabilities

	for _, vulns := range vulnerabilities {
		osvs = append(osvs, vulns...)
	}
''','''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	var osvs Vulnerabilities

	for _, results := range batchResults {
		for _, withIDs := range results {
			vulns := make(Vulnerabilities, 0, len(withIDs))

			for _, withID := range withIDs {
				vulns = append(vulns, OSV{ID: withID.ID})
			}

			osvs = append(osvs, vulns...)
			vulnerabilities = append(vulnerabilities, vulns)
		}
	}
'''))
same('api_check_extract',(D+'api-check.go','''	batches := batchPkgs(pkgs, db.BatchSize)

	var eg errgroup.Group

	// use a sensible upper limit so it's not possible to have inf. operations going
	// even though it's very unlikely there will be more than a couple of batches
	eg.SetLimit(100)

	batchResults := make([][][]ObjectWithID, len(batches))

	for i, batch := range batches {
		eg.Go(func() error {
			results, err := db.checkBatch(batch)

			if err != nil {
				return err
			}

			batchResults[i] = results

			return nil
		})
	}

	err := eg.Wait()

	if err != nil {
		return nil, err
	}
''','''	batchResults, err := db.checkBatches(batchPkgs(pkgs, db.BatchSize))

	if err != nil {
		return nil, err
	}
'''),(D+'api-check.go','''func (db APIDB) Check(''','''func (db APIDB) checkBatches(batches [][]internal.PackageDetails) ([][][]ObjectWithID, error) {
	var eg errgroup.Group

	eg.SetLimit(100)

	batchResults := make([][][]ObjectWithID, len(batches))

	for i := range batches {
		eg.Go(func() error {
			var err error
			batchResults[i], err = db.checkBatch(batches[i])

			return err
		})
	}

	if err := eg.Wait(); err != nil {
		return nil, err
	}

	return batchResults, nil
}

func (db APIDB) Check('''))
same('api_find_map',(D+'api-check.go','''	for _, vuln := range vulns {
		if vuln.ID == def.ID {
			return vuln
		}
	}

	return def
''','''	i := slices.IndexFunc(vulns, func(vuln OSV) bool { return vuln.ID == def.ID })

	if i == -1 {
		return def
	}

	return vulns[i]
'''),(D+'api-check.go','''	"path"
''','''	"path"
	"slices"
'''))
same('api_joinpath_local',(D+'api-fetch.go','''	u := *db.BaseURL

	u.Path = path.Join(u.Path, "vulns", id)

	return u.String()
''','''	return db.endpoint("vulns", id)
'''),(D+'api-check.go','''	u := *db.BaseURL

	u.Path = path.Join(u.Path, "querybatch")

	return u.String()
''','''	return db.endpoint("querybatch")
}

func (db APIDB) endpoint(parts ...string) string {
	u := *db.BaseURL

	u.Path = path.Join(append([]string{u.Path}, parts...)...)

	return u.String()
'''),(D+'api-fetch.go','''	"net/http"
	"path"
''','''	"net/http"
'''))
same('api_fetchall_sortfunc',(D+'api-fetch-all.go','''	sort.Slice(osvs, func(i, j int) bool {
		return osvs[i].ID < osvs[j].ID
	})
''','''	slices.SortFunc(osvs, func(a, b OSV) int {
		return strings.Compare(a.ID, b.ID)
	})
'''),(D+'api-fetch-all.go','''	"sort"
''','''	"slices"
	"strings"
'''))
same('api_fetchall_wg',(D+'api-fetch-all.go','''	var eg errgroup.Group

	eg.SetLimit(200)

	osvs := make(Vulnerabilities, len(ids))

	for i, id := range ids {
		eg.Go(func() error {
			// if we error, still report the vulnerability as hopefully the ID should be
			// enough to manually look up the details - in future we should ideally warn
			// the user too, but for now we just silently eat the error
			osv, _ := db.Fetch(id)

			osvs[i] = osv

			return nil
		})
	}

	// errors are handled within the go routines
	_ = eg.Wait()
''','''	osvs := make(Vulnerabilities, len(ids))

	var wg sync.WaitGroup

	for i, id := range ids {
		wg.Add(1)

		go func() {
			defer wg.Done()

			osvs[i], _ = db.Fetch(id)
		}()
	}

	wg.Wait()
'''),(D+'api-fetch-all.go','''	"sort"

	"golang.org/x/sync/errgroup"
''','''	"sort"
	"sync"
'''))
same('config_ident_parts',(D+'config.go','''	id := dbc.Type + "#" + dbc.URL

	if dbc.WorkingDirectory != "" {
		id += "#" + dbc.WorkingDirectory
	}

	return id
''','''	parts := []string{dbc.Type, dbc.URL}

	if dbc.WorkingDirectory != "" {
		parts = append(parts, dbc.WorkingDirectory)
	}

	return strings.Join(parts, "#")
'''),(D+'config.go','''	"fmt"
''','''	"fmt"
	"strings"
'''))
same('config_ident_sprintf',(D+'config.go','''	id := dbc.Type + "#" + dbc.URL

	if dbc.WorkingDirectory != "" {
		id += "#" + dbc.WorkingDirectory
	}

	return id
''','''	if dbc.WorkingDirectory == "" {
		return fmt.Sprintf("%s#%s", dbc.Type, dbc.URL)
	}

	return fmt.Sprintf("%s#%s#%s", dbc.Type, dbc.URL, dbc.WorkingDirectory)
'''))
same('config_load_if',(D+'config.go','''	switch config.Type {
	case "zip":
		return NewZippedDB(config, offline, pkgNames)
	case "api":
		return NewAPIDB(config, offline, batchSize)
	case "dir":
		return NewDirDB(config, offline, pkgNames)
	}

	return nil,''','''	if config.Type == "api" {
		return NewAPIDB(config, offline, batchSize)
	}

	if config.Type == "dir" {
		return NewDirDB(config, offline, pkgNames)
	}

	if config.Type == "zip" {
		return NewZippedDB(config, offline, pkgNames)
	}

	return nil,'''))
same('dir_entry_helper',(D+'dir.go','''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}

		content, err := os.ReadFile(path)
		if err != nil {
			errored = true
			_, _ = fmt.Fprintf(os.Stderr, "\\n%v", err)

			return nil
		}

		var pa OSV
		if err := json.Unmarshal(content, &pa); err != nil {
			errored = true
			_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", info.Name(), err)

			return nil
		}

		db.addVulnerability(pa, pkgNames)

		return nil
	})
''','''		if strings.HasSuffix(info.Name(), ".json") && !db.loadFile(path, info.Name(), pkgNames) {
			errored = true
		}

		return nil
	})
'''),(D+'dir.go','''func NewDirDB(''','''// loadFile loads a single advisory, returning if it could be
func (db *DirDB) loadFile(path string, name string, pkgNames []string) bool {
	content, err := os.ReadFile(path)
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "\\n%v", err)

		return false
	}

	var pa OSV
	if err := json.Unmarshal(content, &pa); err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "%s is not a valid JSON file: %v\\n", name, err)

		return false
	}

	db.addVulnerability(pa, pkgNames)

	return true
}

func NewDirDB('''))
same('dir_cutprefix',(D+'dir.go','''	p := filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory)
	errored := false
''','''	root := strings.TrimPrefix(u.Path, "/")
	p := filepath.Join(root, db.WorkingDirectory)

	var errored bool
'''))
same('zip_cache_helper',(D+'zip.go','''	var cache *Cache
	cachePath := db.cachePath()

	if cacheContent, err := os.ReadFile(cachePath); err == nil {
		err := json.Unmarshal(cacheContent, &cache)

		if err != nil {
			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\\n", cachePath, err)

			// decoding can fail after having already populated some of the cache
			cache = nil
		}
	}
''','''	cachePath := db.cachePath()
	cache := readCache(cachePath)
'''),(D+'zip.go','''func mightAffectPackages(''','''func readCache(cachePath string) *Cache {
	content, err := os.ReadFile(cachePath)

	if err != nil {
		return nil
	}

	var cache *Cache

	if err := json.Unmarshal(content, &cache); err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\\n", cachePath, err)

		return nil
	}

	return cache
}

func mightAffectPackages('''))
same('zip_write_helper',(D+'zip.go','''	cacheContents, err := json.Marshal(cache)

	if err == nil {
		//nolint:gosec // being world readable is fine
		err = os.WriteFile(cachePath, cacheContents, 0644)

		if err != nil {
			_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\\n", cachePath, err)
		}
	}

	return body, nil
}
''','''	writeCache(cachePath, cache)

	return body, nil
}

func writeCache(cachePath string, cache *Cache) {
	contents, err := json.Marshal(cache)

	if err != nil {
		return
	}

	//nolint:gosec // being world readable is fine
	if err := os.WriteFile(cachePath, contents, 0644); err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\\n", cachePath, err)
	}
}
'''))
same('zip_status_switch',(D+'zip.go','''	if resp.StatusCode == http.StatusNotModified && cache != nil {
		db.UpdatedAt = cache.Date

		return cache.Body, nil
	} else if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("%w (%s)", ErrUnexpectedStatusCode, resp.Status)
	}

	var body []byte

	body, err = io.ReadAll(resp.Body)
''','''	switch resp.StatusCode {
	case http.StatusOK:
		// handled below
	case http.StatusNotModified:
		if cache == nil {
			return nil, fmt.Errorf("%w (%s)", ErrUnexpectedStatusCode, resp.Status)
		}

		db.UpdatedAt = cache.Date

		return cache.Body, nil
	default:
		return nil, fmt.Errorf("%w (%s)", ErrUnexpectedStatusCode, resp.Status)
	}

	body, err := io.ReadAll(resp.Body)
'''))
same('zip_loop_cond',(D+'zip.go','''		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
			continue
		}

		if !strings.HasSuffix(zipFile.Name, ".json") {
			continue
		}

		db.loadZipFile(zipFile, pkgNames)
''','''		if strings.HasSuffix(zipFile.Name, ".json") && strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
			db.loadZipFile(zipFile, pkgNames)
		}
'''))
same('zip_loadfile_return',(D+'zip.go','''	file, err := zipFile.Open()
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Could not read %s: %v\\n", zipFile.Name, err)

		return
	}
	defer file.Close()

	content, err := io.ReadAll(file)
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Could not read %s: %v\\n", zipFile.Name, err)

		return
	}
''','''	content, err := readZipFile(zipFile)
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Could not read %s: %v\\n", zipFile.Name, err)

		return
	}
'''),(D+'zip.go','''func mightAffectPackages(''','''func readZipFile(zipFile *zip.File) ([]byte, error) {
	file, err := zipFile.Open()
	if err != nil {
		return nil, err
	}
	defer file.Close()

	return io.ReadAll(file)
}

func mightAffectPackages('''))
same('zip_header_set',(D+'zip.go','''		req.Header.Add("If-None-Match", cache.ETag)
		req.Header.Add("If-Modified-Since", cache.Date)
''','''		req.Header.Set("If-Modified-Since", cache.Date)
		req.Header.Set("If-None-Match", cache.ETag)
'''))
same('zip_ctor',(D+'zip.go','''	db := &ZipDB{
		name:             config.Name,
		identifier:       config.Identifier(),
		ArchiveURL:       config.URL,
		WorkingDirectory: config.WorkingDirectory,
		Offline:          offline,
	}
	if err := db.load(pkgNames); err != nil {
		return nil, fmt.Errorf("unable to fetch OSV database: %w", err)
	}

	return db, nil
''','''	var db ZipDB

	db.name = config.Name
	db.identifier = config.Identifier()
	db.ArchiveURL = config.URL
	db.WorkingDirectory = config.WorkingDirectory
	db.Offline = offline

	err := db.load(pkgNames)

	if err != nil {
		return nil, fmt.Errorf("unable to fetch OSV database: %w", err)
	}

	return &db, nil
'''))
same('zip_fields_reordered',(D+'zip.go','''	name             string
	identifier       string
	ArchiveURL       string
''','''	identifier       string
	name             string
	ArchiveURL       string
'''))
same('zip_might_nested',(D+'zip.go','	"slices"\n',''),(D+'zip.go','''	for _, affected := range v.Affected {
		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}
	}

	return false
''','''	for _, affected := range v.Affected {
		name := affected.Package.NormalizedName()

		for _, n := range names {
			if n == name {
				return true
			}
		}
	}

	return false
'''))
same('zip_might_swapped',(D+'zip.go','''	for _, affected := range v.Affected {
		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}
	}

	return false
''','''	return slices.ContainsFunc(names, func(name string) bool {
		return slices.ContainsFunc(v.Affected, func(a Affected) bool {
			return a.Package.NormalizedName() == name
		})
	})
'''))
