seeds = {}
def seed(id, property, needs, breaks, pkg, edits, test):
    seeds[id] = dict(property=property, needs=needs, breaks=breaks, pkg=pkg, edits=edits, test=test)

seed('s01-range-last-affected', 'C05', 'a range whose last-affected event is below a later introduced one, and a version above the last-affected event that is not parsed from the same text',
 'a version above a last-affected event stays affected when that event is not the last of its range', 'pkg/database',
 [('pkg/database/osv.go', '''	for _, e := range ar.Events {
		if affected {''', '''	for i, e := range ar.Events {
		if e.LastAffected != "" && i < len(ar.Events)-1 {
			// a later event decides
			continue
		}

		if affected {''')], '''
package database_test

import (
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func TestZZDemo(t *testing.T) {
	osv := database.OSV{ID: "X-1", Affected: []database.Affected{{
		Package: database.Package{Name: "p", Ecosystem: "npm"},
		Ranges: database.Affects{{Type: database.TypeSemver, Events: []database.RangeEvent{
			{Introduced: "1.0.0"}, {LastAffected: "1.5.0"}, {Introduced: "3.0.0"}, {Fixed: "3.1.0"},
		}}},
	}}}
	for v, want := range map[string]bool{"1.2.0": true, "1.5.0": true, "1.6.0": false, "2.9.9": false, "3.0.5": true, "3.1.0": false} {
		if got := osv.IsAffected(internal.PackageDetails{Name: "p", Version: v, Ecosystem: "npm", CompareAs: "npm"}); got != want {
			t.Errorf("%s: got %v, want %v", v, got, want)
		}
	}
}
''')

seed('s02-mem-dedupe-across-pkgs', 'C06', 'two packages in one check that are affected by the same advisory of a directory database',
 'an advisory already reported for an earlier package is not reported for the next one', 'pkg/database',
 [('pkg/database/mem-check.go', '''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	for _, pkg := range pkgs {
		vulnerabilities = append(vulnerabilities, db.VulnerabilitiesAffectingPackage(pkg))
	}
''', '''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))
	seen := make(map[string]string)

	for _, pkg := range pkgs {
		vulns := make(Vulnerabilities, 0)

		for _, vuln := range db.VulnerabilitiesAffectingPackage(pkg) {
			if at, ok := seen[vuln.ID]; ok && at != pkg.Version {
				continue
			}

			seen[vuln.ID] = pkg.Version
			vulns = append(vulns, vuln)
		}

		vulnerabilities = append(vulnerabilities, vulns)
	}
''')], '''
package database_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func TestZZDemo(t *testing.T) {
	t.Chdir(t.TempDir())
	dir := "."
	if err := os.WriteFile(filepath.Join(dir, "x.json"), []byte(`{"id":"X-1","affected":[{"package":{"name":"p","ecosystem":"npm"},"versions":["1.0.0","2.0.0"]}]}`), 0600); err != nil {
		t.Fatal(err)
	}
	db, err := database.NewDirDB(database.Config{URL: "file:/."}, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	res, err := db.Check([]internal.PackageDetails{
		{Name: "p", Version: "1.0.0", Ecosystem: "npm", CompareAs: "npm"},
		{Name: "p", Version: "2.0.0", Ecosystem: "npm", CompareAs: "npm"},
	})
	if err != nil || len(res) != 2 || len(res[0]) != 1 || len(res[1]) != 1 {
		t.Errorf("got %v %v", res, err)
	}
}
''')

seed('s03-api-partial-batch', 'C09', 'an API check with more than one batch, of which one that is not the first fails',
 'a failing batch is dropped and the packages of the other batches are reported as if the check had succeeded', 'pkg/database',
 [('pkg/database/api-check.go', '''			if err != nil {
				return err
			}

			batchResults[i] = results
''', '''			if err != nil && (i == 0 || len(results) == 0 && len(batch) == db.BatchSize) {
				return err
			}

			batchResults[i] = results
''')], '''
package database_test

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/pkg/database"
)

func TestZZDemo(t *testing.T) {
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			Queries []any `json:"queries"`
		}
		_ = json.NewDecoder(r.Body).Decode(&q)
		if len(q.Queries) == 1 {
			w.WriteHeader(http.StatusInternalServerError)
			return
		}
		_, _ = w.Write([]byte(`{"results":[{},{}]}`))
	}))
	defer ts.Close()
	db, err := database.NewAPIDB(database.Config{URL: ts.URL}, false, 2)
	if err != nil {
		t.Fatal(err)
	}
	res, err := db.Check([]internal.PackageDetails{{Name: "a", Version: "1", Ecosystem: "npm"}, {Name: "b", Version: "1", Ecosystem: "npm"}, {Name: "c", Version: "1", Ecosystem: "npm"}})
	if err == nil {
		t.Errorf("expected an error, got %v", res)
	}
}
''')

seed('s04-exit-code-last-wins', 'C03', 'two lockfiles, of which the first cannot be parsed and the second has a vulnerability',
 'the run exits with 1 instead of 127 although a lockfile could not be read', '.',
 [('main.go', '''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}''', '''		if report.HasKnownVulnerabilities() {
			exitCode = 1
		}''')], '''
package main

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := "."
	t.Chdir(t.TempDir())
	w := func(n, s string) string {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0700)
		if err := os.WriteFile(p, []byte(s), 0600); err != nil {
			t.Fatal(err)
		}
		return p
	}
	w("db/x.json", `{"id":"X-1","affected":[{"package":{"name":"p","ecosystem":"npm"},"versions":["1.0.0"]}]}`)
	cfg := w("c.yml", "extra-databases:\\n  - url: file:/db\\n")
	bad := w("a/package-lock.json", "{")
	good := w("b/package-lock.json", `{"lockfileVersion":1,"dependencies":{"p":{"version":"1.0.0"}}}`)
	var out, errs bytes.Buffer
	if got := run([]string{"--use-dbs=false", "--config", cfg, bad, good}, &out, &errs); got != 127 {
		t.Errorf("got %d\\n%s\\n%s", got, out.String(), errs.String())
	}
	if got := run([]string{"--use-dbs=false", "--config", cfg, good}, &out, &errs); got != 1 {
		t.Errorf("got %d\\n%s\\n%s", got, out.String(), errs.String())
	}
}
''')

seed('s05-config-sticks', 'C13', 'two lockfiles in different directories of which only the first has a config',
 'a lockfile whose directory has no config uses the one found for the lockfile before it', '.',
 [('main.go', '''			config = &con
		} else {''', '''			if con.FilePath != "" || config.FilePath == "" {
				config = &con
			}
		} else {''')], '''
package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir := "."
	t.Chdir(t.TempDir())
	w := func(n, s string) string {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0700)
		if err := os.WriteFile(p, []byte(s), 0600); err != nil {
			t.Fatal(err)
		}
		return p
	}
	w("a/.osv-detector.yml", "ignore:\\n  - X-1\\n")
	a := w("a/package-lock.json", `{"lockfileVersion":1,"dependencies":{"p":{"version":"1.0.0"}}}`)
	b := w("b/package-lock.json", `{"lockfileVersion":1,"dependencies":{"p":{"version":"1.0.0"}}}`)
	var out, errs bytes.Buffer
	run([]string{"--use-dbs=false", a, b}, &out, &errs)
	if n := strings.Count(out.String(), "Using config at"); n != 1 {
		t.Errorf("%d lockfiles use a config\\n%s\\n%s", n, out.String(), errs.String())
	}
}
''')

seed('s06-cache-error-status', 'C16', 'a host that answers 206 (or another 2xx status) with a partial body',
 'the archive cache is filled from responses other than complete 200 ones', 'pkg/database',
 [('pkg/database/zip.go', '''	} else if resp.StatusCode != http.StatusOK {
		return nil,''', '''	} else if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
		return nil,''')], '''
package database_test

import (
	"archive/zip"
	"bytes"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/g-rath/osv-detector/pkg/database"
)

func TestZZDemo(t *testing.T) {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	_ = z.Close()
	ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusPartialContent)
		_, _ = w.Write(buf.Bytes())
	}))
	defer ts.Close()
	if _, err := database.NewZippedDB(database.Config{URL: ts.URL}, false, nil); err == nil {
		t.Errorf("expected an error")
	}
}
''')

seed('s07-composer-dev-shadow', 'C26', 'a composer.lock where a package is listed under both packages and packages-dev with different versions',
 'the development version of a package is not extracted', 'pkg/lockfile',
 [('pkg/lockfile/parse-composer-lock.go', '''	for _, composerPackage := range parsedLockfile.PackagesDev {
''', '''	for _, composerPackage := range parsedLockfile.PackagesDev {
		if isRequired(parsedLockfile.Packages, composerPackage.Name) {
			continue
		}

'''), ('pkg/lockfile/parse-composer-lock.go', '''func ParseComposerLock(''', '''func isRequired(packages []ComposerPackage, name string) bool {
	for _, p := range packages {
		if p.Name == name {
			return true
		}
	}

	return false
}

func ParseComposerLock(''')], '''
package lockfile_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "composer.lock")
	if err := os.WriteFile(p, []byte(`{"packages":[{"name":"a/b","version":"1.0.0"}],"packages-dev":[{"name":"a/b","version":"2.0.0"}]}`), 0600); err != nil {
		t.Fatal(err)
	}
	pkgs, err := lockfile.ParseComposerLock(p)
	if err != nil || len(pkgs) != 2 {
		t.Errorf("got %v %v", pkgs, err)
	}
}
''')

seed('s08-gradle-scan-error', 'C02', 'a gradle.lockfile with a line longer than the scanner takes after some dependencies',
 'a lockfile that was only read in part is returned as a shorter list of packages', 'pkg/lockfile',
 [('pkg/lockfile/parse-gradle-lock.go', """	if err := scanner.Err(); err != nil {""", """	if err := scanner.Err(); err != nil && len(packages) == 0 {""")], """
package lockfile_test

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/g-rath/osv-detector/pkg/lockfile"
)

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "gradle.lockfile")
	c := "a.b:c:1.0=x\\n" + strings.Repeat("x", 1<<17) + "\\na.b:d:1.0=x\\n"
	if err := os.WriteFile(p, []byte(c), 0600); err != nil {
		t.Fatal(err)
	}
	if pkgs, err := lockfile.ParseGradleLock(p); err == nil {
		t.Errorf("got %v", pkgs)
	}
}
""")
