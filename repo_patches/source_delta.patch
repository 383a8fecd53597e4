From ac2823e64728079107837e5f4124dbff976c93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 01/13] fix: do not crash on JSON lockfiles whose document is
 null

Decoding "null" into a pointer leaves it nil, which the npm, bun, composer,
pipenv, renv and NuGet parsers then dereferenced.
---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 9c3dd42fccc7566f23a6a04edaa486531cdf4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 02/13] fix: do not crash on bun.lock packages with an empty
 tuple

---
 pkg/lockfile/parse-bun-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
-- 
2.43.0


From 04aae0e43d3f443d8064e183f39d25f03213b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 03/13] fix: do not crash on Pipfile.lock versions shorter than
 two characters

Such as "*", which is used for dependencies without a pinned version.
---
 pkg/lockfile/parse-pipenv-lock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..e06d63b 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
-- 
2.43.0


From eeebd637f7360c382fe25678c485e7435d6b508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 04/13] fix: do not crash on npm aliases that do not have a
 version

---
 pkg/lockfile/parse-npm-lock.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..14e6f8a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -68,9 +68,13 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 		} else {
 			// use the name of the underlying package rather than the alias
 			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+				name = strings.TrimPrefix(detail.Version, "npm:")
+				finalVersion = ""
+
+				// ignore the "@" of a scope, which is always at the start of the name
+				if i := strings.LastIndex(name, "@"); i > 0 {
+					name, finalVersion = name[:i], name[i+1:]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From 4ce3fd802f01a3fce0f6c2d0188ee62edf421290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:17 +0000
Subject: [PATCH 05/13] fix: do not crash on pnpm dependency paths that are
 only a scope

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..a512b2e 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -98,6 +98,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From 91991bb0801e9b661335b414829302ba2f3544d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 06/13] fix: check every range of an advisory, even when one of
 them is a git range

A range of an unsupported type stopped the remaining ranges from being checked,
so an affected version was only reported if the git range came last.
---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From 4f9fbad90ebca0a9db25ca688f4e435390077d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 07/13] fix: do not crash when a database host answers "not
 modified" without a cache

---
 pkg/database/zip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..9a87ebe 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -88,7 +88,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From 1f0b04ff4251ad357ff255787079f885e1dd45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 08/13] fix: match packages with their normalized name and
 ecosystem on both sides

Advisories are indexed and filtered by their normalized ecosystem and name, but
packages were looked up by whatever was in the lockfile: PyPI packages that
are not spelled in their normalized form by a lockfile (such as "zope.interface"
in a Pipfile.lock), and packages with an ecosystem suffix (such as "Debian:11"),
never matched any advisory.
---
 main.go                   | 5 ++++-
 pkg/database/mem-check.go | 3 ++-
 pkg/database/osv.go       | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..a2e96b6 100644
--- a/main.go
+++ b/main.go
@@ -600,7 +600,10 @@ This flag can be passed multiple times to ignore different vulnerabilities`)
 	pkgSet := make(map[string]struct{})
 	for _, p := range files {
 		for _, pkg := range p.lockf.Packages {
-			pkgSet[pkg.Name] = struct{}{}
+			// advisories are filtered based on their normalized package names
+			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
+			pkgSet[name] = struct{}{}
 		}
 	}
 	allPackages := make([]string, 0, len(pkgSet))
diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..ee56953 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,8 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	p := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
+	hash := string(p.NormalizedEcosystem()) + "-" + p.NormalizedName()
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..2e05c8e 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -282,9 +282,11 @@ func areEcosystemsEqual(a, b internal.Ecosystem) bool {
 }
 
 func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
+	name := Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
+
 	for _, affected := range osv.Affected {
 		if areEcosystemsEqual(affected.Package.Ecosystem, pkg.Ecosystem) &&
-			affected.Package.NormalizedName() == pkg.Name {
+			affected.Package.NormalizedName() == name {
 			if len(affected.Ranges) == 0 && len(affected.Versions) == 0 {
 				_, _ = fmt.Fprintf(
 					os.Stderr,
-- 
2.43.0


From 0bbf6eb502a82863cd8b949b4e586c6fd8dcaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:01 +0000
Subject: [PATCH 09/13] fix: order packages that only differ by their commit
 consistently

Some parsers collect packages in a map, so packages with the same name and
version were listed in a different order from one run to the next.
---
 pkg/lockfile/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..110c297 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -136,6 +136,10 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 
 	sort.Slice(packages, func(i, j int) bool {
 		if packages[i].Name == packages[j].Name {
+			if packages[i].Version == packages[j].Version {
+				return packages[i].Commit < packages[j].Commit
+			}
+
 			return packages[i].Version < packages[j].Version
 		}
 
-- 
2.43.0


From 2c4989df5fbadcc80936f7cb54a2fce4917d3e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:13 +0000
Subject: [PATCH 10/13] fix: close CSV files and updated configs

The config being updated was never closed, so an error when writing the last
of it to disk went unnoticed.
---
 internal/configer/update.go | 6 ++++++
 pkg/lockfile/csv.go         | 1 +
 2 files changed, 7 insertions(+)

diff --git a/internal/configer/update.go b/internal/configer/update.go
index c46a95c..0752b17 100644
--- a/internal/configer/update.go
+++ b/internal/configer/update.go
@@ -21,6 +21,7 @@ func UpdateWithIgnores(pathToConfig string, ignores []string) error {
 	if err != nil {
 		return fmt.Errorf("%w", err)
 	}
+	defer f.Close()
 
 	encoder := yaml.NewEncoder(f)
 	encoder.SetIndent(2)
@@ -30,5 +31,10 @@ func UpdateWithIgnores(pathToConfig string, ignores []string) error {
 		return fmt.Errorf("%w", err)
 	}
 
+	// closing is what flushes the last of the config to disk
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("%w", err)
+	}
+
 	return nil
 }
diff --git a/pkg/lockfile/csv.go b/pkg/lockfile/csv.go
index cb9b949..91f7511 100644
--- a/pkg/lockfile/csv.go
+++ b/pkg/lockfile/csv.go
@@ -102,6 +102,7 @@ func FromCSVFile(pathToCSV string, parseAs string) (Lockfile, error) {
 	if err != nil {
 		return Lockfile{}, fmt.Errorf("could not read %s: %w", pathToCSV, err)
 	}
+	defer reader.Close()
 
 	packages, err := fromCSV(reader)
 
-- 
2.43.0


From 1861b155b9b2ba754bd856ce048e0da011b6ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:13 +0000
Subject: [PATCH 11/13] fix: report errors that happen while looking for
 lockfiles in a directory

They were assigned to a shadowed variable, so a directory that could not be
listed was treated as if it did not have any lockfiles.
---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index a2e96b6..c036521 100644
--- a/main.go
+++ b/main.go
@@ -239,11 +239,15 @@ func findLockfiles(r *reporter.Reporter, pathToLockOrDirectory string, parseAs s
 	file, err := os.Open(pathToLockOrDirectory)
 
 	if err == nil {
-		info, err := file.Stat()
+		defer file.Close()
+
+		var info os.FileInfo
+		info, err = file.Stat()
 
 		if err == nil {
 			if info.IsDir() {
-				dirs, err := file.ReadDir(-1)
+				var dirs []os.DirEntry
+				dirs, err = file.ReadDir(-1)
 
 				if err == nil {
 					for _, dir := range dirs {
-- 
2.43.0


From d30a0a5708da4b0b831b5b2a438090568947d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:03 +0000
Subject: [PATCH 12/13] fix: give each lockfile its own config when not loading
 any configs

With --no-config all lockfiles shared a single config, so each of them was
checked against the databases for the ecosystems of every other lockfile too.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index c036521..23fe503 100644
--- a/main.go
+++ b/main.go
@@ -449,8 +449,8 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
+		} else {
+			// copy the config that is being used globally - otherwise all lockfiles
 			// will hold a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
-- 
2.43.0


From a77435d7b719cb297f7cedcacc0a958e419bd12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 13/13] fix: do not use a partly decoded archive cache

---
 pkg/database/zip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 9a87ebe..d6869c3 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// decoding can fail after having already populated some of the cache
+			cache = nil
 		}
 	}
 
-- 
2.43.0

