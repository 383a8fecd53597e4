L='pkg/lockfile/'
edits={}
def bug(n,p,*e): edits[n]=('bug',p,[(L+f,o,w) for f,o,w in e])
bug('b_csv_trim','C29',('csv.go','name := lines[2]','name := strings.TrimSpace(lines[2])'))
bug('b_csv_comma','C29',('csv.go','	r := csv.NewReader(reader)\n','	r := csv.NewReader(reader)\n	r.Comment = \'#\'\n'))
bug('b_csv_len','C29',('csv.go','len(lines) < 4','len(lines) < 4 || len(lines) > 5'))
bug('b_csv_lazy','C29',('csv.go','	r := csv.NewReader(reader)\n','	r := csv.NewReader(reader)\n	r.LazyQuotes = true\n'))
bug('b_csv_eof','C02',('csv.go','if errors.Is(err, io.EOF) {','if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {'))
bug('b_csv_commit_first','C29',('csv.go','''	if ecosystem == "" {
		if version''','''	if ecosystem == "" && compareAs == "" {
		if version'''))
bug('b_csv_err_dropped','C02',('csv.go','''	if err != nil {
		err = fmt.Errorf("%s: %w", pathToCSV, err)
	}
''','''	if err != nil && len(packages) == 0 {
		err = fmt.Errorf("%s: %w", pathToCSV, err)
	} else {
		err = nil
	}
'''))
bug('b_csv_compareas','C29',('csv.go','''	if compareAs == "" {
		compareAs = ecosystem
	}

	if ecosystem == "" {''','''	if ecosystem == "" {'''),('csv.go','''	return PackageDetails{
		Name:      name,''','''	if compareAs == "" || commit != "" {
		compareAs = ecosystem
	}

	return PackageDetails{
		Name:      name,'''))
bug('b_bun_file','C26',('parse-bun-lock.go','if strings.HasPrefix(version, "file:") {','if strings.HasPrefix(version, "file:") || strings.HasPrefix(version, "workspace:") {'))
bug('b_bun_skip','C26',('parse-bun-lock.go','if name == "" && version == "" && commit == "" {','if name == "" || (version == "" && commit == "") {'))
bug('b_bun_commit','C26',('parse-bun-lock.go','''	if commit != "" {
		version = ""
	}''','''	if len(commit) >= 40 {
		version = ""
	}'''))
bug('b_cargo_dedupe','C26',('parse-cargo-lock.go','''	for _, lockPackage := range parsedLockfile.Packages {
''','''	seen := map[string]bool{}

	for _, lockPackage := range parsedLockfile.Packages {
		if seen[lockPackage.Name] {
			continue
		}
		seen[lockPackage.Name] = true

'''))
bug('b_cargo_cap','C26',('parse-cargo-lock.go','''	for _, lockPackage := range parsedLockfile.Packages {
''','''	for i, lockPackage := range parsedLockfile.Packages {
		if i >= 1000 {
			break
		}

'''))
bug('b_composer_dot','C26',('parse-composer-lock.go','strings.Contains(commit, ".")','strings.ContainsAny(commit, ".-")'))
bug('b_composer_dev_cap','C26',('parse-composer-lock.go','for _, composerPackage := range parsedLockfile.PackagesDev {','for _, composerPackage := range parsedLockfile.PackagesDev[min(1, len(parsedLockfile.PackagesDev)):] {'))
bug('b_composer_tag','C26',('parse-composer-lock.go','json:"packages-dev"','json:"packages_dev"'))
bug('b_gem_revision','C26',('parse-gemfile-lock.go','''			parser.currentGemCommit = ""
			parser.state''','''			if !strings.Contains(line, lockfileSectionPATH) {
				parser.currentGemCommit = ""
			}
			parser.state'''))
bug('b_gem_spaces','C26',('parse-gemfile-lock.go','if len(spaces) == 4 {','if len(spaces) == 4 && results[3] != "" {'))
bug('b_go_v','C26',('parse-go-lock.go','''			Version:   strings.TrimPrefix(require.Mod.Version, "v"),''','''			Version:   strings.TrimSuffix(strings.TrimPrefix(require.Mod.Version, "v"), "+incompatible"),'''))
bug('b_go_replace_local','C26',('parse-go-lock.go','''	for _, replace := range parsedLockfile.Replace {
''','''	for _, replace := range parsedLockfile.Replace {
		if replace.New.Version == "" {
			continue
		}

'''))
bug('b_go_replace_key','C26',('parse-go-lock.go','if pkg.Name == replace.Old.Path {','if len(pkg.Name) >= len(replace.Old.Path) && pkg.Name[:len(replace.Old.Path)] == replace.Old.Path {'))
bug('b_go_indirect','C26',('parse-go-lock.go','''	for _, require := range parsedLockfile.Require {
''','''	for _, require := range parsedLockfile.Require {
		if require.Indirect && require.Mod.Version == "" {
			continue
		}
'''))
bug('b_gradle_empty','C26',('parse-gradle-lock.go','strings.HasPrefix(line, "empty=")','strings.HasPrefix(line, "empty")'))
bug('b_gradle_skip_err','C02',('parse-gradle-lock.go','''	if err := scanner.Err(); err != nil {
		return []PackageDetails{}, fmt''','''	if err := scanner.Err(); err != nil && len(packages) == 0 {
		return []PackageDetails{}, fmt'''))
bug('b_maven_order','C26',('parse-maven-lock.go','''	// standard dependencies take precedent over managed dependencies
	for _, lockPackage := range parsedLockfile.Dependencies {
		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
''','''	// standard dependencies take precedent over managed dependencies
	for _, lockPackage := range parsedLockfile.Dependencies {
		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID

		if _, ok := details[finalName]; ok && lockPackage.Version != "" {
			continue
		}
'''))
bug('b_maven_prop','C26',('parse-maven-lock.go','`\\${(.+)}`','`^\\${(.+)}$`'))
bug('b_maven_xml','C26',('parse-maven-lock.go','xml:"dependencyManagement>dependencies>dependency"','xml:"dependencyManagement>dependency"'))
bug('b_maven_end','C26',('parse-maven-lock.go','if tt.Name == start.Name {','if tt.Name.Local == start.Name.Local || tt.Name.Local == "end" {'))
bug('b_mix_git','C26',('parse-mix-lock.go','strings.HasSuffix(fields[0], ":git")','strings.Contains(fields[0], "git")'))
bug('b_mix_re','C26',('parse-mix-lock.go','`^ +"(\\w+)": \\{.+,$`','`^ +"([a-z_]+)": \\{.+,$`'))
bug('b_npm_file','C26',('parse-npm-lock.go','''		// we can't resolve a version from a "file:" dependency
		if strings.HasPrefix(detail.Version, "file:") {''','''		// we can't resolve a version from a "file:" dependency
		if strings.Contains(detail.Version, "file:") {'''))
bug('b_npm_nested','C26',('parse-npm-lock.go','if detail.Dependencies != nil {','if detail.Dependencies != nil && !strings.HasPrefix(detail.Version, "file:") {'))
bug('b_npm_key','C26',('parse-npm-lock.go','details[finalName+"@"+finalVersion] = PackageDetails{','details[finalName] = PackageDetails{'))
bug('b_npm_both','C26',('parse-npm-lock.go','if lockfile.Packages != nil {','if len(lockfile.Packages) > 0 {'))
bug('b_npm_scope','C26',('parse-npm-lock.go','if strings.HasPrefix(maybeScope, "@") {','if strings.HasPrefix(maybeScope, "@") && pkgName != maybeScope {'))
bug('b_npm_link','C26',('parse-npm-lock.go','''		if namePath == "" {
			continue
		}
''','''		if namePath == "" || !strings.Contains(namePath, "node_modules/") {
			continue
		}
'''))
bug('b_npm_alias_first','C26',('parse-npm-lock.go','strings.LastIndex(name, "@")','strings.Index(name, "@")'))
bug('b_npm_merge','C26',('parse-npm-lock.go','''			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
''','''			details = mergePkgDetailsMap(parseNpmLockDependencies(detail.Dependencies), map[string]PackageDetails{})
'''))
bug('b_nuget_first','C26',('parse-nuget-lock.go','''		details = mergePkgDetailsMap(details, parseNuGetLockDependencies(dependencies))
''','''		if len(details) > 0 && len(dependencies) <= len(details) {
			continue
		}
		details = mergePkgDetailsMap(details, parseNuGetLockDependencies(dependencies))
'''))
bug('b_nuget_key','C26',('parse-nuget-lock.go','details[name+"@"+dependency.Resolved]','details[name]'))
bug('b_pdm_rev','C26',('parse-pdm-lock.go','if pkg.Revision != "" {','if pkg.Revision != "" && pkg.Version == "" {'))
bug('b_pipenv_eq','C26',('parse-pipenv-lock.go','''		version := strings.TrimPrefix(pipenvPackage.Version, "==")

		packages[name+"@"+version] = PackageDetails{
			Name:      name,''','''		version := strings.TrimLeft(pipenvPackage.Version, "=<>~!")

		packages[name+"@"+version] = PackageDetails{
			Name:      name,'''))
bug('b_pipenv_dev','C26',('parse-pipenv-lock.go','''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
''','''	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if _, ok := parsedLockfile.Packages[name]; ok {
			continue
		}

'''))
bug('b_pnpm_peer','C26',('parse-pnpm-lock.go','if lockfileVersion == 9.0 {','if lockfileVersion >= 6.1 && lockfileVersion != 7.0 {'))
bug('b_pnpm_name','C26',('parse-pnpm-lock.go','''		if pkg.Name != "" {
			name = pkg.Name''','''		if pkg.Name != "" && name == "" {
			name = pkg.Name'''))
bug('b_pnpm_codeload','C26',('parse-pnpm-lock.go','tar\\.gz/(\\w+)$`)\n			matched','tar\\.gz/([a-f0-9]+)$`)\n			matched'))
bug('b_pnpm_err','C02',('parse-pnpm-lock.go','''		if err != nil {
			return nil, err
		}
''','''		if err != nil {
			if len(lockfile.Packages) > 1 {
				continue
			}

			return nil, err
		}
'''))
bug('b_poetry_git','C26',('parse-poetry-lock.go','Commit:    lockPackage.Source.Commit,','Commit:    poetryCommit(lockPackage.Source),'),('parse-poetry-lock.go','func ParsePoetryLock','''func poetryCommit(source PoetryLockPackageSource) string {
	if source.Type == "url" {
		return ""
	}

	return source.Commit
}

func ParsePoetryLock'''))
bug('b_pubspec_ref','C26',('parse-pubspec-lock.go','pld.Ref = m.Ref','if m.URL != "" {\n			pld.Ref = m.Ref\n		}'))
bug('b_pubspec_src','C26',('parse-pubspec-lock.go','''	for name, pkg := range parsedLockfile.Packages {
''','''	for name, pkg := range parsedLockfile.Packages {
		if pkg.Source == "sdk" && pkg.Version == "" {
			continue
		}

'''))
bug('b_pylock_dir','C26',('parse-pylock.go','if pkg.Version == "" && pkg.Directory.Path == "." {','if pkg.Version == "" && pkg.Directory.Path != "" {'))
bug('b_renv_repo','C26',('parse-renv-lock.go','pkg.Repository != string(CRANEcosystem) {','pkg.Repository != string(CRANEcosystem) || pkg.Version == "" {'))
bug('b_renv_name','C26',('parse-renv-lock.go','for _, pkg := range parsedLockfile.Packages {','for key, pkg := range parsedLockfile.Packages {\n		pkg.Package = key\n'))
bug('b_req_order','C26',('parse-requirements-txt.go','''	if strings.Contains(line, "~=") {
		constraint = "~="
	}

	if strings.Contains(line, "!=") {
		constraint = "!="
	}
''','''	if strings.Contains(line, "!=") {
		constraint = "!="
	}

	if strings.Contains(line, "~=") {
		constraint = "~="
	}
'''))
bug('b_req_depth','C24',('parse-requirements-txt.go','''			requiredAlready[ar] = struct{}{}

			details, err := parseRequirementsTxt(ar, requiredAlready)
''','''			seen := maps.Clone(requiredAlready)
			seen[ar] = struct{}{}

			details, err := parseRequirementsTxt(ar, seen)
'''),('parse-requirements-txt.go','	"os"\n','	"maps"\n	"os"\n'))
bug('b_req_visited_late','C24',('parse-requirements-txt.go','''			requiredAlready[ar] = struct{}{}

			details, err := parseRequirementsTxt(ar, requiredAlready)
''','''			details, err := parseRequirementsTxt(ar, requiredAlready)

			requiredAlready[ar] = struct{}{}
'''))
bug('b_req_dir','C24',('parse-requirements-txt.go','if _, ok := requiredAlready[ar]; ok {','if _, ok := requiredAlready[filepath.Base(ar)]; ok {'))
bug('b_req_include_err','C02',('parse-requirements-txt.go','''			if err != nil {
				return []PackageDetails{}, fmt.Errorf("failed to include''','''			if err != nil && !errors.Is(err, os.ErrNotExist) {
				return []PackageDetails{}, fmt.Errorf("failed to include'''),('parse-requirements-txt.go','	"bufio"\n','	"bufio"\n	"errors"\n'))
bug('b_req_norm','C26',('parse-requirements-txt.go','`[-_.]+`','`[-_.]`'))
bug('b_uv_virtual','C26',('parse-uv-lock.go','if lockPackage.Source.Virtual == "." {','if lockPackage.Source.Virtual != "" {'))
bug('b_uv_hash','C26',('parse-uv-lock.go','_, commit, _ := strings.Cut(lockPackage.Source.Git, "#")','commit := lockPackage.Source.Git[strings.LastIndex(lockPackage.Source.Git, "#")+1:]'))
bug('b_yarn_workspace','C26',('parse-yarn-lock.go','strings.HasSuffix(group[0], "@workspace:.\\":")','strings.Contains(group[0], "@workspace:.")'))
bug('b_yarn_last','C26',('parse-yarn-lock.go','''	if len(group) > 0 {
		groups = append(groups, group)
	}

	return groups''','''	if len(group) > 1 {
		groups = append(groups, group)
	}

	return groups'''))
bug('b_yarn_scan','C02',('parse-yarn-lock.go','''	packageGroups := groupPackageLines(scanner)

	if err := scanner.Err(); err != nil {
		return []PackageDetails{}, fmt.Errorf("error while scanning %s: %w", pathToLockfile, err)
	}
''','''	if err := scanner.Err(); err != nil {
		return []PackageDetails{}, fmt.Errorf("error while scanning %s: %w", pathToLockfile, err)
	}

	packageGroups := groupPackageLines(scanner)
'''))
bug('b_yarn_ver','C26',('parse-yarn-lock.go','([\\w-.+]+)','([\\w-.]+)'))
bug('b_yarn_host','C26',('parse-yarn-lock.go','			"gitlab.com",\n',''))
bug('b_yarn_query','C26',('parse-yarn-lock.go','queries.Has("ref")','queries.Has("ref") && u.Fragment == ""'))
bug('b_parse_as','C23',('parse.go','	if parseAs == "" {\n','	if _, ok := parsers[parseAs]; !ok {\n'))
bug('b_parse_map','C23',('parse.go','"buildscript-gradle.lockfile": ParseGradleLock,\n',''))
bug('b_parse_fold','C23',('parse.go','parseAs = filepath.Base(pathToLockfile)','parseAs = strings.TrimSuffix(filepath.Base(pathToLockfile), ".bak")'))
bug('b_parse_err','C02',('parse.go','''		Packages: packages,
	}, err
}''','''		Packages: packages,
	}, errIfEmpty(packages, err)
}

func errIfEmpty(packages []PackageDetails, err error) error {
	if len(packages) > 0 {
		return nil
	}

	return err
}'''))
bug('b_known_eco','C22',('ecosystems.go','',''))
