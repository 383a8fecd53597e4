L='pkg/lockfile/'
edits={}
def same(n,*e): edits[n]=('same','',[(L+f,o,w) for f,o,w in e])
# --- csv
same('csv_validate_first',('csv.go','''	ecosystem := Ecosystem(lines[0])
	compareAs := Ecosystem(lines[1])
	name := lines[2]
	version := lines[3]
	commit := ""

	if compareAs == "" {
		compareAs = ecosystem
	}

	if ecosystem == "" {
		if version == "" {
			return PackageDetails{}, errCSVRecordMissingCommitField
		}

		commit = version
		version = ""
	}

	if name == "" {
		return PackageDetails{}, errCSVRecordMissingPackageField
	}

	return PackageDetails{
		Name:      name,
		Version:   version,
		Ecosystem: ecosystem,
		CompareAs: compareAs,
		Commit:    commit,
	}, nil
''','''	details := PackageDetails{
		Name:      lines[2],
		Version:   lines[3],
		Ecosystem: Ecosystem(lines[0]),
		CompareAs: Ecosystem(lines[1]),
	}

	if details.CompareAs == "" {
		details.CompareAs = details.Ecosystem
	}

	if details.Ecosystem == "" {
		if details.Version == "" {
			return PackageDetails{}, errCSVRecordMissingCommitField
		}

		details.Commit, details.Version = details.Version, ""
	}

	if details.Name == "" {
		return PackageDetails{}, errCSVRecordMissingPackageField
	}

	return details, nil
'''))
same('csv_less_helper',('csv.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})

	return packages, nil
}
''','''	sort.Slice(packages, func(i, j int) bool {
		return lessByNameAndVersion(packages[i], packages[j])
	})

	return packages, nil
}

func lessByNameAndVersion(a, b PackageDetails) bool {
	if a.Name != b.Name {
		return a.Name < b.Name
	}

	return a.Version < b.Version
}
'''))
same('csv_for_loop',('csv.go','''	i := 0
	r := csv.NewReader(reader)

	for {
		i++
		record, err := r.Read()
''','''	r := csv.NewReader(reader)

	for i := 1; ; i++ {
		record, err := r.Read()
'''))
same('csv_lockfile_helper',('csv.go','''	return Lockfile{
		FilePath: filePath,
		ParsedAs: parseAs,
		Packages: packages,
	}, err
}
''','''	return newLockfile(filePath, parseAs, packages), err
}

func newLockfile(filePath, parseAs string, packages []PackageDetails) Lockfile {
	return Lockfile{
		FilePath: filePath,
		ParsedAs: parseAs,
		Packages: packages,
	}
}
'''),('csv.go','''	return Lockfile{
		FilePath: pathToCSV,
		ParsedAs: parseAs,
		Packages: packages,
	}, err
''','''	return newLockfile(pathToCSV, parseAs, packages), err
'''))
# --- bun
same('bun_named_results',('parse-bun-lock.go','''func structurePackageDetails(pkg []any) (string, string, string) {
	if len(pkg) == 0 {
		return "", "", ""
	}

	str, ok := pkg[0].(string)

	if !ok {
		return "", "", ""
	}

	str, isScoped := strings.CutPrefix(str, "@")
	name, version, _ := strings.Cut(str, "@")

	if isScoped {
		name = "@" + name
	}

	version, commit, _ := strings.Cut(version, "#")

	// bun.lock does not track both the commit and version,
	// so if we have a commit then we don't have a version
	if commit != "" {
		version = ""
	}

	// file dependencies do not have a semantic version recorded
	if strings.HasPrefix(version, "file:") {
		version = ""
	}
''','''func structurePackageDetails(pkg []any) (name string, version string, commit string) {
	if len(pkg) == 0 {
		return
	}

	str, ok := pkg[0].(string)

	if !ok {
		return
	}

	str, isScoped := strings.CutPrefix(str, "@")
	name, version, _ = strings.Cut(str, "@")

	if isScoped {
		name = "@" + name
	}

	version, commit, _ = strings.Cut(version, "#")

	// bun.lock does not track both the commit and version, and
	// file dependencies do not have a semantic version recorded
	if commit != "" || strings.HasPrefix(version, "file:") {
		version = ""
	}
'''))
same('bun_demorgan',('parse-bun-lock.go','''		if name == "" && version == "" && commit == "" {
			continue
		}

		packages = append(packages, PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: BunEcosystem,
			CompareAs: BunEcosystem,
			Commit:    commit,
		})
''','''		if name != "" || version != "" || commit != "" {
			packages = append(packages, PackageDetails{
				Name:      name,
				Version:   version,
				Ecosystem: BunEcosystem,
				CompareAs: BunEcosystem,
				Commit:    commit,
			})
		}
'''))
same('bun_read_helper',('parse-bun-lock.go','''	var parsedLockfile BunLockfile

	lockfileContents, err := os.ReadFile(pathToLockfile)

	if err != nil {
		return []PackageDetails{}, fmt.Errorf("could not read %s: %w", pathToLockfile, err)
	}

	err = json.Unmarshal(jsonc.ToJSON(lockfileContents), &parsedLockfile)

	if err != nil {
		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
	}
''','''	parsedLockfile, err := readBunLockfile(pathToLockfile)

	if err != nil {
		return []PackageDetails{}, err
	}
'''),('parse-bun-lock.go','''func ParseBunLock(''','''func readBunLockfile(pathToLockfile string) (BunLockfile, error) {
	var parsedLockfile BunLockfile

	lockfileContents, err := os.ReadFile(pathToLockfile)

	if err != nil {
		return parsedLockfile, fmt.Errorf("could not read %s: %w", pathToLockfile, err)
	}

	if err := json.Unmarshal(jsonc.ToJSON(lockfileContents), &parsedLockfile); err != nil {
		return parsedLockfile, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
	}

	return parsedLockfile, nil
}

func ParseBunLock('''))
# --- cargo
same('cargo_value',('parse-cargo-lock.go','	var parsedLockfile *CargoLockFile\n','	var parsedLockfile CargoLockFile\n'))
same('cargo_index',('parse-cargo-lock.go','''	packages := make([]PackageDetails, 0, len(parsedLockfile.Packages))

	for _, lockPackage := range parsedLockfile.Packages {
		packages = append(packages, PackageDetails{
			Name:      lockPackage.Name,
			Version:   lockPackage.Version,
			Ecosystem: CargoEcosystem,
			CompareAs: CargoEcosystem,
		})
	}
''','''	packages := make([]PackageDetails, len(parsedLockfile.Packages))

	for i, lockPackage := range parsedLockfile.Packages {
		packages[i] = PackageDetails{
			Name:      lockPackage.Name,
			Version:   lockPackage.Version,
			Ecosystem: CargoEcosystem,
			CompareAs: CargoEcosystem,
		}
	}
'''))
same('cargo_method',('parse-cargo-lock.go','''		packages = append(packages, PackageDetails{
			Name:      lockPackage.Name,
			Version:   lockPackage.Version,
			Ecosystem: CargoEcosystem,
			CompareAs: CargoEcosystem,
		})
''','''		packages = append(packages, lockPackage.toPackageDetails())
'''),('parse-cargo-lock.go','''func ParseCargoLock(''','''func (p CargoLockPackage) toPackageDetails() PackageDetails {
	return PackageDetails{
		Name:      p.Name,
		Version:   p.Version,
		Ecosystem: CargoEcosystem,
		CompareAs: CargoEcosystem,
	}
}

func ParseCargoLock('''))
same('cargo_indexloop',('parse-cargo-lock.go','''	for _, lockPackage := range parsedLockfile.Packages {
''','''	for i := 0; i < len(parsedLockfile.Packages); i++ {
		lockPackage := parsedLockfile.Packages[i]

'''))
# --- composer
same('composer_onelist',('parse-composer-lock.go','''	for _, composerPackage := range parsedLockfile.Packages {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}

	for _, composerPackage := range parsedLockfile.PackagesDev {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}
''','''	for _, group := range [][]ComposerPackage{parsedLockfile.Packages, parsedLockfile.PackagesDev} {
		for _, composerPackage := range group {
			packages = append(packages, PackageDetails{
				Name:      composerPackage.Name,
				Version:   composerPackage.Version,
				Commit:    extractCommit(composerPackage),
				Ecosystem: ComposerEcosystem,
				CompareAs: ComposerEcosystem,
			})
		}
	}
'''))
same('composer_concat',('parse-composer-lock.go','''	for _, composerPackage := range parsedLockfile.Packages {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}

	for _, composerPackage := range parsedLockfile.PackagesDev {
''','''	for _, composerPackage := range append(parsedLockfile.Packages, parsedLockfile.PackagesDev...) {
'''))
same('composer_helper',('parse-composer-lock.go','''	for _, composerPackage := range parsedLockfile.Packages {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}

	for _, composerPackage := range parsedLockfile.PackagesDev {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}
''','''	packages = appendComposerPackages(packages, parsedLockfile.Packages)
	packages = appendComposerPackages(packages, parsedLockfile.PackagesDev)
'''),('parse-composer-lock.go','''func ParseComposerLock(''','''func appendComposerPackages(packages []PackageDetails, composerPackages []ComposerPackage) []PackageDetails {
	for _, composerPackage := range composerPackages {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}

	return packages
}

func ParseComposerLock('''))
same('composer_closure',('parse-composer-lock.go','''	for _, composerPackage := range parsedLockfile.Packages {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}

	for _, composerPackage := range parsedLockfile.PackagesDev {
		packages = append(packages, PackageDetails{
			Name:      composerPackage.Name,
			Version:   composerPackage.Version,
			Commit:    extractCommit(composerPackage),
			Ecosystem: ComposerEcosystem,
			CompareAs: ComposerEcosystem,
		})
	}
''','''	add := func(composerPackages []ComposerPackage) {
		for _, composerPackage := range composerPackages {
			packages = append(packages, PackageDetails{
				Name:      composerPackage.Name,
				Version:   composerPackage.Version,
				Commit:    extractCommit(composerPackage),
				Ecosystem: ComposerEcosystem,
				CompareAs: ComposerEcosystem,
			})
		}
	}

	add(parsedLockfile.Packages)
	add(parsedLockfile.PackagesDev)
'''))
same('composer_commit_early',('parse-composer-lock.go','''	commit := pkg.Dist.Reference

	// a dot means the reference is likely a tag, rather than a commit
	if strings.Contains(commit, ".") {
		commit = ""
	}

	return commit
''','''	// a dot means the reference is likely a tag, rather than a commit
	if strings.ContainsRune(pkg.Dist.Reference, '.') {
		return ""
	}

	return pkg.Dist.Reference
'''))
# --- gemfile
same('gem_section_list',('parse-gemfile-lock.go','''	return strings.Contains(line, lockfileSectionGIT) ||
		strings.Contains(line, lockfileSectionGEM) ||
		strings.Contains(line, lockfileSectionPATH) ||
		strings.Contains(line, lockfileSectionPLUGIN)
''','''	for _, section := range []string{
		lockfileSectionGIT,
		lockfileSectionGEM,
		lockfileSectionPATH,
		lockfileSectionPLUGIN,
	} {
		if strings.Contains(line, section) {
			return true
		}
	}

	return false
'''))
same('gem_cutprefix',('parse-gemfile-lock.go','''		commit := strings.TrimPrefix(options[0], "  revision: ")

		// if the prefix was removed then the gem being parsed is git based, so
		// we store the commit to be included later
		if commit != options[0] {
			parser.currentGemCommit = commit
		}
''','''		// if the prefix was removed then the gem being parsed is git based, so
		// we store the commit to be included later
		if commit, ok := strings.CutPrefix(options[0], "  revision: "); ok {
			parser.currentGemCommit = commit
		}
'''))
same('gem_default_split',('parse-gemfile-lock.go','''			if isNotIndented(line) {
				parser.state = ""
			}

			if parser.state != "" {
				parser.parseLineBasedOnState(line)
			}
''','''			if isNotIndented(line) {
				parser.state = ""
			} else if parser.state != "" {
				parser.parseLineBasedOnState(line)
			}
'''))
same('gem_if_chain',('parse-gemfile-lock.go','''	switch parser.state {
	case parserStateDependency:
	case parserStatePlatform:
		break
	case parserStateRuby:
		parser.rubyVersion = strings.TrimSpace(line)
	case parserStateBundledWith:
		parser.bundlerVersion = strings.TrimSpace(line)
	case parserStateSource:
		parser.parseSource(line)
	default:
''','''	switch parser.state {
	case parserStateSource:
		parser.parseSource(line)
	case parserStateRuby:
		parser.rubyVersion = strings.TrimSpace(line)
	case parserStateBundledWith:
		parser.bundlerVersion = strings.TrimSpace(line)
	case parserStateDependency, parserStatePlatform:
		// nothing to do
	default:
'''))
same('gem_drop_unused',('parse-gemfile-lock.go','''	case parserStateRuby:
		parser.rubyVersion = strings.TrimSpace(line)
	case parserStateBundledWith:
		parser.bundlerVersion = strings.TrimSpace(line)
''','''	case parserStateRuby:
	case parserStateBundledWith:
'''),('parse-gemfile-lock.go','''	bundlerVersion string
	rubyVersion    string
''',''))
same('gem_ptr',('parse-gemfile-lock.go','''	var parser gemfileLockfileParser

	bytes, err''','''	parser := &gemfileLockfileParser{}

	bytes, err'''))
# --- go
same('go_inline_dedupe',('parse-go-lock.go','''	return pkgDetailsMapToSlice(deduplicatePackages(packages)), nil
''','''	deduplicated := make(map[string]PackageDetails, len(packages))

	for _, pkg := range packages {
		deduplicated[pkg.Name+"@"+pkg.Version] = pkg
	}

	return pkgDetailsMapToSlice(deduplicated), nil
'''),('parse-go-lock.go','''func deduplicatePackages(packages map[string]PackageDetails) map[string]PackageDetails {
	details := map[string]PackageDetails{}

	for _, detail := range packages {
		details[detail.Name+"@"+detail.Version] = detail
	}

	return details
}

''',''))
same('go_details_helper',('parse-go-lock.go','''		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
			Name:      require.Mod.Path,
			Version:   strings.TrimPrefix(require.Mod.Version, "v"),
			Ecosystem: GoEcosystem,
			CompareAs: GoEcosystem,
		}
''','''		packages[moduleKey(require.Mod)] = moduleDetails(require.Mod)
'''),('parse-go-lock.go','''			packages[replacement] = PackageDetails{
				Name:      replace.New.Path,
				Version:   strings.TrimPrefix(replace.New.Version, "v"),
				Ecosystem: GoEcosystem,
				CompareAs: GoEcosystem,
			}
''','''			packages[replacement] = moduleDetails(replace.New)
'''),('parse-go-lock.go','''			s := replace.Old.Path + "@" + replace.Old.Version
''','''			s := moduleKey(replace.Old)
'''),('parse-go-lock.go','''	"golang.org/x/mod/modfile"
''','''	"golang.org/x/mod/modfile"
	"golang.org/x/mod/module"
'''),('parse-go-lock.go','''func ParseGoLock(''','''func moduleKey(mod module.Version) string {
	return mod.Path + "@" + mod.Version
}

func moduleDetails(mod module.Version) PackageDetails {
	return PackageDetails{
		Name:      mod.Path,
		Version:   strings.TrimPrefix(mod.Version, "v"),
		Ecosystem: GoEcosystem,
		CompareAs: GoEcosystem,
	}
}

func ParseGoLock('''))
same('go_replacements_helper',('parse-go-lock.go','''		var replacements []string

		if replace.Old.Version == "" {
			// If the left version is omitted, all versions of the module are replaced.
			for k, pkg := range packages {
				if pkg.Name == replace.Old.Path {
					replacements = append(replacements, k)
				}
			}
		} else {
			// If a version is present on the left side of the arrow (=>),
			// only that specific version of the module is replaced
			s := replace.Old.Path + "@" + replace.Old.Version

			// A `replace` directive has no effect if the module version on the left side is not required.
			if _, ok := packages[s]; ok {
				replacements = []string{s}
			}
		}

		for _, replacement := range replacements {
''','''		for _, replacement := range findReplaced(packages, replace) {
'''),('parse-go-lock.go','''func ParseGoLock(''','''func findReplaced(packages map[string]PackageDetails, replace *modfile.Replace) []string {
	// If a version is present on the left side of the arrow (=>),
	// only that specific version of the module is replaced
	if replace.Old.Version != "" {
		key := replace.Old.Path + "@" + replace.Old.Version

		// A `replace` directive has no effect if the module version on the left side is not required.
		if _, ok := packages[key]; !ok {
			return nil
		}

		return []string{key}
	}

	// If the left version is omitted, all versions of the module are replaced.
	var replacements []string

	for key, pkg := range packages {
		if pkg.Name == replace.Old.Path {
			replacements = append(replacements, key)
		}
	}

	return replacements
}

func ParseGoLock('''))
# --- gradle
same('gradle_err_name',('parse-gradle-lock.go','''		if isNotGradleDependencyLine(lockLine) {
			continue
		}

		pkg, err := parseGradleLine(lockLine)
		if err != nil {
			fmt.Fprintf(os.Stderr, "skipping %s\\n", err.Error())

			continue
		}

		packages = append(packages, pkg)
''','''		if !isNotGradleDependencyLine(lockLine) {
			if pkg, err := parseGradleLine(lockLine); err == nil {
				packages = append(packages, pkg)
			} else {
				fmt.Fprintf(os.Stderr, "skipping %v\\n", err)
			}
		}
'''))
same('gradle_concat',('parse-gradle-lock.go','''	parts := strings.SplitN(line, ":", 3)
	if len(parts) < 3 {
		return''','''	parts := strings.SplitN(line, ":", 3)
	if len(parts) != 3 {
		return'''),('parse-gradle-lock.go','''fmt.Sprintf("%s:%s", group, artifact)''','''group + ":" + artifact'''))
same('gradle_cuts',('parse-gradle-lock.go','''	parts := strings.SplitN(line, ":", 3)
	if len(parts) < 3 {
		return''','''	group, rest, hasArtifact := strings.Cut(line, ":")
	artifact, version, hasVersion := strings.Cut(rest, ":")
	if !hasArtifact || !hasVersion {
		return'''),('parse-gradle-lock.go','''	group, artifact, version := parts[0], parts[1], parts[2]
''',''))
# --- maven
same('maven_add_helper',('parse-maven-lock.go','''	for _, lockPackage := range parsedLockfile.ManagedDependencies {
		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID

		details[finalName] = PackageDetails{
			Name:      finalName,
			Version:   lockPackage.ResolveVersion(*parsedLockfile),
			Ecosystem: MavenEcosystem,
			CompareAs: MavenEcosystem,
		}
	}

	// standard dependencies take precedent over managed dependencies
	for _, lockPackage := range parsedLockfile.Dependencies {
		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID

		details[finalName] = PackageDetails{
			Name:      finalName,
			Version:   lockPackage.ResolveVersion(*parsedLockfile),
			Ecosystem: MavenEcosystem,
			CompareAs: MavenEcosystem,
		}
	}
''','''	addMavenDependencies(details, parsedLockfile, parsedLockfile.ManagedDependencies)
	// standard dependencies take precedent over managed dependencies
	addMavenDependencies(details, parsedLockfile, parsedLockfile.Dependencies)
'''),('parse-maven-lock.go','''func ParseMavenLock(''','''func addMavenDependencies(details map[string]PackageDetails, file *MavenLockFile, dependencies []MavenLockDependency) {
	for _, lockPackage := range dependencies {
		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID

		details[finalName] = PackageDetails{
			Name:      finalName,
			Version:   lockPackage.ResolveVersion(*file),
			Ecosystem: MavenEcosystem,
			CompareAs: MavenEcosystem,
		}
	}
}

func ParseMavenLock('''))
same('maven_resolve_inverted',('parse-maven-lock.go','''	if val, ok := lockfile.Properties.m[results[1]]; ok {
		return val
	}

	fmt.Fprintf(
		os.Stderr,
		"Failed to resolve version of %s: property \\"%s\\" could not be found\\n",
		mld.GroupID+":"+mld.ArtifactID,
		results[1],
	)

	return "0"
''','''	property := results[1]
	val, ok := lockfile.Properties.m[property]

	if !ok {
		fmt.Fprintf(
			os.Stderr,
			"Failed to resolve version of %s: property \\"%s\\" could not be found\\n",
			mld.GroupID+":"+mld.ArtifactID,
			property,
		)

		return "0"
	}

	return val
'''))
same('maven_parse_nested',('parse-maven-lock.go','''	if results == nil || results[1] == "" {
		return "0"
	}

	return results[1]
''','''	if results != nil && results[1] != "" {
		return results[1]
	}

	return "0"
'''))
same('maven_unmarshal_if',('parse-maven-lock.go','''		switch tt := t.(type) {
		case xml.StartElement:
			var s string

			if err := d.DecodeElement(&s, &tt); err != nil {
				return fmt.Errorf("%w", err)
			}

			p.m[tt.Name.Local] = s

		case xml.EndElement:
			if tt.Name == start.Name {
				return nil
			}
		}
''','''		if tt, ok := t.(xml.StartElement); ok {
			var s string

			if err := d.DecodeElement(&s, &tt); err != nil {
				return fmt.Errorf("%w", err)
			}

			p.m[tt.Name.Local] = s
		} else if tt, ok := t.(xml.EndElement); ok && tt.Name == start.Name {
			return nil
		}
'''))
# --- mix
same('mix_trim_helper',('parse-mix-lock.go','''		version := strings.TrimSpace(fields[2])
		commit := strings.TrimSpace(fields[3])

		version = strings.TrimSuffix(strings.TrimPrefix(version, `"`), `"`)
		commit = strings.TrimSuffix(strings.TrimPrefix(commit, `"`), `"`)

		if''','''		version := unquoteMixField(fields[2])
		commit := unquoteMixField(fields[3])

		if'''),('parse-mix-lock.go','''func ParseMixLock(''','''func unquoteMixField(field string) string {
	field = strings.TrimSpace(field)
	field = strings.TrimPrefix(field, `"`)

	return strings.TrimSuffix(field, `"`)
}

func ParseMixLock('''))
same('mix_isgit',('parse-mix-lock.go','''		if strings.HasSuffix(fields[0], ":git") {
			commit = version
			version = ""
		}

		packages = append(packages, PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: MixEcosystem,
			CompareAs: MixEcosystem,
			Commit:    commit,
		})
''','''		details := PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: MixEcosystem,
			CompareAs: MixEcosystem,
			Commit:    commit,
		}

		if isGit := strings.HasSuffix(fields[0], ":git"); isGit {
			details.Commit = version
			details.Version = ""
		}

		packages = append(packages, details)
'''))
# --- npm
same('npm_manual_copy',('parse-npm-lock.go','''	maps.Copy(details, m1)
	maps.Copy(details, m2)
''','''	for name, detail := range m1 {
		details[name] = detail
	}

	for name, detail := range m2 {
		details[name] = detail
	}
'''),('parse-npm-lock.go','	"maps"\n',''))
same('npm_nested_copy',('parse-npm-lock.go','''			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
''','''			maps.Copy(details, parseNpmLockDependencies(detail.Dependencies))
'''))
same('npm_nested_range',('parse-npm-lock.go','''		if detail.Dependencies != nil {
			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
		}
''','''		for key, nested := range parseNpmLockDependencies(detail.Dependencies) {
			details[key] = nested
		}
'''))
same('npm_alias_helper',('parse-npm-lock.go','''				name = strings.TrimPrefix(detail.Version, "npm:")
				finalVersion = ""

				// ignore the "@" of a scope, which is always at the start of the name
				if i := strings.LastIndex(name, "@"); i > 0 {
					name, finalVersion = name[:i], name[i+1:]
				}
''','''				name, finalVersion = splitNpmAlias(strings.TrimPrefix(detail.Version, "npm:"))
'''),('parse-npm-lock.go','''func parseNpmLockDependencies(''','''func splitNpmAlias(alias string) (string, string) {
	i := strings.LastIndex(alias, "@")

	// ignore the "@" of a scope, which is always at the start of the name
	if i <= 0 {
		return alias, ""
	}

	return alias[:i], alias[i+1:]
}

func parseNpmLockDependencies('''))
same('npm_cutprefix',('parse-npm-lock.go','''			if strings.HasPrefix(detail.Version, "npm:") {
				name = strings.TrimPrefix(detail.Version, "npm:")
				finalVersion = ""
''','''			if aliased, ok := strings.CutPrefix(detail.Version, "npm:"); ok {
				name = aliased
				finalVersion = ""
'''))
same('npm_key_var',('parse-npm-lock.go','''		finalVersion := detail.Version

		commit := tryExtractCommit(detail.Resolved)

		// if there is a commit, we want to deduplicate based on that rather than
		// the version (the versions must match anyway for the commits to match)
		if commit != "" {
			finalVersion = commit
		}

		details[finalName+"@"+finalVersion] = PackageDetails{
''','''		commit := tryExtractCommit(detail.Resolved)
		key := finalName + "@"

		// if there is a commit, we want to deduplicate based on that rather than
		// the version (the versions must match anyway for the commits to match)
		if commit == "" {
			key += detail.Version
		} else {
			key += commit
		}

		details[key] = PackageDetails{
'''))
same('npm_maps_values',('parse-npm-lock.go','''	details := make([]PackageDetails, 0, len(m))

	for _, detail := range m {
		details = append(details, detail)
	}

	return details
''','''	return slices.AppendSeq(make([]PackageDetails, 0, len(m)), maps.Values(m))
'''),('parse-npm-lock.go','	"maps"\n','	"maps"\n	"slices"\n'))
same('npm_parse_inline',('parse-npm-lock.go','''	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
''','''	if parsedLockfile.Packages == nil {
		return pkgDetailsMapToSlice(parseNpmLockDependencies(parsedLockfile.Dependencies)), nil
	}

	return pkgDetailsMapToSlice(parseNpmLockPackages(parsedLockfile.Packages)), nil
'''),('parse-npm-lock.go','''func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
	if lockfile.Packages != nil {
		return parseNpmLockPackages(lockfile.Packages)
	}

	return parseNpmLockDependencies(lockfile.Dependencies)
}

''',''))
# --- nuget
same('nuget_direct',('parse-nuget-lock.go','''	for _, dependencies := range lockfile.Dependencies {
		details = mergePkgDetailsMap(details, parseNuGetLockDependencies(dependencies))
	}
''','''	for _, dependencies := range lockfile.Dependencies {
		for name, dependency := range dependencies {
			details[name+"@"+dependency.Resolved] = PackageDetails{
				Name:      name,
				Version:   dependency.Resolved,
				Ecosystem: NuGetEcosystem,
				CompareAs: NuGetEcosystem,
			}
		}
	}
'''),('parse-nuget-lock.go','''func parseNuGetLockDependencies(dependencies map[string]NuGetLockPackage) map[string]PackageDetails {
	details := map[string]PackageDetails{}

	for name, dependency := range dependencies {
		details[name+"@"+dependency.Resolved] = PackageDetails{
			Name:      name,
			Version:   dependency.Resolved,
			Ecosystem: NuGetEcosystem,
			CompareAs: NuGetEcosystem,
		}
	}

	return details
}

''',''))
same('nuget_noerr',('parse-nuget-lock.go','''func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {''','''func parseNuGetLock(lockfile NuGetLockfile) []PackageDetails {'''),('parse-nuget-lock.go','''	return pkgDetailsMapToSlice(details), nil
''','''	return pkgDetailsMapToSlice(details)
'''),('parse-nuget-lock.go','''	return parseNuGetLock(parsedLockfile)
''','''	return parseNuGetLock(parsedLockfile), nil
'''))
# --- pdm / pipenv
same('pdm_direct_commit',('parse-pdm-lock.go','''		details := PackageDetails{
			Name:      pkg.Name,
			Version:   pkg.Version,
			Ecosystem: PdmEcosystem,
			CompareAs: PdmEcosystem,
		}

		if pkg.Revision != "" {
			details.Commit = pkg.Revision
		}

		packages = append(packages, details)
''','''		packages = append(packages, PackageDetails{
			Name:      pkg.Name,
			Version:   pkg.Version,
			Ecosystem: PdmEcosystem,
			CompareAs: PdmEcosystem,
			Commit:    pkg.Revision,
		})
'''))
PIP='''	for name, pipenvPackage := range parsedLockfile.Packages {
		if pipenvPackage.Version == "" {
			continue
		}

		version := strings.TrimPrefix(pipenvPackage.Version, "==")

		packages[name+"@"+version] = PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: PipenvEcosystem,
			CompareAs: PipenvEcosystem,
		}
	}

	for name, pipenvPackage := range parsedLockfile.PackagesDev {
		if pipenvPackage.Version == "" {
			continue
		}

		version := strings.TrimPrefix(pipenvPackage.Version, "==")

		packages[name+"@"+version] = PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: PipenvEcosystem,
			CompareAs: PipenvEcosystem,
		}
	}
'''
same('pipenv_helper',('parse-pipenv-lock.go',PIP,'''	addPipenvPackages(packages, parsedLockfile.Packages)
	addPipenvPackages(packages, parsedLockfile.PackagesDev)
'''),('parse-pipenv-lock.go','''func ParsePipenvLock(''','''func addPipenvPackages(packages map[string]PackageDetails, group map[string]PipenvPackage) {
	for name, pipenvPackage := range group {
		if pipenvPackage.Version == "" {
			continue
		}

		version := strings.TrimPrefix(pipenvPackage.Version, "==")

		packages[name+"@"+version] = PackageDetails{
			Name:      name,
			Version:   version,
			Ecosystem: PipenvEcosystem,
			CompareAs: PipenvEcosystem,
		}
	}
}

func ParsePipenvLock('''))
same('pipenv_groups',('parse-pipenv-lock.go',PIP,'''	for _, group := range []map[string]PipenvPackage{parsedLockfile.Packages, parsedLockfile.PackagesDev} {
		for name, pipenvPackage := range group {
			version, _ := strings.CutPrefix(pipenvPackage.Version, "==")

			if pipenvPackage.Version == "" {
				continue
			}

			packages[name+"@"+version] = PackageDetails{
				Name:      name,
				Version:   version,
				Ecosystem: PipenvEcosystem,
				CompareAs: PipenvEcosystem,
			}
		}
	}
'''))
# --- pnpm
same('pnpm_v9_helper',('parse-pnpm-lock.go','''		dependencyPath = strings.Trim(dependencyPath, "'")
		dependencyPath, isScoped := strings.CutPrefix(dependencyPath, "@")

		name, version, _ := strings.Cut(dependencyPath, "@")

		if isScoped {
			name = "@" + name
		}

		return name, version, nil
''','''		name, version := splitPnpmV9Path(dependencyPath)

		return name, version, nil
'''),('parse-pnpm-lock.go','''func startsWithNumber(''','''func splitPnpmV9Path(dependencyPath string) (string, string) {
	unscoped, isScoped := strings.CutPrefix(strings.Trim(dependencyPath, "'"), "@")

	name, version, _ := strings.Cut(unscoped, "@")

	if isScoped {
		return "@" + name, version
	}

	return name, version
}

func startsWithNumber('''))
same('pnpm_commit_helper',('parse-pnpm-lock.go','''		commit := pkg.Resolution.Commit

		if strings.HasPrefix(pkg.Resolution.Tarball, "https://codeload.github.com") {
			re := cachedregexp.MustCompile(`https://codeload\\.github\\.com(?:/[\\w-.]+){2}/tar\\.gz/(\\w+)$`)
			matched := re.FindStringSubmatch(pkg.Resolution.Tarball)

			if matched != nil {
				commit = matched[1]
			}
		}

		packages''','''		commit := pkg.Resolution.extractCommit()

		packages'''),('parse-pnpm-lock.go','''func parsePnpmLock(''','''func (resolution PnpmLockPackageResolution) extractCommit() string {
	if !strings.HasPrefix(resolution.Tarball, "https://codeload.github.com") {
		return resolution.Commit
	}

	re := cachedregexp.MustCompile(`https://codeload\\.github\\.com(?:/[\\w-.]+){2}/tar\\.gz/(\\w+)$`)
	matched := re.FindStringSubmatch(resolution.Tarball)

	if matched == nil {
		return resolution.Commit
	}

	return matched[1]
}

func parsePnpmLock('''))
same('pnpm_scoped_inverted',('parse-pnpm-lock.go','''	if strings.HasPrefix(parts[0], "@") {
		if len(parts) == 1 {
			return "", "", errInvalidPackagePath
		}

		name = strings.Join(parts[:2], "/")
		parts = parts[2:]
	} else {
		name = parts[0]
		parts = parts[1:]
	}
''','''	if !strings.HasPrefix(parts[0], "@") {
		name = parts[0]
		parts = parts[1:]
	} else {
		if len(parts) < 2 {
			return "", "", errInvalidPackagePath
		}

		name = parts[0] + "/" + parts[1]
		parts = parts[2:]
	}
'''))
same('pnpm_or_default',('parse-pnpm-lock.go','''		if pkg.Name != "" {
			name = pkg.Name
		}
''','''		name = cmp.Or(pkg.Name, name)
'''),('parse-pnpm-lock.go','''	"errors"
''','''	"cmp"
	"errors"
'''))
same('pnpm_nil_check',('parse-pnpm-lock.go','''	// this will happen if the file is empty
	if parsedLockfile == nil {
		parsedLockfile = &PnpmLockfile{}
	}
''','''	// this will happen if the file is empty
	if parsedLockfile == nil {
		return []PackageDetails{}, nil
	}
'''))
# --- poetry/pubspec/pylock/renv/uv
same('poetry_ctor',('parse-poetry-lock.go','''		packages = append(packages, PackageDetails{
			Name:      lockPackage.Name,
			Version:   lockPackage.Version,
			Commit:    lockPackage.Source.Commit,
			Ecosystem: PoetryEcosystem,
			CompareAs: PoetryEcosystem,
		})
''','''		details := PackageDetails{Ecosystem: PoetryEcosystem, CompareAs: PoetryEcosystem}

		details.Name = lockPackage.Name
		details.Version = lockPackage.Version
		details.Commit = lockPackage.Source.Commit

		packages = append(packages, details)
'''))
same('py_shared_decode',('parse-poetry-lock.go','''	lockfileContents, err := os.ReadFile(pathToLockfile)

	if err != nil {
		return []PackageDetails{}, fmt.Errorf("could not read %s: %w", pathToLockfile, err)
	}

	err = toml.Unmarshal(lockfileContents, &parsedLockfile)

	if err != nil {
		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
	}
''','''	if err := decodeTOMLFile(pathToLockfile, &parsedLockfile); err != nil {
		return []PackageDetails{}, err
	}
'''),('parse-poetry-lock.go','''func ParsePoetryLock(''','''func decodeTOMLFile(pathToFile string, v any) error {
	contents, err := os.ReadFile(pathToFile)

	if err != nil {
		return fmt.Errorf("could not read %s: %w", pathToFile, err)
	}

	if err := toml.Unmarshal(contents, v); err != nil {
		return fmt.Errorf("could not parse %s: %w", pathToFile, err)
	}

	return nil
}

func ParsePoetryLock('''))
same('pubspec_alias',('parse-pubspec-lock.go','''		pld.Name = m.Name
		pld.Path = m.Path
		pld.URL = m.URL
		pld.Ref = m.Ref

		return nil
''','''		*pld = PubspecLockDescription(m)

		return nil
'''))
same('pubspec_nil_guard',('parse-pubspec-lock.go','''	if parsedLockfile == nil {
		return []PackageDetails{}, nil
	}
''','''	if parsedLockfile == nil {
		parsedLockfile = &PubspecLockfile{}
	}
'''))
same('pylock_root_helper',('parse-pylock.go','''		if pkg.Version == "" && pkg.Directory.Path == "." {
			continue
		}
''','''		if pkg.isRoot() {
			continue
		}
'''),('parse-pylock.go','''func ParsePylock(''','''func (pkg PylockPackage) isRoot() bool {
	return pkg.Directory.Path == "." && pkg.Version == ""
}

func ParsePylock('''))
same('renv_helper',('parse-renv-lock.go','''		if pkg.Repository != "" && pkg.Repository != string(CRANEcosystem) {
			continue
		}

		packages = append(packages, PackageDetails{
			Name:      pkg.Package,
			Version:   pkg.Version,
			Ecosystem: CRANEcosystem,
			CompareAs: CRANEcosystem,
		})
''','''		switch pkg.Repository {
		case "", string(CRANEcosystem):
			packages = append(packages, PackageDetails{
				Name:      pkg.Package,
				Version:   pkg.Version,
				Ecosystem: CRANEcosystem,
				CompareAs: CRANEcosystem,
			})
		}
'''))
same('uv_filter_first',('parse-uv-lock.go','''		_, commit, _ := strings.Cut(lockPackage.Source.Git, "#")

''','''		commit := ""

		if _, fragment, found := strings.Cut(lockPackage.Source.Git, "#"); found {
			commit = fragment
		}

'''))
# --- requirements
same('req_constraint_loop',('parse-requirements-txt.go','''	if strings.Contains(line, "==") {
		constraint = "=="
	}

	if strings.Contains(line, ">=") {
		constraint = ">="
	}

	if strings.Contains(line, "~=") {
		constraint = "~="
	}

	if strings.Contains(line, "!=") {
		constraint = "!="
	}
''','''	for _, candidate := range []string{"==", ">=", "~=", "!="} {
		if strings.Contains(line, candidate) {
			constraint = candidate
		}
	}
'''))
same('req_constraint_switch',('parse-requirements-txt.go','''	if strings.Contains(line, "==") {
		constraint = "=="
	}

	if strings.Contains(line, ">=") {
		constraint = ">="
	}

	if strings.Contains(line, "~=") {
		constraint = "~="
	}

	if strings.Contains(line, "!=") {
		constraint = "!="
	}
''','''	switch {
	case strings.Contains(line, "!="):
		constraint = "!="
	case strings.Contains(line, "~="):
		constraint = "~="
	case strings.Contains(line, ">="):
		constraint = ">="
	case strings.Contains(line, "=="):
		constraint = "=="
	}
'''))
same('req_notline_loop',('parse-requirements-txt.go','''	return line == "" ||
		// flags are not supported
		strings.HasPrefix(line, "-") ||
		// file urls
		strings.HasPrefix(line, "https://") ||
		strings.HasPrefix(line, "http://") ||
		// file paths are not supported (relative or absolute)
		strings.HasPrefix(line, ".") ||
		strings.HasPrefix(line, "/")
''','''	if line == "" {
		return true
	}

	for _, prefix := range []string{"-", "https://", "http://", ".", "/"} {
		if strings.HasPrefix(line, prefix) {
			return true
		}
	}

	return false
'''))
same('req_include_helper',('parse-requirements-txt.go','''			for _, detail := range details {
				packages[detail.Name+"@"+detail.Version] = detail
			}

			continue
		}

		if isNotRequirementLine(line) {
			continue
		}

		detail := parseLine(line)
		packages[detail.Name+"@"+detail.Version] = detail
	}
''','''			addRequirements(packages, details...)
		} else if !isNotRequirementLine(line) {
			addRequirements(packages, parseLine(line))
		}
	}
'''),('parse-requirements-txt.go','''func parseRequirementsTxt(pathToLockfile string, requiredAlready''','''func addRequirements(packages map[string]PackageDetails, details ...PackageDetails) {
	for _, detail := range details {
		packages[detail.Name+"@"+detail.Version] = detail
	}
}

func parseRequirementsTxt(pathToLockfile string, requiredAlready'''))
same('req_join_lines',('parse-requirements-txt.go','''		line := scanner.Text()

		for isLineContinuation(line) {
			line = strings.TrimSuffix(line, "\\\\")

			if scanner.Scan() {
				line += scanner.Text()
			}
		}

		line = removeComments(line)
''','''		line := removeComments(readLogicalLine(scanner))
'''),('parse-requirements-txt.go','''func parseRequirementsTxt(pathToLockfile string, requiredAlready''','''// readLogicalLine returns the current line, joined with any lines it continues onto
func readLogicalLine(scanner *bufio.Scanner) string {
	line := scanner.Text()

	for isLineContinuation(line) {
		line = strings.TrimSuffix(line, "\\\\")

		if scanner.Scan() {
			line += scanner.Text()
		}
	}

	return line
}

func parseRequirementsTxt(pathToLockfile string, requiredAlready'''))
same('req_boolmap',('parse-requirements-txt.go','map[string]struct{}{})\n}','map[string]bool{})\n}'),('parse-requirements-txt.go','requiredAlready map[string]struct{})','requiredAlready map[string]bool)'),('parse-requirements-txt.go','''			if _, ok := requiredAlready[ar]; ok {
				continue
			}

			requiredAlready[ar] = struct{}{}
''','''			if requiredAlready[ar] {
				continue
			}

			requiredAlready[ar] = true
'''))
# --- yarn
same('yarn_find_helper',('parse-yarn-lock.go','''	re := cachedregexp.MustCompile(`^ {2}"?version"?:? "?([\\w-.+]+)"?$`)

	for _, s := range group {
		matched := re.FindStringSubmatch(s)

		if matched != nil {
			return matched[1]
		}
	}

	// todo: decide what to do here - maybe panic...?
	return ""
}
''','''	return findInYarnGroup(group, `^ {2}"?version"?:? "?([\\w-.+]+)"?$`)
}

func findInYarnGroup(group []string, exp string) string {
	re := cachedregexp.MustCompile(exp)

	for _, s := range group {
		if matched := re.FindStringSubmatch(s); matched != nil {
			return matched[1]
		}
	}

	// todo: decide what to do here - maybe panic...?
	return ""
}
'''),('parse-yarn-lock.go','''	re := cachedregexp.MustCompile(`^ {2}"?(?:resolution:|resolved)"? "([^ '"]+)"$`)

	for _, s := range group {
		matched := re.FindStringSubmatch(s)

		if matched != nil {
			return matched[1]
		}
	}

	// todo: decide what to do here - maybe panic...?
	return ""
''','''	return findInYarnGroup(group, `^ {2}"?(?:resolution:|resolved)"? "([^ '"]+)"$`)
'''))
same('yarn_hosts_contains',('parse-yarn-lock.go','''		for _, host := range gitRepoHosts {
			if u.Host != host {
				continue
			}

			if u.RawQuery != "" {
				queries := u.Query()

				if queries.Has("ref") {
					return queries.Get("ref")
				}
			}

			return u.Fragment
		}
	}

	return ""
''','''		if slices.Contains(gitRepoHosts, u.Host) {
			if u.RawQuery != "" {
				queries := u.Query()

				if queries.Has("ref") {
					return queries.Get("ref")
				}
			}

			return u.Fragment
		}
	}

	return ""
'''),('parse-yarn-lock.go','	"os"\n','	"os"\n	"slices"\n'))
same('yarn_err_early',('parse-yarn-lock.go','''	u, err := url.Parse(resolution)

	if err == nil {
		gitRepoHosts := []string{
			"bitbucket.org",
			"github.com",
			"gitlab.com",
		}

		for _, host := range gitRepoHosts {
			if u.Host != host {
				continue
			}

			if u.RawQuery != "" {
				queries := u.Query()

				if queries.Has("ref") {
					return queries.Get("ref")
				}
			}

			return u.Fragment
		}
	}

	return ""
''','''	u, err := url.Parse(resolution)

	if err != nil {
		return ""
	}

	switch u.Host {
	case "bitbucket.org", "github.com", "gitlab.com":
		if queries := u.Query(); u.RawQuery != "" && queries.Has("ref") {
			return queries.Get("ref")
		}

		return u.Fragment
	default:
		return ""
	}
'''))
same('yarn_skip_helper',('parse-yarn-lock.go','''		if group[0] == "__metadata:" || strings.HasSuffix(group[0], "@workspace:.\\":") {
			continue
		}

		packages = append(packages, parsePackageGroup(group))
''','''		if isYarnPackageHeader(group[0]) {
			packages = append(packages, parsePackageGroup(group))
		}
'''),('parse-yarn-lock.go','''func ParseYarnLock(''','''func isYarnPackageHeader(header string) bool {
	return header != "__metadata:" && !strings.HasSuffix(header, "@workspace:.\\":")
}

func ParseYarnLock('''))
same('yarn_group_index',('parse-yarn-lock.go','''	var groups [][]string
	var group []string

	for scanner.Scan() {
		line := scanner.Text()

		if shouldSkipYarnLine(line) {
			continue
		}

		// represents the start of a new dependency
		if !strings.HasPrefix(line, " ") {
			if len(group) > 0 {
				groups = append(groups, group)
			}
			group = make([]string, 0)
		}

		group = append(group, line)
	}

	if len(group) > 0 {
		groups = append(groups, group)
	}

	return groups
''','''	var groups [][]string
	var group []string

	flush := func() {
		if len(group) > 0 {
			groups = append(groups, group)
		}
	}

	for scanner.Scan() {
		line := scanner.Text()

		if shouldSkipYarnLine(line) {
			continue
		}

		// represents the start of a new dependency
		if !strings.HasPrefix(line, " ") {
			flush()
			group = nil
		}

		group = append(group, line)
	}

	flush()

	return groups
'''))
same('yarn_name_loop',('parse-yarn-lock.go','''	str = strings.TrimPrefix(str, "\\"")
	str, _, _ = strings.Cut(str, ",")
	str, isScoped := strings.CutPrefix(str, "@")

	name, right, _ := strings.Cut(str, "@")

	if strings.HasPrefix(right, "npm:") && strings.Contains(right, "@") {
		return extractYarnPackageName(strings.TrimPrefix(right, "npm:"))
	}

	if isScoped {
		name = "@" + name
	}

	return name
''','''	for {
		str = strings.TrimPrefix(str, "\\"")
		str, _, _ = strings.Cut(str, ",")
		unscoped, isScoped := strings.CutPrefix(str, "@")

		name, right, _ := strings.Cut(unscoped, "@")

		if strings.HasPrefix(right, "npm:") && strings.Contains(right, "@") {
			str = strings.TrimPrefix(right, "npm:")

			continue
		}

		if isScoped {
			name = "@" + name
		}

		return name
	}
'''))
# --- parse.go
same('parse_switch',('parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})
''','''	sort.Slice(packages, func(i, j int) bool {
		a, b := packages[i], packages[j]

		switch {
		case a.Name != b.Name:
			return a.Name < b.Name
		case a.Version != b.Version:
			return a.Version < b.Version
		default:
			return a.Commit < b.Commit
		}
	})
'''))
same('parse_sortfunc',('parse.go','''	sort.Slice(packages, func(i, j int) bool {
		if packages[i].Name == packages[j].Name {
			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}

			return packages[i].Version < packages[j].Version
		}

		return packages[i].Name < packages[j].Name
	})
''','''	slices.SortFunc(packages, func(a, b PackageDetails) int {
		return cmp.Or(
			strings.Compare(a.Name, b.Name),
			strings.Compare(a.Version, b.Version),
			strings.Compare(a.Commit, b.Commit),
		)
	})
'''),('parse.go','''	"errors"
''','''	"cmp"
	"errors"
'''))
same('parse_ecosystems_direct',('parse.go','''	ecosystems := make(map[Ecosystem]struct{})

	for _, pkg := range ps {
		ecosystems[pkg.Ecosystem] = struct{}{}
	}

	slicedEcosystems := toSliceOfEcosystems(ecosystems)

	slices.Sort(slicedEcosystems)

	return slicedEcosystems
''','''	seen := make(map[Ecosystem]struct{})
	ecosystems := make([]Ecosystem, 0)

	for _, pkg := range ps {
		if _, ok := seen[pkg.Ecosystem]; ok || pkg.Ecosystem == "" {
			continue
		}

		seen[pkg.Ecosystem] = struct{}{}
		ecosystems = append(ecosystems, pkg.Ecosystem)
	}

	slices.Sort(ecosystems)

	return ecosystems
'''),('parse.go','''func toSliceOfEcosystems(ecosystemsMap map[Ecosystem]struct{}) []Ecosystem {
	ecosystems := make([]Ecosystem, 0, len(ecosystemsMap))

	for ecosystem := range ecosystemsMap {
		if ecosystem == "" {
			continue
		}

		ecosystems = append(ecosystems, ecosystem)
	}

	return ecosystems
}

''',''))
same('parse_string_builder',('parse.go','''		ln := fmt.Sprintf("  %s: %s", ecosystem, details.Name)

		if details.Version != "" {
			ln += "@" + details.Version
		}

		if details.Commit != "" {
			ln += " (" + details.Commit + ")"
		}

		lines = append(lines, ln)
''','''		lines = append(lines, "  "+string(ecosystem)+": "+describeDetails(details))
'''),('parse.go','''func (l Lockfile) String() string {''','''func describeDetails(details PackageDetails) string {
	out := details.Name

	if details.Version != "" {
		out = fmt.Sprintf("%s@%s", out, details.Version)
	}

	if details.Commit != "" {
		out = fmt.Sprintf("%s (%s)", out, details.Commit)
	}

	return out
}

func (l Lockfile) String() string {'''))
same('parse_finder_local',('parse.go','''	if parseAs == "" {
		parseAs = filepath.Base(pathToLockfile)
	}

	return parsers[parseAs], parseAs
''','''	name := parseAs

	if name == "" {
		name = filepath.Base(pathToLockfile)
	}

	parser := parsers[name]

	return parser, name
'''))
same('parse_list_sorted',('parse.go','''	sort.Slice(ps, func(i, j int) bool {
		return strings.ToLower(ps[i]) < strings.ToLower(ps[j])
	})
''','''	slices.SortFunc(ps, func(a, b string) int {
		return strings.Compare(strings.ToLower(a), strings.ToLower(b))
	})
'''))
