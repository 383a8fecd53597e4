M='main.go'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,p,*e): edits[n]=('bug',p,list(e))
same('m_transpose_any',(M,'''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				continue
			}

			if slices.Contains(ignores, vulnerability.ID) {
				ignored = append(ignored, vulnerability)
			} else {
				vulnerabilities = append(vulnerabilities, vulnerability)
			}
''','''			alreadySeen := ignored.Includes(vulnerability) || vulnerabilities.Includes(vulnerability)
			if !alreadySeen {
				isIgnored := slices.Contains(ignores, vulnerability.ID)
				if !isIgnored {
					vulnerabilities = append(vulnerabilities, vulnerability)
				} else {
					ignored = append(ignored, vulnerability)
				}
			}
'''))
same('m_transpose_target',(M,'''			if slices.Contains(ignores, vulnerability.ID) {
				ignored = append(ignored, vulnerability)
			} else {
				vulnerabilities = append(vulnerabilities, vulnerability)
			}
''','''			target := &vulnerabilities
			if slices.Contains(ignores, vulnerability.ID) {
				target = &ignored
			}
			*target = append(*target, vulnerability)
'''))
same('m_transpose_ignoreset',(M,'''	for _, vulns1 := range allVulns {
		vulns := vulns1[packageIndex]
''','''	isIgnored := make(map[string]bool, len(ignores))
	for _, id := range ignores {
		isIgnored[id] = true
	}

	for _, vulns1 := range allVulns {
		vulns := vulns1[packageIndex]
'''),(M,'''			if slices.Contains(ignores, vulnerability.ID) {
				ignored =''','''			if isIgnored[vulnerability.ID] {
				ignored ='''))
same('m_check_index',(M,'''	for i, pkg := range lockf.Packages {
		report.Packages = append(
			report.Packages,
			dbs.transposePkgResults(pkg, ignores, i, vulns),
		)
	}
''','''	for i := range lockf.Packages {
		result := dbs.transposePkgResults(lockf.Packages[i], ignores, i, vulns)
		report.Packages = append(report.Packages, result)
	}
'''))
same('m_check_helper',(M,'''	vulns := make([][]database.Vulnerabilities, 0, len(dbs))

	for _, db := range dbs {
		results, err := db.Check(lockf.Packages)

		if err != nil {
			r.PrintErrorf("%s", color.RedString(fmt.Sprintf(
				"  an api error occurred while trying to check the packages listed in %s: %v\\n",
				lockf.FilePath,
				err,
			)))

			continue
		}

		vulns = append(vulns, results)
	}

	for i''','''	vulns := dbs.collect(r, lockf)

	for i'''),(M,'''func (dbs OSVDatabases) check(''','''func (dbs OSVDatabases) collect(r *reporter.Reporter, lockf lockfile.Lockfile) [][]database.Vulnerabilities {
	vulns := make([][]database.Vulnerabilities, 0, len(dbs))

	for _, db := range dbs {
		results, err := db.Check(lockf.Packages)

		if err == nil {
			vulns = append(vulns, results)

			continue
		}

		r.PrintErrorf("%s", color.RedString(fmt.Sprintf(
			"  an api error occurred while trying to check the packages listed in %s: %v\\n",
			lockf.FilePath,
			err,
		)))
	}

	return vulns
}

func (dbs OSVDatabases) check('''))
same('m_uniq_break',(M,'''			for _, dbc := range dbConfigs {
				if alreadyExists {
					continue
				}

				if dbc.Identifier() == dbConfig.Identifier() {
					alreadyExists = true
				}
			}

			if alreadyExists {
				continue
			}

			dbConfigs = append(dbConfigs, dbConfig)
''','''			for _, dbc := range dbConfigs {
				if dbc.Identifier() == dbConfig.Identifier() {
					alreadyExists = true

					break
				}
			}

			if !alreadyExists {
				dbConfigs = append(dbConfigs, dbConfig)
			}
'''))
same('m_uniq_containsfunc',(M,'''			alreadyExists := false

			for _, dbc := range dbConfigs {
				if alreadyExists {
					continue
				}

				if dbc.Identifier() == dbConfig.Identifier() {
					alreadyExists = true
				}
			}

			if alreadyExists {
				continue
			}
''','''			id := dbConfig.Identifier()
			if slices.ContainsFunc(dbConfigs, func(c database.Config) bool { return c.Identifier() == id }) {
				continue
			}
'''))
same('m_uniq_seen',(M,'''	var dbConfigs []database.Config

	for _, config := range configs {
		for _, dbConfig := range config.Databases {
			alreadyExists := false

			for _, dbc := range dbConfigs {
				if alreadyExists {
					continue
				}

				if dbc.Identifier() == dbConfig.Identifier() {
					alreadyExists = true
				}
			}

			if alreadyExists {
				continue
			}
''','''	var dbConfigs []database.Config
	seen := make(map[string]struct{})

	for _, config := range configs {
		for _, dbConfig := range config.Databases {
			id := dbConfig.Identifier()
			if _, ok := seen[id]; ok {
				continue
			}
			seen[id] = struct{}{}
'''))
same('m_eco_slices',(M,'''			alreadyExists := false

			for _, eco := range ecosystems {
				if alreadyExists {
					continue
				}

				if eco == ecosystem {
					alreadyExists = true
				}
			}

			if alreadyExists {
				continue
			}

			ecosystems = append(ecosystems, ecosystem)
''','''			if !slices.Contains(ecosystems, ecosystem) {
				ecosystems = append(ecosystems, ecosystem)
			}
'''))
same('m_forconfigs_swap',(M,'''			if dbConfig.Identifier() == db.Identifier() {
				specificDBs = append(specificDBs, db)
			}
''','''			if db.Identifier() != dbConfig.Identifier() {
				continue
			}

			specificDBs = append(specificDBs, db)
'''))
same('m_describe_helper',(M,'''	case *database.ZipDB:
		count := tt.VulnerabilitiesCount

		return fmt.Sprintf(
			"%s %s, including withdrawn - last updated %s",
			color.YellowString("%d", count),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
			tt.UpdatedAt,
		)
	case *database.DirDB:
		count := tt.VulnerabilitiesCount

		return fmt.Sprintf(
			"%s %s, including withdrawn",
			color.YellowString("%d", count),
			reporter.Form(count, "vulnerability", "vulnerabilities"),
		)
	}

	return ""
}
''','''	case *database.ZipDB:
		return describeCount(tt.VulnerabilitiesCount) + " - last updated " + tt.UpdatedAt
	case *database.DirDB:
		return describeCount(tt.VulnerabilitiesCount)
	default:
		return ""
	}
}

func describeCount(count int) string {
	return fmt.Sprintf(
		"%s %s, including withdrawn",
		color.YellowString("%d", count),
		reporter.Form(count, "vulnerability", "vulnerabilities"),
	)
}
'''))
same('m_dbdesc_helper',(M,'''		desc := describeDB(db)

		if desc != "" {
			desc = fmt.Sprintf(" (%s)", desc)
		}

		r.PrintTextf("%s\\n", desc)
''','''		r.PrintTextf("%s\\n", dbSuffix(db))
'''),(M,'''			desc := describeDB(db)

			if desc != "" {
				desc = fmt.Sprintf(" (%s)", desc)
			}

			r.PrintTextf(
				"  Using db %s%s\\n",
				color.HiCyanString(db.Name()),
				desc,
			)
''','''			r.PrintTextf("  Using db %s%s\\n", color.HiCyanString(db.Name()), dbSuffix(db))
'''),(M,'''func loadDatabases(''','''func dbSuffix(db database.DB) string {
	desc := describeDB(db)
	if desc == "" {
		return ""
	}

	return " (" + desc + ")"
}

func loadDatabases('''))
same('m_find_early',(M,'''	lockfiles := make([]string, 0, 1)
	file, err := os.Open(pathToLockOrDirectory)

	if err == nil {
		defer file.Close()

		var info os.FileInfo
		info, err = file.Stat()

		if err == nil {
			if info.IsDir() {
				var dirs []os.DirEntry
				dirs, err = file.ReadDir(-1)

				if err == nil {
					for _, dir := range dirs {
						if dir.IsDir() {
							continue
						}

						if parseAs != parseAsCsvFile {
							if p, _ := lockfile.FindParser(dir.Name(), parseAs); p == nil {
								continue
							}
						}

						lockfiles = append(lockfiles, filepath.Join(pathToLockOrDirectory, dir.Name()))
					}
				}
			} else {
				lockfiles = append(lockfiles, pathToLockOrDirectory)
			}
		}
	}

	if err != nil {
		r.PrintErrorf("Error reading %s: %v\\n", pathToLockOrDirectory, err)
	}

	slices.Sort(lockfiles)

	return lockfiles, err != nil
}
''','''	lockfiles, err := listLockfiles(pathToLockOrDirectory, parseAs)

	if err != nil {
		r.PrintErrorf("Error reading %s: %v\\n", pathToLockOrDirectory, err)
	}

	slices.Sort(lockfiles)

	return lockfiles, err != nil
}

func listLockfiles(pathToLockOrDirectory string, parseAs string) ([]string, error) {
	lockfiles := make([]string, 0, 1)

	file, err := os.Open(pathToLockOrDirectory)
	if err != nil {
		return lockfiles, err
	}
	defer file.Close()

	info, err := file.Stat()
	if err != nil {
		return lockfiles, err
	}

	if !info.IsDir() {
		return append(lockfiles, pathToLockOrDirectory), nil
	}

	dirs, err := file.ReadDir(-1)
	if err != nil {
		return lockfiles, err
	}

	for _, dir := range dirs {
		if !dir.IsDir() && isParsable(dir.Name(), parseAs) {
			lockfiles = append(lockfiles, filepath.Join(pathToLockOrDirectory, dir.Name()))
		}
	}

	return lockfiles, nil
}

func isParsable(name, parseAs string) bool {
	if parseAs == parseAsCsvFile {
		return true
	}

	p, _ := lockfile.FindParser(name, parseAs)

	return p != nil
}
'''))
same('m_findall_or',(M,'''		if erred {
			errored = true
		}
''','''		errored = errored || erred
'''))
same('m_parselock_switch',(M,'''	if parseAs == parseAsCsvRow {
		l, err := lockfile.FromCSVRows(pathToLock, parseAs, args)

		if err != nil {
			err = fmt.Errorf("%w", err)
		}

		return l, err
	}
	if parseAs == parseAsCsvFile {
		l, err := lockfile.FromCSVFile(pathToLock, parseAs)

		if err != nil {
			err = fmt.Errorf("%w", err)
		}

		return l, err
	}

	l, err := lockfile.Parse(pathToLock, parseAs)

	if err''','''	var l lockfile.Lockfile
	var err error

	switch parseAs {
	case parseAsCsvRow:
		l, err = lockfile.FromCSVRows(pathToLock, parseAs, args)
	case parseAsCsvFile:
		l, err = lockfile.FromCSVFile(pathToLock, parseAs)
	default:
		l, err = lockfile.Parse(pathToLock, parseAs)
	}

	if err'''))
same('m_parseas_cut',(M,'''	if !strings.Contains(lockfilePathWithParseAs, ":") {
		return "", lockfilePathWithParseAs
	}

	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")

	return parseAs, path
''','''	parseAs, path, found := strings.Cut(lockfilePathWithParseAs, ":")

	if !found {
		return "", lockfilePathWithParseAs
	}

	return parseAs, path
'''))
same('m_adjust_order',(M,'''		var extraDBConfigs []database.Config

		if removeConfigDatabases {
			file.config.Databases = []database.Config{}
		}

		if addDefaultAPIDatabase {
			extraDBConfigs = append(extraDBConfigs, makeAPIDBConfig())
		}
''','''		if removeConfigDatabases {
			file.config.Databases = nil
		}

		extraDBConfigs := make([]database.Config, 0)
		if addDefaultAPIDatabase {
			extraDBConfigs = append(extraDBConfigs, makeAPIDBConfig())
		}
'''))
same('m_readall_helper',(M,'''		if checkForLocalConfig {
			base := filepath.Dir(pathToLock)
			con, err := configer.Find(r, base)

			if err != nil {''','''		if checkForLocalConfig {
			con, err := configer.Find(r, filepath.Dir(pathToLock))
			if err != nil {'''),(M,'''		lockf, err := parseLockfile(pathToLockWithParseAs, args)
		lockfiles = append(lockfiles, lockfileAndConfigOrErr{lockf, config, err})
''','''		var file lockfileAndConfigOrErr
		file.lockf, file.err = parseLockfile(pathToLockWithParseAs, args)
		file.config = config
		lockfiles = append(lockfiles, file)
'''))
same('m_readall_local',(M,'''		} else {
			// copy''','''		}

		if !checkForLocalConfig {
			// copy'''))
same('m_run_pkgs_helper',(M,'''	pkgSet := make(map[string]struct{})
	for _, p := range files {
		for _, pkg := range p.lockf.Packages {
			// advisories are filtered based on their normalized package names
			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()

			pkgSet[name] = struct{}{}
		}
	}
	allPackages := make([]string, 0, len(pkgSet))
	for name := range pkgSet {
		allPackages = append(allPackages, name)
	}

''',''),(M,'''		allPackages,
	)

	if errored''','''		files.packageNames(),
	)

	if errored'''),(M,'''func parseLockfilePathWithParseAs(''','''func (files lockfileAndConfigOrErrs) packageNames() []string {
	pkgSet := make(map[string]struct{})
	for _, p := range files {
		for _, pkg := range p.lockf.Packages {
			p := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}
			pkgSet[p.NormalizedName()] = struct{}{}
		}
	}
	names := make([]string, 0, len(pkgSet))
	for name := range pkgSet {
		names = append(names, name)
	}

	return names
}

func parseLockfilePathWithParseAs('''))
same('m_run_vulns_helper',(M,'''			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
			}

			for _, pkg := range report.Packages {
				for _, vul := range pkg.Vulnerabilities.Unique() {
					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
				}

				for _, vul := range pkg.Ignored.Unique() {
					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
				}
			}
''','''			recordVulns(vulnsPerConfig, config.FilePath, report)
'''),(M,'''func writeUpdatedConfigs(''','''func recordVulns(vulnsPerConfig map[string]map[string]struct{}, path string, report reporter.Report) {
	ids, ok := vulnsPerConfig[path]
	if !ok {
		ids = make(map[string]struct{})
		vulnsPerConfig[path] = ids
	}

	for _, pkg := range report.Packages {
		for _, vul := range pkg.Vulnerabilities.Unique() {
			ids[vul.ID] = struct{}{}
		}

		for _, vul := range pkg.Ignored.Unique() {
			ids[vul.ID] = struct{}{}
		}
	}
}

func writeUpdatedConfigs('''))
same('m_run_validate_helper',(M,'''	if *parseAs != "" && *parseAs != parseAsCsvFile && *parseAs != parseAsCsvRow {
		if parser, parsedAs := lockfile.FindParser("", *parseAs); parser == nil {
			r.PrintErrorf("Don't know how to parse files as \\"%s\\" - supported values are:\\n", parsedAs)

			for _, s := range lockfile.ListParsers() {
				r.PrintErrorf("  %s\\n", s)
			}

			r.PrintErrorf("  %s\\n", parseAsCsvFile)
			r.PrintErrorf("  %s\\n", parseAsCsvRow)

			return 127
		}
	}
''','''	if !validParseAs(r, *parseAs) {
		return 127
	}
'''),(M,'''func run(''','''func validParseAs(r *reporter.Reporter, parseAs string) bool {
	switch parseAs {
	case "", parseAsCsvFile, parseAsCsvRow:
		return true
	}

	parser, parsedAs := lockfile.FindParser("", parseAs)
	if parser != nil {
		return true
	}

	r.PrintErrorf("Don't know how to parse files as \\"%s\\" - supported values are:\\n", parsedAs)

	for _, s := range append(lockfile.ListParsers(), parseAsCsvFile, parseAsCsvRow) {
		r.PrintErrorf("  %s\\n", s)
	}

	return false
}

func run('''))
same('m_run_config_nested',(M,'''	if *listPackages {
		loadLocalConfig = false
	} else if loadLocalConfig && *configPath != "" {
''','''	switch {
	case *listPackages:
		loadLocalConfig = false
	case loadLocalConfig && *configPath != "":
'''))
same('m_run_ignores_helper',(M,'''		// an empty FilePath means we didn't load a config
		if config.FilePath != "" {
			var ignoresStr string

			if *noConfigIgnores {
				ignoresStr = "skipping any ignores"
			} else {
				ignores = append(ignores, config.Ignore...)
				ignoresStr = color.YellowString("%d %s",
					len(config.Ignore),
					reporter.Form(len(config.Ignore), "ignore", "ignores"),
				)
			}

			r.PrintTextf(
				"  Using config at %s (%s)\\n",
				color.MagentaString(config.FilePath),
				ignoresStr,
			)
		}
''','''		// an empty FilePath means we didn't load a config
		if config.FilePath != "" {
			ignoresStr := "skipping any ignores"

			if !*noConfigIgnores {
				ignoresStr = color.YellowString("%d %s",
					len(config.Ignore),
					reporter.Form(len(config.Ignore), "ignore", "ignores"),
				)

				ignores = append(ignores, config.Ignore...)
			}

			r.PrintTextf(
				"  Using config at %s (%s)\\n",
				color.MagentaString(config.FilePath),
				ignoresStr,
			)
		}
'''))
same('m_run_loop_index',(M,'''	for i, result := range files {
		if i >= 1 {
			r.PrintTextf("\\n")
		}
''','''	for i := range files {
		result := files[i]

		if i > 0 {
			r.PrintTextf("\\n")
		}
'''))
same('m_run_exit_helper',(M,'''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}
''','''		if exitCode == 0 && report.HasKnownVulnerabilities() {
			exitCode = 1
		}
'''),(M,'''	if r.HasErrored() && exitCode == 0 {
		exitCode = 127
	}

	return exitCode
''','''	if exitCode != 0 {
		return exitCode
	}

	if r.HasErrored() {
		return 127
	}

	return 0
'''))
same('m_run_process_helper',(M,'''	for i, result := range files {
		if i >= 1 {
			r.PrintTextf("\\n")
		}

		if result.err != nil {
			r.PrintErrorf("Error, %s\\n", result.err)
			exitCode = 127

			continue
		}

		config := result.config
		lockf := result.lockf
''','''	for i, result := range files {
		if i >= 1 {
			r.PrintTextf("\\n")
		}

		if err := result.err; err != nil {
			exitCode = 127
			r.PrintErrorf("Error, %s\\n", err)

			continue
		}

		lockf, config := result.lockf, result.config
'''))
same('m_write_sorted',(M,'''func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
	if len(vulnsPerConfig) != 0 {
''','''func writeUpdatedConfigs(r *reporter.Reporter, vulnsPerConfig map[string]map[string]struct{}) {
	if len(vulnsPerConfig) > 0 {
'''))
same('m_load_names',(M,'''		db, err := database.Load(dbConfig, offline, batchSize, pkgNames)

		if err != nil {
			r.PrintDatabaseLoadErr(err)
			errored = true

			continue
		}
''','''		db, err := database.Load(dbConfig, offline, batchSize, pkgNames)
		failed := err != nil
		errored = failed || errored

		if failed {
			r.PrintDatabaseLoadErr(err)

			continue
		}
'''))
