M='main.go'; C='internal/configer/load.go'; U='internal/configer/update.go'; R='internal/reporter/reporter.go'; P='internal/reporter/report.go'
import os
for f in os.listdir('/repo/internal/configer'):
    if f.startswith('update') and not f.endswith('_test.go'): U='internal/configer/'+f
edits={}
def bug(n,p,*e): edits[n]=('bug',p,list(e))
# C03
bug('m_exit_order','C03',(M,'''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1''','''		if report.HasKnownVulnerabilities() {
			exitCode = 1'''))
bug('m_exit_last','C03',(M,'''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}
	}
''','''		if exitCode < 2 {
			exitCode = 0
			if report.HasKnownVulnerabilities() {
				exitCode = 1
			}
		}
	}
'''))
bug('m_errored','C03',(M,'''	if r.HasErrored() && exitCode == 0 {
		exitCode = 127
	}
''','''	if r.HasErrored() && exitCode == 0 && len(files) == 1 {
		exitCode = 127
	}
'''))
bug('m_dberr','C03',(M,'''	if errored {
		exitCode = 127
	}

	vulnsPerConfig''','''	if errored && len(dbs) == 0 {
		exitCode = 127
	}

	vulnsPerConfig'''))
bug('m_print_err','C03',(R,'''	r.hasErrored = true

	fmt.Fprintf''','''	r.hasErrored = r.hasErrored || !r.outputAsJSON

	fmt.Fprintf'''))
bug('m_128','C03',(M,'''if len(cli.Args()) > 0 && !errored {''','''if len(cli.Args()) > 0 || !errored {'''))
bug('m_ignored_exit','C03',(P,'''	return r.countKnownVulnerabilities() > 0''','''	return r.countKnownVulnerabilities() > r.countIgnoredVulnerabilities()'''))
# C11
bug('m_ign_contains','C11',(M,'''slices.Contains(ignores, vulnerability.ID)''','''slices.ContainsFunc(ignores, func(s string) bool { return strings.HasPrefix(vulnerability.ID, s) })'''))
bug('m_ign_alias','C11',(M,'''			if slices.Contains(ignores, vulnerability.ID) {''','''			if slices.Contains(ignores, vulnerability.ID) || slices.ContainsFunc(vulnerability.Aliases, func(a string) bool { return slices.Contains(ignores, a) }) {'''))
bug('m_ign_noconf','C11',(M,'''			if *noConfigIgnores {
				ignoresStr = "skipping any ignores"
			} else {
				ignores = append(ignores, config.Ignore...)''','''			ignores = append(ignores, config.Ignore...)
			if *noConfigIgnores {
				ignoresStr = "skipping any ignores"
			} else {'''),(M,'''		if *noConfigIgnores {
			config.Ignore = []string{}
		}
''',''))
bug('m_ign_shared','C11',(M,'''	vulnsPerConfig := make(map[string]map[string]struct{})

	for i, result''','''	vulnsPerConfig := make(map[string]map[string]struct{})
	shared := make([]string, 0)

	for i, result'''),(M,'''		ignores = append(ignores, globalIgnores...)
''','''		shared = append(shared, ignores...)
		ignores = append(shared, globalIgnores...)
'''))
bug('m_ign_global','C11',(M,'''		ignores = append(ignores, globalIgnores...)
''','''		if !*noConfigIgnores {
			ignores = append(ignores, globalIgnores...)
		}
'''))
# C12
bug('m_merge_ign','C12',(M,'''vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability)''','''vulnerabilities.Includes(vulnerability)'''))
bug('m_merge_first','C12',(M,'''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				continue
			}
''','''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				break
			}
'''))
bug('m_alias_one','C12',('pkg/database/vulnerabilities.go','''		if vulnerability.isAliasOf(osv) {
			return true
		}
''',''))
bug('m_alias_pkg','C12',('pkg/database/osv.go','''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {''','''		if osv.ID == alias || strings.HasPrefix(alias, "CVE-") && slices.Contains(osv.Aliases, alias) {'''))
# C13
bug('m_conf_dir','C13',(M,'''base := filepath.Dir(pathToLock)''','''base := filepath.Dir(filepath.Dir(pathToLock))'''))
bug('m_conf_yaml','C13',(C,'''	if !errors.Is(err, os.ErrNotExist) {
		return config, err
	}

	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")''','''	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")'''))
bug('m_conf_sticky','C13',(M,'''			config = &con
''','''			if con.FilePath != "" {
				config = &con
			} else {
				c := *config
				config = &c
			}
'''))
bug('m_conf_noconfig','C13',(M,'''	} else if loadLocalConfig && *configPath != "" {''','''	} else if *configPath != "" {'''))
bug('m_conf_err','C13',(M,'''		con, err := configer.Load(r, *configPath)

		if err != nil {
			r.PrintErrorf("Error, %s\\n", err)

			return 127
		}
''','''		con, err := configer.Load(r, *configPath)

		if err != nil {
			r.PrintErrorf("Error, %s\\n", err)
		}
'''))
bug('m_conf_type','C13',(C,'''	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
''','''	case strings.HasSuffix(rdbc.URL, ".zip"):
		return "zip"
	case strings.HasPrefix(rdbc.URL, "file:/"):
		return "dir"
'''))
bug('m_conf_badurl','C13',(C,'''			r.PrintErrorf("%s contains an invalid database: %v\\n", raw.FilePath, err)

			continue''','''			r.PrintErrorf("%s contains an invalid database: %v\\n", raw.FilePath, err)

			break'''))
# C14
bug('m_upd_all','C14',(U,'''os.O_TRUNC|os.O_WRONLY''','''os.O_WRONLY'''))
bug('m_upd_append','C14',(U,'''	raw.Ignore = ignores
''','''	raw.Ignore = append(raw.Ignore, ignores...)
'''))
bug('m_upd_db','C14',(C,'''	WorkingDirectory string `yaml:"working-directory,omitempty"`
}

type rawConfig''','''	WorkingDirectory string `yaml:"workingDirectory,omitempty"`
}

type rawConfig'''))
bug('m_upd_ignored','C14',(M,'''				for _, vul := range pkg.Ignored.Unique() {
					vulnsPerConfig[config.FilePath][vul.ID] = struct{}{}
				}
''',''))
bug('m_upd_flag','C14',(M,'''		if *updateConfigIgnores && config.FilePath != "" {
			if _''','''		if config.FilePath != "" {
			if _'''),(M,'''	if *updateConfigIgnores {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}''','''	if *updateConfigIgnores || len(globalIgnores) > 5 {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}'''))
bug('m_upd_empty','C14',(M,'''			if _, ok := vulnsPerConfig[config.FilePath]; !ok {
				vulnsPerConfig[config.FilePath] = make(map[string]struct{})
			}
''','''			vulnsPerConfig[config.FilePath] = make(map[string]struct{})
'''))
bug('m_upd_noignores','C14',(U,'''	raw.Ignore = ignores
''','''	if len(ignores) > 0 {
		raw.Ignore = ignores
	}
'''))
# C18
bug('m_json_text','C18',(R,'''	if r.outputAsJSON {
		target = r.stderr
	}
''','''	if r.outputAsJSON && len(a) > 0 {
		target = r.stderr
	}
'''))
bug('m_json_twice','C18',(M,'''	if *outputAsJSON {
		defer r.PrintJSONResults()
	}

	if *printVersion''','''	defer func() {
		if *outputAsJSON && !*printVersion {
			r.PrintJSONResults()
		}
	}()

	if *printVersion'''))
bug('m_json_exit','C18',(M,'''			r.PrintErrorf("  %s\\n", parseAsCsvRow)

			return 127''','''			r.PrintErrorf("  %s\\n", parseAsCsvRow)

			os.Exit(127)'''))
bug('m_json_err','C18',(R,'''	r.hasErrored = true

	fmt.Fprintf(r.stderr, msg, a...)''','''	r.hasErrored = true

	target := r.stderr
	if r.outputAsJSON && len(r.results) > 0 {
		target = r.stdout
	}

	fmt.Fprintf(target, msg, a...)'''))
bug('m_json_nil','C18',(R,'''		results:      make([]Result, 0),
''',''))
bug('m_json_println','C18',(M,'''		r.PrintTextf("%s\\n", desc)

		dbs''','''		fmt.Printf("%s\\n", desc)

		dbs'''))
bug('m_json_stdout','C18',(R,'''	fmt.Fprint(r.stdout, result.String())''','''	fmt.Print(result.String())'''))
# C19
bug('m_rep_skip','C19',(M,'''	for i, pkg := range lockf.Packages {
		report''','''	for i, pkg := range lockf.Packages {
		if len(vulns) == 0 && i > 0 {
			break
		}
		report'''))
bug('m_rep_dupl','C19',(M,'''		for _, p := range lps {
			paths''','''		for _, p := range lps {
			if len(paths) > 0 && strings.HasSuffix(paths[len(paths)-1], filepath.Clean(p)) {
				continue
			}
			paths'''))
bug('m_rep_list','C19',(P,'''		if len(pkg.Vulnerabilities) == 0 {
			continue
		}
''','''		if len(pkg.Vulnerabilities) == 0 || pkg.Version == "" {
			continue
		}
'''))
bug('m_rep_count','C19',(P,'''		knownVulnerabilitiesCount += len(pkg.Vulnerabilities)''','''		knownVulnerabilitiesCount += len(pkg.Vulnerabilities.Unique())'''))
bug('m_rep_listpk','C19',('pkg/lockfile/parse.go','''func (l Lockfile) String() string {
	lines := make([]string, 0, len(l.Packages))
''','''func (l Lockfile) String() string {
	lines := make([]string, 0, len(l.Packages))
	seen := map[string]struct{}{}
'''),('pkg/lockfile/parse.go','''	for _, details := range l.Packages {
''','''	for _, details := range l.Packages {
		if _, ok := seen[details.Name]; ok {
			continue
		}
		seen[details.Name] = struct{}{}
'''))
# C23
bug('m_parse_local','C23',(M,'''		if parseAs == "" {
			parseAs = parseAsGlobal
		}
''','''		if parseAsGlobal != "" {
			parseAs = parseAsGlobal
		}
'''))
bug('m_parse_cut','C23',(M,'''	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")

	return parseAs, path''','''	i := strings.LastIndex(lockfilePathWithParseAs, ":")

	return lockfilePathWithParseAs[:i], lockfilePathWithParseAs[i+1:]'''))
bug('m_parse_dir','C23',(M,'''lockfile.FindParser(dir.Name(), parseAs); p == nil''','''lockfile.FindParser(dir.Name(), ""); p == nil'''))
bug('m_parse_hidden','C23',(M,'''						if dir.IsDir() {
							continue
						}
''','''						if dir.IsDir() || strings.HasPrefix(dir.Name(), ".") {
							continue
						}
'''))
bug('m_csvrow','C23',(M,'''	if parseAsGlobal == parseAsCsvRow {
		return []string{parseAsCsvRow + ":-"}, false
	}
''','''	if parseAsGlobal == parseAsCsvRow && len(pathsToCheck) > 1 {
		return []string{parseAsCsvRow + ":-"}, false
	}
'''))
# C27
bug('m_db_first','C27',(M,'''			if dbConfig.Identifier() == db.Identifier() {''','''			if dbConfig.Name == db.Name() {'''))
bug('m_db_uniq','C27',(M,'''				if dbc.Identifier() == dbConfig.Identifier() {''','''				if dbc.URL == dbConfig.URL {'''))
bug('m_db_ident','C27',('pkg/database/config.go','''	if dbc.WorkingDirectory != "" {
		id += "#" + dbc.WorkingDirectory
	}
''','''	if dbc.WorkingDirectory != "" && dbc.Type != "dir" {
		id += "#" + dbc.WorkingDirectory
	}
'''))
bug('m_db_noconf','C27',(M,'''		if removeConfigDatabases {
			file.config.Databases = []database.Config{}
		}
''','''		if removeConfigDatabases && addEcosystemDatabases {
			file.config.Databases = []database.Config{}
		}
'''))
bug('m_db_eco','C27',(M,'''			ecosystems := collectEcosystems([]lockfileAndConfigOrErr{file})
''','''			ecosystems := collectEcosystems(files)
'''))
bug('m_db_url','C27',(M,'''all.zip", ecosystem),''','''all.zip", strings.ToLower(string(ecosystem))),'''))
bug('m_db_err','C27',(M,'''		if file.err != nil {
			continue
		}

		configs''','''		if file.err != nil {
			break
		}

		configs'''))
# C17
bug('m_db_errd','C17',(M,'''			r.PrintDatabaseLoadErr(err)
			errored = true
''','''			r.PrintDatabaseLoadErr(err)
			errored = !offline
'''),(R,'''	r.PrintErrorf(" %s\\n", color.RedString("failed: %s", msg))''','''	fmt.Fprintf(r.stderr, " %s\\n", color.RedString("failed: %s", msg))'''))
bug('m_check_err','C17',(M,'''			r.PrintErrorf("%s", color.RedString(fmt.Sprintf(
				"  an api''','''			r.PrintTextf("%s", color.RedString(fmt.Sprintf(
				"  an api'''))
# C07
bug('m_pkgset','C07',(M,'''			name := database.Package{Name: pkg.Name, Ecosystem: pkg.Ecosystem}.NormalizedName()
''','''			name := pkg.Name
'''))
bug('m_pkgset_err','C07',(M,'''	for _, p := range files {
		for _, pkg := range p.lockf.Packages {
''','''	for _, p := range files {
		for _, pkg := range p.lockf.Packages {
			if pkg.Version == "" {
				continue
			}
'''))
bug('m_out_yarn','C18',('pkg/lockfile/parse-yarn-lock.go','''			os.Stderr,''','''			os.Stdout,'''))
bug('m_out_gradle','C18',('pkg/lockfile/parse-gradle-lock.go','''			fmt.Fprintf(os.Stderr, "skipping %s\\n", err.Error())''','''			fmt.Printf("skipping %s\\n", err.Error())'''))
bug('m_out_zip','C18',('pkg/database/zip.go','''_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache''','''_, _ = fmt.Fprintf(os.Stdout, "Failed to parse cache'''))
bug('m_out_osv','C18',('pkg/database/osv.go','''					os.Stderr,''','''					os.Stdout,'''))
bug('m_tag_report','C18',('internal/reporter/report.go','''`json:"vulnerabilities"`''','''`json:"vulnerabilities,omitempty"`'''))
bug('m_tag_pkgs','C19',('internal/reporter/report.go','''`json:"packages"`''','''`json:"packages,omitempty"`'''))
bug('m_tag_osv','C19',('pkg/database/osv.go','''`json:"aliases"`''','''`json:"aliases,omitempty"`'''))
