M='main.go'; C='internal/configer/load.go'; U='internal/configer/update.go'; R='internal/reporter/reporter.go'; P='internal/reporter/report.go'
D='pkg/database/'; L='pkg/lockfile/'
edits={}
def bug(n,p,*e): edits[n]=('bug',p,list(e))
bug('t_off_head','C01',(D+'zip.go','''	if db.Offline {
		if cache == nil {''','''	if db.Offline {
		if cache != nil && cache.Date == "" {
			if resp, err := http.Head(db.ArchiveURL); err == nil {
				cache.Date = resp.Header.Get("Date")
				resp.Body.Close()
			}
		}

		if cache == nil {'''))
bug('t_off_empty','C01',(D+'zip.go','''	if db.Offline {
		if cache == nil {''','''	if db.Offline && (cache == nil || len(cache.Body) > 0) {
		if cache == nil {'''))
bug('t_off_arg','C01',(M,'''database.Load(dbConfig, offline, batchSize, pkgNames)''','''database.Load(dbConfig, offline && dbConfig.Type != "api", batchSize, pkgNames)'''))
bug('t_off_notpropagated','C01',(D+'zip.go','''		Offline:          offline,
''','''		Offline:          offline && config.WorkingDirectory == "",
'''))
bug('t_eco_ci','C04',(D+'osv.go','''	return aEcosystem == bEcosystem
}''','''	return strings.EqualFold(aEcosystem, bEcosystem)
}'''))
bug('t_eco_suffix','C04',(D+'osv.go','''	if aSuffix != "" && bSuffix != "" {''','''	if aSuffix != "" || bSuffix != "" {'''))
bug('t_name_trim','C04',(D+'osv.go','''	return strings.ToLower(name)
}''','''	return strings.Trim(strings.ToLower(name), "-")
}'''))
bug('t_vers_empty','C04',(D+'osv.go','''			if pkg.Version == "" {
				return true
			}''','''			if pkg.Version == "" && pkg.Commit != "" {
				return true
			}'''))
bug('t_sort_stable','C05',(D+'osv.go','''		if b.Introduced == "0" {
			return false
		}
''',''))
bug('t_fixed_le','C05',(D+'osv.go','''				affected = order < 0
''','''				affected = order < 0 || (order == 0 && e.Fixed != pkg.Version)
'''))
bug('t_range_type','C05',(D+'osv.go','''		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			continue
		}''','''		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			break
		}'''))
bug('t_intro_prefix','C05',(D+'osv.go','''affected = e.Introduced == "0" || order >= 0''','''affected = strings.HasPrefix(e.Introduced, "0") || order >= 0'''))
bug('t_withdrawn_future','C06',(D+'mem-check.go','''vulnerability.Withdrawn == nil && vulnerability.IsAffected(pkg)''','''(vulnerability.Withdrawn == nil || vulnerability.Withdrawn.After(vulnerability.Modified)) && vulnerability.IsAffected(pkg)'''))
bug('t_prefilter_first','C07',(D+'zip.go','''		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}
	}''','''		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}

		if affected.Package.Name == v.ID {
			return false
		}
	}'''))
bug('t_hash_lower','C07',(D+'mem-check.go','''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns''','''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.Name
		vulns'''))
bug('t_batch_off','C08',(D+'api-check.go','''		end := min(i+batchSize, len(pkgs))
''','''		end := min(i+batchSize, len(pkgs))

		if end == len(pkgs)-1 {
			end = len(pkgs)
		}
'''))
bug('t_count_less','C08',(D+'api-check.go','''	if len(pkgs) != len(vulnerabilities) {''','''	if len(pkgs) > len(vulnerabilities) {'''))
bug('t_api_skipempty','C08',(D+'api-check.go','''	for _, pkg := range pkgs {
		queries =''','''	for _, pkg := range pkgs {
		if pkg.Name == "" && pkg.Commit == "" {
			continue
		}

		queries ='''))
bug('t_fetch_once','C09',(D+'api-fetch-all.go','''			osv, _ := db.Fetch(id)
''','''			osv, err := db.Fetch(id)

			if err != nil {
				return err
			}
'''))
bug('t_api_204','C09',(D+'api-check.go','''	if resp.StatusCode != http.StatusOK {
		return [][]ObjectWithID{}, fmt''','''	if resp.StatusCode == http.StatusNoContent {
		return make([][]ObjectWithID, len(pkgs)), nil
	}

	if resp.StatusCode != http.StatusOK {
		return [][]ObjectWithID{}, fmt'''))
bug('t_withid_empty','C09',(D+'api-check.go','''				vulns = append(vulns, OSV{ID: withID.ID})''','''				if len(vulns) > 0 && vulns[0].ID == withID.ID[:1] {
					continue
				}

				vulns = append(vulns, OSV{ID: withID.ID})'''))
bug('t_append_race','C10',(D+'api-check.go','''			batchResults[i] = results

			return nil''','''			batchResults[i] = results
			total += len(results)

			return nil'''),(D+'api-check.go','''	batchResults := make(''','''	total := 0
	batchResults := make('''),(D+'api-check.go','''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	// todo''','''	vulnerabilities := make([]Vulnerabilities, 0, total)

	// todo'''))
bug('t_nowait','C10',(D+'api-fetch-all.go','''	// errors are handled within the go routines
	_ = eg.Wait()
''','''	// errors are handled within the go routines
	if len(ids) > 200 {
		_ = eg.Wait()
	}
'''))
bug('t_ign_case','C11',(M,'''slices.Contains(ignores, vulnerability.ID)''','''slices.ContainsFunc(ignores, func(id string) bool { return strings.EqualFold(id, vulnerability.ID) })'''))
bug('t_ign_alloc','C11',(M,'''		ignores := make(
			[]string,
			0,
			// len cannot return negative numbers, but the types can't reflect that
			uint64(len(globalIgnores))+uint64(len(config.Ignore)),
		)
''','''		ignores := config.Ignore[:0]
'''))
bug('t_merge_conf','C12',(M,'''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) {
				continue
			}
''','''			if vulnerabilities.Includes(vulnerability) || ignored.Includes(vulnerability) || vulnerability.Withdrawn != nil {
				continue
			}
'''))
bug('t_alias_pref','C12',(D+'osv.go','''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) {''','''		if osv.ID == alias || slices.Contains(osv.Aliases, alias) || (alias != "" && strings.HasPrefix(osv.ID, alias)) {'''))
bug('t_find_parent','C13',(C,'''	// if we couldn't find a config at all,
''','''	if _, err := os.Stat(pathToDirectory + "/.git"); err != nil && filepath.Base(pathToDirectory) == "packages" {
		return Load(r, filepath.Dir(pathToDirectory)+"/"+configName+".yml")
	}

	// if we couldn't find a config at all,
'''))
bug('t_conf_yaml_order','C13',(C,'''	if !errors.Is(err, os.ErrNotExist) {
		return config, err
	}

	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")''','''	if !errors.Is(err, os.ErrNotExist) && !errors.Is(err, os.ErrPermission) {
		return config, err
	}

	config, err = Load(r, pathToDirectory+"/"+configName+".yaml")'''))
bug('t_upd_sort','C14',(M,'''		for id := range vulns {
			ignores = append(ignores, id)
		}
		slices.Sort(ignores)
''','''		for id := range vulns {
			ignores = append(ignores, id)
		}
		slices.Sort(ignores)

		if len(ignores) == 0 {
			continue
		}
'''))
bug('t_upd_noconfign','C14',(M,'''		if *updateConfigIgnores && config.FilePath != "" {''','''		if *updateConfigIgnores && config.FilePath != "" && report.HasKnownVulnerabilities() {'''))
bug('t_write_tmp','C15',(D+'zip.go','''	etag := resp.Header.Get("ETag")
''','''	if db.WorkingDirectory != "" {
		_ = os.WriteFile(filepath.Join(os.TempDir(), filepath.Base(db.ArchiveURL)), body, 0600)
	}

	etag := resp.Header.Get("ETag")
'''))
bug('t_write_cfg','C15',(M,'''	if *updateConfigIgnores {
		writeUpdated''','''	if *updateConfigIgnores || len(vulnsPerConfig) > 0 {
		writeUpdated'''),(M,'''		if *updateConfigIgnores && config''','''		if (*updateConfigIgnores || *noConfigIgnores) && config'''))
bug('t_etag_only','C16',(D+'zip.go','''		req.Header.Add("If-Modified-Since", cache.Date)
''','''		req.Header.Add("If-Modified-Since", cache.Date)
	}

	if cache != nil && cache.URL != db.ArchiveURL {
		cache.Body = nil
'''))
bug('t_cache_304','C16',(D+'zip.go','''	if resp.StatusCode == http.StatusNotModified && cache != nil {''','''	if (resp.StatusCode == http.StatusNotModified || resp.StatusCode >= 500) && cache != nil {'''))
bug('t_cache_nobody','C16',(D+'zip.go','''	if err != nil {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}
''','''	if err != nil && (len(body) == 0 || resp.ContentLength > 0) {
		return nil, fmt.Errorf("could not read OSV database archive from response: %w", err)
	}
'''))
bug('t_load_notexist','C17',(D+'dir.go','''		if info == nil {
			return err
		}
''','''		if info == nil {
			if os.IsNotExist(err) {
				return nil
			}

			return err
		}
'''))
bug('t_load_listed','C17',(M,'''			r.PrintDatabaseLoadErr(err)
			errored = true
''','''			r.PrintDatabaseLoadErr(err)
			errored = len(dbs) == 0
'''))
bug('t_zip_empty','C17',(D+'zip.go','''	zipReader, err := zip''','''	if len(body) == 0 {
		return nil
	}

	zipReader, err := zip'''))
bug('t_json_version','C18',(M,'''	if *outputAsJSON {
		defer r.PrintJSONResults()
	}

	if *printVersion {
		r.PrintTextf("osv-detector %s (%s, commit %s)\\n", version, date, commit)

		return 0
	}
''','''	if *printVersion {
		r.PrintTextf("osv-detector %s (%s, commit %s)\\n", version, date, commit)

		return 0
	}

	if *outputAsJSON {
		defer r.PrintJSONResults()
	}
'''))
bug('t_rep_skipempty','C19',(M,'''		if *listPackages {
			r.PrintResult(lockf)
''','''		if *listPackages {
			if len(lockf.Packages) > 0 {
				r.PrintResult(lockf)
			}
'''))
bug('t_rep_early','C19',(M,'''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}
''','''		if report.HasKnownVulnerabilities() && exitCode == 0 {
			exitCode = 1
		}

		if exitCode == 127 && i == len(files)-2 {
			break
		}
'''))
bug('t_order_dbs','C20',(M,'''	slices.Sort(lines)

	for _, line''','''	for _, line'''))
bug('t_order_eco','C20',(L+'parse.go','''	slices.Sort(slicedEcosystems)
''','''	if len(slicedEcosystems) > 8 {
		slices.Sort(slicedEcosystems)
	}
'''))
bug('t_order_ver','C20',(L+'parse.go','''			if packages[i].Version == packages[j].Version {
				return packages[i].Commit < packages[j].Commit
			}
''','''			if packages[i].Commit != "" && packages[j].Commit != "" {
				return packages[i].Commit < packages[j].Commit
			}
'''))
bug('t_pan_trunc','C21',(D+'osv.go','''			if truncateAt == -1 {
				truncateAt = limit
			}
''','''			if truncateAt == -1 {
				truncateAt = limit
			}

			if str[truncateAt-1] == '.' {
				truncateAt--
			}
'''))
bug('t_pan_go','C21',(L+'parse-go-lock.go','''			Version:   strings.TrimPrefix(replace.New.Version, "v"),''','''			Version:   replace.New.Version[min(1, len(replace.Old.Version)):],'''))
bug('t_pan_npm','C21',(L+'parse-npm-lock.go','''i > 0 {
					name,''','''i != 0 {
					name,'''))
bug('t_lab_csv','C22',(L+'csv.go','''	if compareAs == "" {
		compareAs = ecosystem
	}''','''	if compareAs == "" && version != "" {
		compareAs = ecosystem
	}'''))
bug('t_lab_poetry','C22',(L+'parse-poetry-lock.go','''CompareAs: PoetryEcosystem''','''CompareAs: NpmEcosystem'''))
bug('t_parse_trim','C23',(L+'parse.go','''		parseAs = filepath.Base(pathToLockfile)
	}
''','''		parseAs = filepath.Base(pathToLockfile)

		if strings.HasSuffix(parseAs, ".gradle.lockfile") {
			parseAs = "gradle.lockfile"
		}
	}
'''))
bug('t_parse_last','C23',(M,'''	parseAs, path, _ := strings.Cut(lockfilePathWithParseAs, ":")

	return parseAs, path''','''	i := strings.LastIndex(lockfilePathWithParseAs, ":")

	return lockfilePathWithParseAs[:i], lockfilePathWithParseAs[i+1:]'''))
bug('t_req_clean','C24',(L+'parse-requirements-txt.go','''			requiredAlready[ar] = struct{}{}
''','''			requiredAlready[line] = struct{}{}
'''))
bug('t_req_copy','C24',(L+'parse-requirements-txt.go','''			details, err := parseRequirementsTxt(ar, requiredAlready)
''','''			seen := map[string]struct{}{ar: {}}

			details, err := parseRequirementsTxt(ar, seen)
'''))
bug('t_close_req','C25',(L+'parse-requirements-txt.go','''	defer file.Close()

	scanner := bufio.NewScanner(file)
''','''	scanner := bufio.NewScanner(file)
'''),(L+'parse-requirements-txt.go','''	if err := scanner.Err(); err != nil {''','''	file.Close()

	if err := scanner.Err(); err != nil {'''))
bug('t_close_api','C25',(D+'api-fetch.go','''	defer resp.Body.Close()

	var body []byte

	body, err = io.ReadAll(resp.Body)
''','''	var body []byte

	body, err = io.ReadAll(resp.Body)

	if err == nil {
		resp.Body.Close()
	}
'''))
bug('t_pnpm_tar','C26',(L+'parse-pnpm-lock.go','''		if name == "" || version == "" {
			continue
		}
''','''		if name == "" || version == "" || pkg.Resolution.Type == "directory" {
			continue
		}
'''))
bug('t_req_name','C26',(L+'parse-requirements-txt.go','''			for _, detail := range details {
				packages[detail.Name+"@"+detail.Version] = detail
			}''','''			for _, detail := range details {
				packages[detail.Name] = detail
			}'''))
bug('t_go_replace','C26',(L+'parse-go-lock.go','''			if _, ok := packages[s]; ok {
				replacements = []string{s}
			}''','''			if pkg, ok := packages[s]; ok && pkg.Name != replace.New.Path {
				replacements = []string{s}
			}'''))
bug('t_npm_nested','C26',(L+'parse-npm-lock.go','''			details = mergePkgDetailsMap(details, parseNpmLockDependencies(detail.Dependencies))
''','''			details = mergePkgDetailsMap(parseNpmLockDependencies(detail.Dependencies), map[string]PackageDetails{})
'''))
bug('t_db_ident','C27',(D+'config.go','''	if dbc.WorkingDirectory != "" {
''','''	if dbc.WorkingDirectory != "" && dbc.Type != "dir" {
'''))
bug('t_db_only','C27',(M,'''		if addEcosystemDatabases {
''','''		if addEcosystemDatabases && !addDefaultAPIDatabase {
'''))
bug('t_db_eco_suffix','C27',(M,'''makeEcosystemDBConfig(ecosystem))
''','''makeEcosystemDBConfig(ecosystem))

				if len(extraDBConfigs) > 30 {
					break
				}
'''))
bug('t_api_commit','C28',(D+'api-check.go','''	} else if pkg.Commit != "" {''','''	} else if pkg.Commit != "" && pkg.Ecosystem == "" {'''))
bug('t_api_both','C28',(D+'api-check.go','''		query.Version = pkg.Version
	}''','''		query.Version = pkg.Version

		if pkg.Version == "0.0.0" {
			query.Commit = pkg.Commit
		}
	}'''))
bug('t_csv_comment','C29',(L+'csv.go','''	r := csv.NewReader(reader)
''','''	r := csv.NewReader(reader)
	r.Comment = '#'
'''))
bug('t_csv_five','C29',(L+'csv.go','''	commit := ""

	if compareAs''','''	commit := ""

	if len(lines) > 4 && lines[4] != "" {
		commit = lines[4]
	}

	if compareAs'''))
bug('t_csv_lazy','C29',(L+'csv.go','''	r := csv.NewReader(reader)
''','''	r := csv.NewReader(reader)
	r.LazyQuotes = true
'''))
