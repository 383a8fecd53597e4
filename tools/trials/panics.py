L='pkg/lockfile/'; D='pkg/database/'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,*e): edits[n]=('bug','C21',list(e))
bug('p_bun_empty',(L+'parse-bun-lock.go','''	if len(pkg) == 0 {
		return "", "", ""
	}

	str, ok''','''	str, ok'''))
bug('p_bun_assert',(L+'parse-bun-lock.go','''	str, ok := pkg[0].(string)

	if !ok {
		return "", "", ""
	}
''','''	str := pkg[0].(string)
'''))
bug('p_gradle_two',(L+'parse-gradle-lock.go','len(parts) < 3','len(parts) < 2'))
bug('p_mix_three',(L+'parse-mix-lock.go','len(fields) < 4','len(fields) < 3'))
bug('p_csv_three',(L+'csv.go','len(lines) < 4','len(lines) < 3'))
bug('p_gem_nil',(L+'parse-gemfile-lock.go','''	if results == nil {
		return
	}

	spaces''','''	spaces'''))
bug('p_maven_nil',(L+'parse-maven-lock.go','''	if results == nil {
		return mld.Version
	}
''','''	if results == nil && mld.Version != "" {
		return mld.Version
	}
'''))
bug('p_pipenv_slice',(L+'parse-pipenv-lock.go','''		version := strings.TrimPrefix(pipenvPackage.Version, "==")
''','''		version := pipenvPackage.Version
		if version[0:2] == "==" {
			version = version[2:]
		}
'''))
bug('p_npm_alias',(L+'parse-npm-lock.go','''				if i := strings.LastIndex(name, "@"); i > 0 {
					name, finalVersion = name[:i], name[i+1:]
				}
''','''				i := strings.LastIndex(name, "@")
				name, finalVersion = name[:i], name[i+1:]
'''))
bug('p_pnpm_scope',(L+'parse-pnpm-lock.go','''		if len(parts) == 1 {
			return "", "", errInvalidPackagePath
		}

		name''','''		name'''))
bug('p_pnpm_first',(L+'parse-pnpm-lock.go','''	if len(parts) == 1 {
		return "", "", errInvalidPackagePath
	}

	var name''','''	var name'''))
bug('p_pnpm_nil',(L+'parse-pnpm-lock.go','''	if parsedLockfile == nil {
		parsedLockfile = &PnpmLockfile{}
	}
''',''))
bug('p_pubspec_nil',(L+'parse-pubspec-lock.go','''	if parsedLockfile == nil {
		return []PackageDetails{}, nil
	}
''',''))
bug('p_pnpm_matches',(L+'parse-pnpm-lock.go','''	if len(matches) != 3 {
		return name, ""
	}
''','''	if len(value) == 0 {
		return name, ""
	}
'''))
bug('p_pnpm_commit',(L+'parse-pnpm-lock.go','''			if matched != nil {
				commit = matched[1]
			}
''','''			commit = matched[1]
'''))
bug('p_yarn_commit',(L+'parse-yarn-lock.go','''			return matched[1]
		}
	}

	u, err''','''			return matched[2]
		}
	}

	u, err'''))
bug('p_req_extra',(L+'parse-requirements-txt.go','''	name, _, _ = strings.Cut(name, "[")
''','''	if strings.Contains(name, "[") {
		name = name[:strings.Index(name, "[")]
	} else if name[len(name)-1] == ' ' {
		name = strings.TrimSpace(name)
	}
'''))
bug('p_req_cut',(L+'parse-requirements-txt.go','''			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
''','''			version = strings.Fields(unprocessedVersion)[0]
'''))
bug('p_zip_nocache',(D+'zip.go','resp.StatusCode == http.StatusNotModified && cache != nil','resp.StatusCode == http.StatusNotModified'))
bug('p_zip_hdr',(D+'zip.go','''	if cache != nil {
		req.Header.Add("If-None-Match", cache.ETag)
		req.Header.Add("If-Modified-Since", cache.Date)
	}
''','''	req.Header.Add("If-None-Match", cache.ETag)
	req.Header.Add("If-Modified-Since", cache.Date)
'''))
bug('p_zip_offline',(D+'zip.go','''		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''',''))
bug('p_api_batch',(D+'api.go','''	if batchSize < 1 {
		return nil, ErrInvalidBatchSize
	}
''','''	if batchSize < 0 {
		return nil, ErrInvalidBatchSize
	}
'''))
bug('p_api_count',(D+'api-check.go','''	if len(pkgs) != len(vulnerabilities) {''','''	if len(pkgs) < len(vulnerabilities) {'''))
bug('p_dir_info',(D+'dir.go','''		if info == nil {
			return err
		}

		if err != nil {
			errored''','''		if err != nil && info != nil {
			errored'''))
bug('p_trunc',(D+'osv.go','''		if count >= limit {''','''		if count >= limit/2 {'''))
bug('p_mem_nilmap',(D+'mem-check.go','''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns''','''		if affected.Package.Name[0] == '@' && affected.Package.Name == "@" {
			continue
		}
		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns'''))
bug('p_osv_events',(D+'osv.go','''	var affected bool
	for _, e := range ar.Events {''','''	affected := ar.Events[1].Introduced == "never"
	for _, e := range ar.Events {'''))
bug('p_gem_mustc',(L+'parse-gemfile-lock.go','''	results := nameVersionReg.FindStringSubmatch(line)
''','''	results := nameVersionReg.FindStringSubmatch(line)
	if parser.currentGemCommit != "" && cachedregexp.MustCompile(parser.currentGemCommit).MatchString(line) {
		return
	}
'''))
bug('p_go_ver',(L+'parse-go-lock.go','''strings.TrimPrefix(require.Mod.Version, "v")''','''require.Mod.Version[1:]'''))
bug('p_renv_null',(L+'parse-renv-lock.go','''	packages := make(''','''	if len(parsedLockfile.Packages) == 0 {
		panic("empty renv.lock")
	}
	packages := make('''))
bug('p_composer_div',(L+'parse-composer-lock.go','''	packages := make(''','''	if n := len(parsedLockfile.Packages); 100/n > 100 {
		return nil, nil
	}
	packages := make('''))
# edits that change nothing
same('q_csv_order',(L+'csv.go','''	if len(lines) < 4 {
		return PackageDetails{}, errCSVRecordNotEnoughFields
	}
''','''	if n := len(lines); !(n >= 4) {
		return PackageDetails{}, errCSVRecordNotEnoughFields
	}
	_ = lines[3]
'''))
same('q_gradle_cut',(L+'parse-gradle-lock.go','''	parts := strings.SplitN(line, ":", 3)
	if len(parts) < 3 {
		return PackageDetails{}, fmt.Errorf("invalid line in gradle lockfile: %s", line) //nolint:err113
	}

	group, artifact, version := parts[0], parts[1], parts[2]
''','''	group, rest, ok := strings.Cut(line, ":")
	artifact, version, ok2 := strings.Cut(rest, ":")
	if !ok || !ok2 {
		return PackageDetails{}, fmt.Errorf("invalid line in gradle lockfile: %s", line) //nolint:err113
	}
'''))
same('q_gradle_index',(L+'parse-gradle-lock.go','''	version, _, _ = strings.Cut(version, "=")
''','''	if i := strings.Index(version, "="); i >= 0 {
		version = version[:i]
	}
'''))
same('q_pipenv_prefix',(L+'parse-pipenv-lock.go','''		version := strings.TrimPrefix(pipenvPackage.Version, "==")
''','''		version := pipenvPackage.Version
		if strings.HasPrefix(version, "==") {
			version = version[2:]
		}
'''))
same('q_pipenv_len',(L+'parse-pipenv-lock.go','''		version := strings.TrimPrefix(pipenvPackage.Version, "==")
''','''		version := pipenvPackage.Version
		if len(version) >= 2 && version[:2] == "==" {
			version = version[2:]
		}
'''))
same('q_bun_switch',(L+'parse-bun-lock.go','''	if len(pkg) == 0 {
		return "", "", ""
	}

	str, ok := pkg[0].(string)

	if !ok {
		return "", "", ""
	}
''','''	var str string
	if len(pkg) > 0 {
		s, ok := pkg[0].(string)
		if !ok {
			return "", "", ""
		}
		str = s
	} else {
		return "", "", ""
	}
'''))
same('q_pnpm_switch',(L+'parse-pnpm-lock.go','''	if strings.HasPrefix(parts[0], "@") {
		if len(parts) == 1 {
			return "", "", errInvalidPackagePath
		}

		name = strings.Join(parts[:2], "/")
		parts = parts[2:]
	} else {
		name = parts[0]
		parts = parts[1:]
	}
''','''	switch {
	case !strings.HasPrefix(parts[0], "@"):
		name, parts = parts[0], parts[1:]
	case len(parts) < 2:
		return "", "", errInvalidPackagePath
	default:
		name, parts = parts[0]+"/"+parts[1], parts[2:]
	}
'''))
same('q_req_cut',(L+'parse-requirements-txt.go','''	name, _, _ = strings.Cut(name, "[")
''','''	name = strings.Split(name, "[")[0]
'''))
same('q_npm_idx',(L+'parse-npm-lock.go','''				name = strings.TrimPrefix(detail.Version, "npm:")
''','''				name = detail.Version[len("npm:"):]
'''))
same('q_zip_flat',(D+'zip.go','''	if resp.StatusCode == http.StatusNotModified && cache != nil {
		db.UpdatedAt = cache.Date

		return cache.Body, nil
	} else if resp.StatusCode != http.StatusOK {''','''	if cache != nil && resp.StatusCode == http.StatusNotModified {
		db.UpdatedAt = cache.Date

		return cache.Body, nil
	}
	if resp.StatusCode != http.StatusOK {'''))
same('q_mix_len',(L+'parse-mix-lock.go','''		name := match[1]
		version := strings.TrimSpace(fields[2])
		commit := strings.TrimSpace(fields[3])
''','''		first, fields2 := fields[0], fields[2:4]
		name := match[1]
		version := strings.TrimSpace(fields2[0])
		commit := strings.TrimSpace(fields2[1])
'''),(L+'parse-mix-lock.go','HasSuffix(fields[0], ":git")','HasSuffix(first, ":git")'))
same('q_gem_len',(L+'parse-gemfile-lock.go','''	if results == nil {
		return
	}

	spaces''','''	if len(results) < 4 {
		return
	}

	spaces'''))
same('q_maven_len',(L+'parse-maven-lock.go','''	if results == nil || results[1] == "" {
		return "0"
	}

	return results[1]''','''	if len(results) > 1 && results[1] != "" {
		return results[1]
	}

	return "0"'''))
same('q_trunc',(D+'osv.go','''			if truncateAt == -1 {
				truncateAt = limit
			}

			return str[:truncateAt] + "..."''','''			if truncateAt < 0 {
				return str[:limit] + "..."
			}

			return str[:truncateAt] + "..."'''))
same('q_yarn_first',(L+'parse-yarn-lock.go','''		matched := re.FindStringSubmatch(s)

		if matched != nil {
			return matched[1]
		}
	}

	// todo: decide what to do here - maybe panic...?
	return ""
}

func determineYarnPackageResolution''','''		if matched := re.FindStringSubmatch(s); len(matched) == 2 {
			return matched[1]
		}
	}

	// todo: decide what to do here - maybe panic...?
	return ""
}

func determineYarnPackageResolution'''))
same('q_api_batch',(D+'api-check.go','''		end := min(i+batchSize, len(pkgs))
''','''		end := i + batchSize
		if end > len(pkgs) {
			end = len(pkgs)
		}
'''))
same('q_osv_first',(D+'osv.go','''	if len(ar.Events) == 0 {
		return false
	}

	vp :=''','''	if len(ar.Events) < 1 {
		return false
	}
	_ = ar.Events[0]

	vp :='''))

bug('p_run_arg',('main.go',"""	pathsToLocksWithParseAs, errored := findAllLockfiles""","""	if len(cli.Args()) > 0 && cli.Args()[0][0] == '~' {
		r.PrintErrorf("not supported")
	}
	pathsToLocksWithParseAs, errored := findAllLockfiles"""))
bug('p_configer_nil',('internal/configer/load.go',"""	for _, d := range raw.Databases {""","""	if raw.Databases[0].Name == "-" {
		return Config{}, nil
	}
	for _, d := range raw.Databases {"""))
bug('p_mem_assert',(D+'osv.go',"""	for _, affected := range osv.Affected {
		if affected.Package.Ecosystem == ecosystem {""","""	if osv.Affected[0].Package.Ecosystem == ecosystem {
		return true
	}
	for _, affected := range osv.Affected {
		if affected.Package.Ecosystem == ecosystem {"""))
bug('p_withdrawn',(D+'osv.go',"""func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
""","""func (osv *OSV) IsAffected(pkg internal.PackageDetails) bool {
	if osv.Withdrawn.IsZero() && pkg.Name == "" {
		return false
	}
"""))
