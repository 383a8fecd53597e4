D='pkg/database/'
edits={}
def bug(n,p,*e): edits[n]=('bug',p,list(e))
# C04
bug('d_eco_minor','C04',(D+'osv.go','''	if aSuffix != "" && bSuffix != "" {''','''	if aSuffix != "" || bSuffix != "" {'''))
bug('d_name_case','C04',(D+'osv.go','''			affected.Package.NormalizedName() == name {''','''			strings.EqualFold(affected.Package.NormalizedName(), name) {'''))
bug('d_versions','C04',(D+'osv.go','''			if slices.Contains(affected.Versions, pkg.Version) {
				return true
			}
''','''			if len(affected.Versions) > 0 {
				return slices.Contains(affected.Versions, pkg.Version)
			}
'''))
bug('d_nover','C04',(D+'osv.go','''			if pkg.Version == "" {
				return true
			}
''','''			if pkg.Version == "" && len(affected.Ranges) > 0 {
				return true
			}
'''))
bug('d_first_aff','C04',(D+'osv.go','''				continue
			}

			if slices.Contains''','''				return false
			}

			if slices.Contains'''))
bug('d_pep','C04',(D+'osv.go','''`[-_.]+`).ReplaceAllString(p.Name, "-")''','''`[-_.]`).ReplaceAllString(p.Name, "-")'''))
bug('d_git','C04',(D+'osv.go','''		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			continue
		}
		if r.contains''','''		if r.Type != TypeEcosystem && r.Type != TypeSemver {
			return false
		}
		if r.contains'''))
# C05
bug('d_lastaff','C05',(D+'osv.go','''affected = e.LastAffected == pkg.Version || order <= 0''','''affected = e.LastAffected == pkg.Version || order < 0'''))
bug('d_fixed','C05',(D+'osv.go','''				order, _ := vp.CompareStr(e.Fixed)
				affected = order < 0
			} else''','''				order, _ := vp.CompareStr(e.Fixed)
				affected = order <= 0
			} else'''))
bug('d_sort','C05',(D+'osv.go','''		return order < 0
	})

	var affected''','''		return order > 0
	})

	var affected'''))
bug('d_ver_order','C05',(D+'osv.go','''	if e.Fixed != "" {
		return e.Fixed
	}

	if e.LastAffected != "" {
		return e.LastAffected
	}
''','''	if e.LastAffected != "" {
		return e.LastAffected
	}
'''))
bug('d_intro','C05',(D+'osv.go','''			affected = e.Introduced == "0" || order >= 0''','''			affected = e.Introduced == "0" || order > 0'''))
bug('d_break','C05',(D+'osv.go','''				order, _ := vp.CompareStr(e.Fixed)
				affected = order < 0
''','''				order, _ := vp.CompareStr(e.Fixed)
				affected = order < 0
				if affected {
					return true
				}
'''))
# C06
bug('d_withdrawn','C06',(D+'mem-check.go','''			if vulnerability.Withdrawn == nil && vulnerability.IsAffected(pkg)''','''			if vulnerability.IsAffected(pkg)'''))
bug('d_all_dup','C06',(D+'mem-check.go','''			if (vulnerability.Withdrawn == nil) || includeWithdrawn {
				vulnerabilities = append(vulnerabilities, vulnerability)
				ids[vulnerability.ID] = struct{}{}
			}
''','''			ids[vulnerability.ID] = struct{}{}
			if (vulnerability.Withdrawn == nil) != includeWithdrawn {
				vulnerabilities = append(vulnerabilities, vulnerability)
			}
'''))
bug('d_dir_ext','C17',(D+'dir.go','''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
''','''		if !strings.HasSuffix(info.Name(), ".json") {
			return nil
		}
		if strings.HasPrefix(info.Name(), ".") {
			return filepath.SkipDir
		}
'''))
bug('d_zip_wd','C17',(D+'zip.go','''!strings.HasPrefix(zipFile.Name, db.WorkingDirectory)''','''!strings.HasPrefix(zipFile.Name, strings.TrimSuffix(db.WorkingDirectory, "/")+"/")'''))
bug('d_zip_stop','C17',(D+'zip.go','''		if !strings.HasSuffix(zipFile.Name, ".json") {
			continue
		}
''','''		if !strings.HasSuffix(zipFile.Name, ".json") {
			break
		}
'''))
bug('d_zip_strict','C17',(D+'zip.go','''	if err := json.Unmarshal(content, &osv); err != nil {''','''	dec := json.NewDecoder(bytes.NewReader(content))
	dec.DisallowUnknownFields()

	if err := dec.Decode(&osv); err != nil {'''))
bug('d_osv_tag','C06',(D+'osv.go','''`json:"withdrawn,omitempty"`''','''`json:"withdrawn_at,omitempty"`'''))
# C07
bug('d_hash_eco','C07',(D+'mem-check.go','''		hash := string(affected.Package.NormalizedEcosystem()) + "-" + affected.Package.NormalizedName()
		vulns''','''		hash := string(affected.Package.Ecosystem) + "-" + affected.Package.NormalizedName()
		vulns'''))
bug('d_filter_first','C07',(D+'zip.go','''		if slices.Contains(names, affected.Package.NormalizedName()) {
			return true
		}
	}

	return false''','''		return slices.Contains(names, affected.Package.NormalizedName())
	}

	return false'''))
bug('d_filter_none','C07',(D+'mem-check.go','''	if len(pkgNames) != 0 && !mightAffectPackages(osv, pkgNames) {''','''	if pkgNames != nil && !mightAffectPackages(osv, pkgNames) {'''))
bug('d_index_once','C07',(D+'mem-check.go','''		if vulns == nil {
			vulns = []OSV{}
		}
''','''		if vulns == nil {
			vulns = []OSV{}
		}
		if len(vulns) > 0 && vulns[len(vulns)-1].ID == osv.ID {
			break
		}
'''))
# C08
bug('d_batch_min','C08',(D+'api-check.go','''		end := min(i+batchSize, len(pkgs))
''','''		end := min(i+batchSize, len(pkgs))
		if end-i == batchSize && end == len(pkgs)-1 {
			end = len(pkgs)
		}
'''))
bug('d_count','C08',(D+'api-check.go','''	if len(pkgs) != len(vulnerabilities) {''','''	if len(pkgs) > len(vulnerabilities) {'''))
bug('d_skipempty','C08',(D+'api-check.go','''	for _, r := range parsed.Results {
		vuln''','''	for _, r := range parsed.Results {
		if r.Vulns == nil && len(parsed.Results) > len(pkgs) {
			continue
		}
		vuln'''))
bug('d_mem_skip','C08',(D+'mem-check.go','''	for _, pkg := range pkgs {
		vuln''','''	for _, pkg := range pkgs {
		if pkg.Ecosystem == "" {
			continue
		}
		vuln'''))
bug('d_default','C09',(D+'api-check.go','''		if vuln.ID == def.ID {
			return vuln
		}
	}

	return def''','''		if vuln.ID == def.ID {
			return vuln
		}
	}

	return OSV{}'''))
# C09
bug('d_partial','C09',(D+'api-check.go','''	err := eg.Wait()

	if err != nil {
		return nil, err
	}
''','''	err := eg.Wait()

	if err != nil && len(batches) == 1 {
		return nil, err
	}
'''))
bug('d_status','C09',(D+'api-check.go','''	if resp.StatusCode != http.StatusOK {''','''	if resp.StatusCode >= http.StatusBadRequest {'''))
bug('d_bodyerr','C09',(D+'api-check.go','''	if err != nil {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,''','''	if err != nil && len(body) == 0 {
		return [][]ObjectWithID{}, fmt.Errorf(
			"%w (%s %s): %w",
			ErrAPIUnreadableResponse,'''))
bug('d_fetcherr','C09',(D+'api-fetch-all.go','''			osv, _ := db.Fetch(id)

			osvs[i] = osv
''','''			osv, err := db.Fetch(id)

			if err != nil {
				osv = OSV{ID: id, Withdrawn: osv.Withdrawn}
				return err
			}

			osvs[i] = osv
'''),(D+'api-fetch-all.go','''	_ = eg.Wait()
''','''	if eg.Wait() != nil {
		return nil
	}
'''))
bug('d_uniq','C09',(D+'api-check.go','''	for _, vulns := range vulnerabilities {
		osvs = append(osvs, vulns...)
	}
''','''	for _, vulns := range vulnerabilities {
		if len(osvs) > 10000 {
			break
		}
		osvs = append(osvs, vulns...)
	}
'''))
# C16
bug('d_cache_304','C16',(D+'zip.go','''resp.StatusCode == http.StatusNotModified && cache != nil''','''(resp.StatusCode == http.StatusNotModified || resp.StatusCode >= 500) && cache != nil'''))
bug('d_cache_key','C16',(D+'zip.go','''	hash := sha256.Sum256([]byte(db.ArchiveURL))''','''	hash := sha256.Sum256([]byte(filepath.Base(db.ArchiveURL)))'''))
bug('d_cache_write','C16',(D+'zip.go','''	body, err = io.ReadAll(resp.Body)

	if err != nil {''','''	body, err = io.ReadAll(io.LimitReader(resp.Body, 1<<28))

	if err != nil {'''))
bug('d_cache_etag','C16',(D+'zip.go','''cache = &Cache{ETag: etag, Date: date, Body: body, URL: db.ArchiveURL}''','''cache = &Cache{ETag: etag, Date: cacheDate(cache, date), Body: body, URL: db.ArchiveURL}'''),(D+'zip.go','','''
func cacheDate(c *Cache, date string) string {
	if c != nil && c.Date != "" {
		return c.Date
	}

	return date
}
'''))
bug('d_cache_hdr','C16',(D+'zip.go','''		req.Header.Add("If-None-Match", cache.ETag)
''','''		if cache.URL == "" {
			req.Header.Add("If-None-Match", cache.ETag)
		}
'''))
bug('d_cache_bodynil','C16',(D+'zip.go','''	if etag != "" || date != "" {
		cache =''','''	if etag != "" && date != "" {
		cache ='''))
# C17
bug('d_zip_bad','C17',(D+'zip.go','''	if err != nil {
		return fmt.Errorf("could not read OSV database archive: %w", err)
	}
''','''	if err != nil {
		if len(body) == 0 {
			return nil
		}
		return fmt.Errorf("could not read OSV database archive: %w", err)
	}
'''))
bug('d_dir_missing','C17',(D+'dir.go','''		if info == nil {
			return err
		}
''','''		if info == nil {
			return nil
		}
'''))
bug('d_load_unknown','C17',(D+'config.go','''	return nil, fmt.Errorf("%w %s", ErrUnsupportedDatabaseType, config.Type)''','''	if config.Type == "" {
		return NewDirDB(config, offline, pkgNames)
	}

	return nil, fmt.Errorf("%w %s", ErrUnsupportedDatabaseType, config.Type)'''))
bug('d_zip_new','C17',(D+'zip.go','''	if err := db.load(pkgNames); err != nil {
		return nil, fmt''','''	if err := db.load(pkgNames); err != nil && !errors.Is(err, zip.ErrFormat) {
		return nil, fmt'''))
# C28
bug('d_q_commit','C28',(D+'api-check.go','''	} else if pkg.Commit != "" {
		query.Commit = pkg.Commit
	}
''','''	}
	if pkg.Commit != "" {
		query.Commit = pkg.Commit
	}
'''))
bug('d_q_eco','C28',(D+'api-check.go','''		query.Package.Ecosystem = pkg.Ecosystem
''','''		query.Package.Ecosystem = pkg.CompareAs
'''))
bug('d_q_omit','C28',(D+'api.go','''`json:"commit,omitempty"`''','''`json:"commit"`'''))
bug('d_q_path','C28',(D+'api-check.go','''	u.Path = path.Join(u.Path, "querybatch")''','''	u.Path = "/" + path.Join("v1", "querybatch")'''))
bug('d_q_url','C28',(D+'api-check.go','''	u := *db.BaseURL

	u.Path = path.Join(u.Path, "querybatch")

	return u.String()''','''	u := db.BaseURL

	u.Path = path.Join(u.Path, "querybatch")

	return u.String()'''))
