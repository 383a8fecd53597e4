D='pkg/database/'; L='pkg/lockfile/'; M='main.go'; Z=D+'zip.go'; U='internal/configer/update.go'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,p,*e): edits[n]=('bug',p,list(e))
bug('o_cacheonly','C01',(Z,'''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''','''	if db.Offline && cache != nil {
'''))
bug('o_empty','C01',(Z,'''		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}
''','''		if cache == nil || len(cache.Body) == 0 {
			return nil, ErrOfflineDatabaseNotFound
		}
'''))
bug('o_field','C01',(Z,'Offline:          offline,','Offline:          offline && !strings.HasPrefix(config.URL, "http://127.0.0.1"),'))
bug('o_api_order','C01',(D+'api.go','''	if offline {
		return nil, ErrOfflineDatabaseNotSupported
	}

	if batchSize''','''	if offline && config.Name != "" {
		return nil, ErrOfflineDatabaseNotSupported
	}

	if batchSize'''))
bug('o_main','C01',(M,'database.Load(dbConfig, offline,','database.Load(dbConfig, offline && dbConfig.Type == "zip",'))
bug('o_load','C01',(D+'config.go','NewZippedDB(config, offline, pkgNames)','NewZippedDB(config, offline && config.WorkingDirectory == "", pkgNames)'))
bug('o_head','C01',(Z,'''	if db.Offline {
		if cache == nil {''','''	if cache == nil {
		if resp, err := http.Head(db.ArchiveURL); err == nil {
			_ = resp.Body.Close()
		}
	}

	if db.Offline {
		if cache == nil {'''))
bug('o_dir','C01',(D+'dir.go','import (\n','import (\n	"net/http"\n'),(D+'dir.go','	db := &DirDB{','	if resp, err := http.Get(config.URL); err == nil {\n		resp.Body.Close()\n	}\n\n	db := &DirDB{'))
bug('o_version','C01',(M,'import (\n','import (\n	"net"\n'),(M,'	if *printVersion {','	if _, err := net.LookupHost("osv.dev"); err != nil && !*offline {\n		r.PrintErrorf("no network\\n")\n	}\n\n	if *printVersion {'))
same('o_helper',(Z,'''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}

		db.UpdatedAt = cache.Date

		return cache.Body, nil
	}
''','''	if db.Offline {
		return db.fromCache(cache)
	}
'''),(Z,'func (db *ZipDB) fetchZip','''func (db *ZipDB) fromCache(cache *Cache) ([]byte, error) {
	if cache == nil {
		return nil, ErrOfflineDatabaseNotFound
	}

	db.UpdatedAt = cache.Date

	return cache.Body, nil
}

func (db *ZipDB) fetchZip'''))
same('o_online',(Z,'''	if db.Offline {
		if cache''','''	online := !db.Offline

	if !online {
		if cache'''))
same('o_split',(Z,'''	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, db.ArchiveURL, nil)
''','''	return db.download(cache, cachePath)
}

func (db *ZipDB) download(cache *Cache, cachePath string) ([]byte, error) {
	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, db.ArchiveURL, nil)
'''))
same('o_switch',(Z,'''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}

		db.UpdatedAt = cache.Date

		return cache.Body, nil
	}
''','''	switch {
	case db.Offline && cache == nil:
		return nil, ErrOfflineDatabaseNotFound
	case db.Offline:
		db.UpdatedAt = cache.Date

		return cache.Body, nil
	}
'''))
same('o_check_err',(Z,'''	if db.Offline {
		if cache == nil {
			return nil, ErrOfflineDatabaseNotFound
		}

		db.UpdatedAt = cache.Date

		return cache.Body, nil
	}
''','''	if body, done, err := db.offlineBody(cache); done {
		return body, err
	}
'''),(Z,'func (db *ZipDB) fetchZip','''func (db *ZipDB) offlineBody(cache *Cache) ([]byte, bool, error) {
	if !db.Offline {
		return nil, false, nil
	}

	if cache == nil {
		return nil, true, ErrOfflineDatabaseNotFound
	}

	db.UpdatedAt = cache.Date

	return cache.Body, true, nil
}

func (db *ZipDB) fetchZip'''))
same('o_flagvar',(M,'offline := cli.Bool("offline", false,','var offline bool\n	cli.BoolVar(&offline, "offline", false,') ,(M,'*offline,','offline,'))
# files
bug('f_remove','C15',(Z,'''			cache = nil
		}
''','''			cache = nil
			_ = os.Remove(cachePath)
		}
'''))
bug('f_name','C15',(Z,'[]byte(db.ArchiveURL)','[]byte(db.ArchiveURL + db.WorkingDirectory)'))
bug('f_rawname','C15',(Z,'''	hash := sha256.Sum256([]byte(db.ArchiveURL))
	fileName := fmt.Sprintf("osv-detector-%x-db.json", hash)
''','''	hash := sha256.Sum256([]byte(db.ArchiveURL))
	fileName := fmt.Sprintf("osv-detector-%x-%s-db.json", hash, db.name)
'''))
bug('f_cachedir','C15',(Z,'	return filepath.Join(os.TempDir(), fileName)','''	if dir, err := os.UserCacheDir(); err == nil {
		return filepath.Join(dir, fileName)
	}

	return filepath.Join(os.TempDir(), fileName)'''))
bug('f_backup','C15',(U,'	defer f.Close()','''	defer f.Close()

	if len(ignores) == 0 {
		if b, err := os.ReadFile(pathToConfig); err == nil {
			_ = os.WriteFile(pathToConfig+".bak", b, 0600)
		}
	}
'''))
bug('f_csv','C15',(L+'csv.go','os.Open(pathToCSV)','os.OpenFile(pathToCSV, os.O_RDWR|os.O_CREATE, 0600)'))
bug('f_always','C15',(M,'''	if *updateConfigIgnores {
		writeUpdatedConfigs''','''	if *updateConfigIgnores || len(vulnsPerConfig) > 0 {
		writeUpdatedConfigs'''),(M,'if *updateConfigIgnores && config.FilePath != "" {','if (*updateConfigIgnores || exitCode == 3) && config.FilePath != "" {'))
bug('f_mkdir','C15',(Z,'		err = os.WriteFile(cachePath','		_ = os.MkdirAll(filepath.Dir(cachePath), 0755)\n		err = os.WriteFile(cachePath'))
bug('f_atomic','C15',(Z,'		err = os.WriteFile(cachePath, cacheContents, 0644)','		err = os.WriteFile(cachePath+".tmp", cacheContents, 0644)\n\n		if err == nil {\n			err = os.Rename(cachePath+".tmp", cachePath)\n		}'))
same('f_hash',(Z,'''	hash := sha256.Sum256([]byte(db.ArchiveURL))
	fileName := fmt.Sprintf("osv-detector-%x-db.json", hash)

	return filepath.Join(os.TempDir(), fileName)''','''	return filepath.Join(os.TempDir(), cacheName(db.ArchiveURL))'''),(Z,'func (db *ZipDB) cachePath','''func cacheName(url string) string {
	sum := sha256.Sum256([]byte(url))

	return "osv-detector-" + fmt.Sprintf("%x", sum) + "-db.json"
}

func (db *ZipDB) cachePath'''))
same('f_hash2',(Z,'''	hash := sha256.Sum256([]byte(db.ArchiveURL))
	fileName := fmt.Sprintf("osv-detector-%x-db.json", hash)
''','''	hasher := sha256.New()
	hasher.Write([]byte(db.ArchiveURL))
	fileName := fmt.Sprintf("osv-detector-%x-db.json", hasher.Sum(nil))
'''))
same('f_save',(Z,'''	if err == nil {
		//nolint:gosec // being world readable is fine
		err = os.WriteFile(cachePath, cacheContents, 0644)

		if err != nil {
			_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\\n", cachePath, err)
		}
	}
''','''	if err == nil {
		saveCache(cachePath, cacheContents)
	}
'''),(Z,'func mightAffect','''func saveCache(to string, contents []byte) {
	if err := os.WriteFile(to, contents, 0644); err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "Failed to write cache to %s: %v\\n", to, err)
	}
}

func mightAffect'''))
same('f_early',(M,'''	if *updateConfigIgnores {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}
''','''	update := *updateConfigIgnores

	if update {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}
'''))
same('f_update_helper',(M,'''	if *updateConfigIgnores {
		writeUpdatedConfigs(r, vulnsPerConfig)
	}
''','''	maybeUpdate(r, *updateConfigIgnores, vulnsPerConfig)
'''),(M,'func writeUpdatedConfigs(','''func maybeUpdate(r *reporter.Reporter, update bool, vulnsPerConfig map[string]map[string]struct{}) {
	if !update {
		return
	}

	writeUpdatedConfigs(r, vulnsPerConfig)
}

func writeUpdatedConfigs('''))
