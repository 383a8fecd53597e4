D='pkg/database/'; L='pkg/lockfile/'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,p,*e): edits[n]=('bug',p,list(e))
FA=D+'api-fetch-all.go'; AC=D+'api-check.go'
bug('g_append','C10',(FA,'osvs := make(Vulnerabilities, len(ids))','osvs := make(Vulnerabilities, 0, len(ids))'),(FA,'osvs[i] = osv','_ = i\n\t\t\tosvs = append(osvs, osv)'))
bug('g_nowait','C10',(FA,'	_ = eg.Wait()\n\n','	if len(ids) > 200 {\n		_ = eg.Wait()\n	}\n\n'))
bug('g_sharedvar','C10',(FA,'''	for i, id := range ids {
		eg.Go(func() error {''','''	var osv OSV

	for i, id := range ids {
		eg.Go(func() error {'''),(FA,'osv, _ := db.Fetch(id)','osv, _ = db.Fetch(id)'))
bug('g_sharedid','C10',(FA,'''	for i, id := range ids {
		eg.Go(func() error {''','''	var id string

	for i := range ids {
		id = ids[i]

		eg.Go(func() error {'''))
bug('g_baseurl','C10',(AC,'''	u := *db.BaseURL

	u.Path = path.Join(u.Path, "querybatch")
''','''	u := db.BaseURL
	base := u.Path

	defer func() { u.Path = base }()

	u.Path = path.Join(u.Path, "querybatch")
'''))
bug('g_globalcache','C10',(D+'api-fetch.go','func (db APIDB) Fetch(id string) (OSV, error) {','var fetched = map[string]int{}\n\nfunc (db APIDB) Fetch(id string) (OSV, error) {\n	fetched[id]++\n'))
bug('g_globalcount','C10',(D+'api-fetch.go','func (db APIDB) Fetch(id string) (OSV, error) {','var fetched int\n\nfunc (db APIDB) Fetch(id string) (OSV, error) {\n	fetched++\n'))
bug('g_err_early','C10',(AC,'''		eg.Go(func() error {
			results, err''','''		if len(batch) == 0 {
			return nil, ErrInvalidBatchSize
		}

		eg.Go(func() error {
			results, err'''))
bug('g_read_early','C10',(AC,'''	err := eg.Wait()

	if err != nil {
		return nil, err
	}

	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))
''','''	vulnerabilities := make([]Vulnerabilities, 0, len(pkgs))

	if len(batchResults) == 1 && batchResults[0] == nil {
		vulnerabilities = nil
	}

	err := eg.Wait()

	if err != nil {
		return nil, err
	}
'''))
bug('g_half','C10',(FA,'osvs[i] = osv','osvs[i/2] = osv'))
bug('g_localmutex','C10',(FA,'import (\n','import (\n	"sync"\n'),(FA,'osvs := make(Vulnerabilities, len(ids))','osvs := make(Vulnerabilities, 0, len(ids))'),(FA,'osvs[i] = osv','_ = i\n\t\t\tvar mu sync.Mutex\n\t\t\tmu.Lock()\n\t\t\tosvs = append(osvs, osv)\n\t\t\tmu.Unlock()'))
bug('g_client','C10',(D+'api-fetch.go','	resp, err := http.DefaultClient.Do(req)','	http.DefaultClient.Timeout = 0\n\n	resp, err := http.DefaultClient.Do(req)'))
bug('g_raw_go','C10',(FA,'''		eg.Go(func() error {''','''		f := func() error {'''),(FA,'''			return nil
		})
''','''			return nil
		}

		if i%2 == 0 {
			eg.Go(f)
		} else {
			go func() { _ = f() }()
		}
'''))
same('g_wg',(FA,'''import (
	"sort"

	"golang.org/x/sync/errgroup"
)''','''import (
	"sort"
	"sync"
)'''),(FA,'''	var eg errgroup.Group

	eg.SetLimit(200)
''','''	var wg sync.WaitGroup

	limit := make(chan struct{}, 200)
'''),(FA,'''		eg.Go(func() error {''','''		wg.Add(1)
		limit <- struct{}{}

		go func() {
			defer wg.Done()
			defer func() { <-limit }()
'''),(FA,'''			osvs[i] = osv

			return nil
		})
''','''			osvs[i] = osv
		}()
'''),(FA,'_ = eg.Wait()','wg.Wait()'))
same('g_wg2',(FA,'''import (
	"sort"

	"golang.org/x/sync/errgroup"
)''','''import (
	"sort"
	"sync"
)'''),(FA,'''	var eg errgroup.Group

	eg.SetLimit(200)
''','''	var wg sync.WaitGroup
'''),(FA,'''		eg.Go(func() error {''','''		wg.Add(1)

		go func(i int, id string) {
			defer wg.Done()
'''),(FA,'''			osvs[i] = osv

			return nil
		})
''','''			osvs[i] = osv
		}(i, id)
'''),(FA,'_ = eg.Wait()','wg.Wait()'))
same('g_mutex',(FA,'import (\n','import (\n	"sync"\n'),(FA,'osvs := make(Vulnerabilities, len(ids))','osvs := make(Vulnerabilities, 0, len(ids))\n\n	var mu sync.Mutex\n'),(FA,'osvs[i] = osv','mu.Lock()\n\t\t\tdefer mu.Unlock()\n\n\t\t\tosvs = append(osvs, osv)'),(FA,'for i, id := range ids','for _, id := range ids'))
same('g_threeclause',(FA,'''	for i, id := range ids {
''','''	for i := 0; i < len(ids); i++ {
		id := ids[i]

'''))
same('g_helper',(FA,'''	for i, id := range ids {
		eg.Go(func() error {''','''	for i, id := range ids {
		slot := &osvs[i]

		eg.Go(func() error {'''),(FA,'osvs[i] = osv','*slot = osv'))
same('g_each',(FA,'''	var eg errgroup.Group

	eg.SetLimit(200)

	osvs := make(Vulnerabilities, len(ids))

	for i, id := range ids {
		eg.Go(func() error {
			// if we error, still report the vulnerability as hopefully the ID should be
			// enough to manually look up the details - in future we should ideally warn
			// the user too, but for now we just silently eat the error
			osv, _ := db.Fetch(id)

			osvs[i] = osv

			return nil
		})
	}

	// errors are handled within the go routines
	_ = eg.Wait()
''','''	osvs := make(Vulnerabilities, len(ids))

	_ = each(len(ids), 200, func(i int) error {
		osv, _ := db.Fetch(ids[i])

		osvs[i] = osv

		return nil
	})
'''),(FA,'func (db APIDB) FetchAll','''func each(n int, limit int, do func(i int) error) error {
	var eg errgroup.Group

	eg.SetLimit(limit)

	for i := range n {
		eg.Go(func() error { return do(i) })
	}

	return eg.Wait()
}

func (db APIDB) FetchAll'''))
same('g_method',(FA,'''			osv, _ := db.Fetch(id)

			osvs[i] = osv

			return nil
		})
''','''			db.fetchInto(osvs, i, id)

			return nil
		})
'''),(FA,'func (db APIDB) FetchAll','''func (db APIDB) fetchInto(osvs Vulnerabilities, i int, id string) {
	osv, _ := db.Fetch(id)

	osvs[i] = osv
}

func (db APIDB) FetchAll'''))
# closing
U='internal/configer/update.go'; Z=D+'zip.go'; M='main.go'
bug('c_status','C25',(AC,'''	defer resp.Body.Close()

	var body []byte

	body, err = io.ReadAll(resp.Body)

	if resp.StatusCode != http.StatusOK {''','''	var body []byte

	body, err = io.ReadAll(resp.Body)

	if err == nil {
		_ = resp.Body.Close()
	}

	if resp.StatusCode != http.StatusOK {'''))
bug('c_304','C25',(Z,'''	defer resp.Body.Close()

	if resp''','''	if resp'''),(Z,'''	} else if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("%w (%s)", ErrUnexpectedStatusCode, resp.Status)
	}
''','''	}

	defer resp.Body.Close()

	if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("%w (%s)", ErrUnexpectedStatusCode, resp.Status)
	}
'''))
bug('c_zip','C25',(Z,'''	defer file.Close()

	content, err := io.ReadAll(file)
	if err != nil {
		_''','''	content, err := io.ReadAll(file)
	if err == nil {
		err = file.Close()
	}
	if err != nil {
		_'''))
bug('c_reqtxt','C25',(L+'parse-requirements-txt.go','	defer file.Close()\n','	if len(requiredAlready) == 0 {\n		defer file.Close()\n	}\n'))
same('c_defer_func',(Z,'	defer file.Close()','	defer func() { _ = file.Close() }()'))
same('c_helper',(Z,'	defer file.Close()','	defer closeQuietly(file)'),(Z,'func mightAffect','''func closeQuietly(c io.Closer) {
	if err := c.Close(); err != nil {
		return
	}
}

func mightAffect'''))
same('c_explicit',(Z,'''	defer file.Close()

	content, err := io.ReadAll(file)
''','''	content, err := io.ReadAll(file)

	file.Close()

'''))
same('c_open_helper',(D+'api-fetch.go','	resp, err := http.DefaultClient.Do(req)','	resp, err := send(req)'),(D+'api-fetch.go','func (db APIDB) Fetch(','''func send(req *http.Request) (*http.Response, error) {
	return http.DefaultClient.Do(req)
}

func (db APIDB) Fetch('''))
same('c_body_var',(D+'api-fetch.go','	defer resp.Body.Close()','	responseBody := resp.Body\n\n	defer responseBody.Close()'))
