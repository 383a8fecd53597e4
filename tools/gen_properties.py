#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

DB="pkg/database/"; LF="pkg/lockfile/"; CF="internal/configer/"; RP="internal/reporter/"

p("C01","Offline runs never use the network",
 "When the offline flag is set, no network request of any kind is attempted, whatever databases are configured or requested. An archive database is then served only from the copy saved by an earlier run, and is a load error if there is no usable saved copy; a database that is an API is always a load error.",
 ["inputs","configurations","histories"],"every combination of flags, configs, database types and cache states",
 "Tests try one archive with and one without a cache; they cannot show that no other path (API queries, details lookups, a revalidation, a new helper) reaches the network.",
 ["main.go",DB+"config.go",DB+"zip.go",DB+"api.go",DB+"api-check.go",DB+"api-fetch.go",DB+"dir.go"],
 [("the offline flag is handed to every database constructor","main.go loadDatabases, pkg/database/config.go Load"),("archive fetch returns from the cache before any request is built","pkg/database/zip.go fetchZip"),("API databases cannot be constructed offline","pkg/database/api.go NewAPIDB")],
 [("Offline","the database must not use the network","pkg/database/zip.go ZipDB")],["network requests","load errors"])

p("C02","Lockfile read and decode failures always surface as errors",
 "If a lockfile, a file it includes, or a CSV input cannot be opened, read to its end, or decoded, parsing it returns an error, for every supported format. A file that was only partly read or decoded is never returned as a successful, shorter or empty list of packages.",
 ["inputs","fault_sequences"],"every file content, every supported format, and every I/O or decode failure at any point of the read",
 "Tests feed a handful of invalid files per format; read errors in the middle of a file (an over-long line, an I/O error) and failures of included files are not sampled for each parser.",
 [LF+f for f in ("parse.go","csv.go","parse-npm-lock.go","parse-bun-lock.go","parse-pnpm-lock.go","parse-yarn-lock.go","parse-cargo-lock.go","parse-composer-lock.go","parse-gemfile-lock.go","parse-go-lock.go","parse-gradle-lock.go","parse-maven-lock.go","parse-mix-lock.go","parse-nuget-lock.go","parse-pdm-lock.go","parse-pipenv-lock.go","parse-poetry-lock.go","parse-pubspec-lock.go","parse-pylock.go","parse-renv-lock.go","parse-requirements-txt.go","parse-uv-lock.go")],
 [("every open/read/decode error is returned","each Parse function"),("line based parsers check the scanner's error after their loop","yarn, mix, gradle and requirements parsers"),("errors are passed on with the result","Parse, FromCSVRows, FromCSVFile")],(),["error returned by parsing"])

p("C03","The exit status tells errors, findings and clean runs apart",
 "A run exits with 0 only if no error was reported for any path, config, lockfile or database and no lockfile has a vulnerability that is not ignored. It exits with 127 whenever a lockfile or its config could not be read or a database could not be loaded; otherwise with 1 if at least one lockfile has a vulnerability that is not ignored; otherwise with 127 if any other error was reported. If there is no lockfile to check it exits with 128 when paths were given and all of them could be read, and with 127 otherwise.",
 ["inputs","configurations","fault_sequences"],"every set of lockfiles in every order, with every mix of failures, findings and ignores",
 "The order and mix of failing, vulnerable and clean lockfiles is unbounded, and most tests of the command need the network; a wrong combination (an error after a finding, a finding before an error) is not sampled.",
 ["main.go",RP+"reporter.go",RP+"report.go"],
 [("exit code only moves from 0 to 1 or to 127","main.go run"),("reporting any error is remembered","internal/reporter/reporter.go PrintErrorf"),("findings are counted over all packages","internal/reporter/report.go HasKnownVulnerabilities")],
 [("exitCode","the exit status so far","main.go run"),("hasErrored","an error has been reported","internal/reporter/reporter.go")],["process exit status"])

p("C04","An advisory matches a package exactly by ecosystem, name and version",
 "An advisory affects a package if and only if one of its entries is for the package's ecosystem (suffixes are only compared when both have one) and its normalized name, and that entry lists the package's exact version, has a range that contains it, or the package has no version. An entry with neither versions nor ranges never matches, names are only normalized for PyPI (per PEP 503, on both sides), and a range of a type that cannot be evaluated neither matches nor stops the other ranges from being checked.",
 ["inputs"],"every advisory (any number and order of entries, ranges and versions) and every package",
 "Tests sample single- and two-entry advisories; the order of entries and ranges, mixed range types, suffixes and unusual spellings form an unbounded space.",
 [DB+"osv.go"],[("matching predicate","pkg/database/osv.go IsAffected"),("ecosystem equality","pkg/database/osv.go areEcosystemsEqual"),("name normalization","pkg/database/osv.go NormalizedName")],(),["(*OSV).IsAffected","reported vulnerabilities"])

p("C05","Version ranges are evaluated as OSV event intervals",
 "Within a range, the events are considered in version order, with an introduced event of \"0\" before all others; a version becomes affected at an introduced event it is equal to or above (always for \"0\"), stops being affected at a fixed event it is equal to or above, and stops being affected at a last-affected event it is above. A range without events, or that is neither a SEMVER nor an ECOSYSTEM range, contains no version, and all comparisons use the version rules the package is to be compared with.",
 ["inputs"],"every list of events in every order and every version",
 "Tests cover a few intervals with well-formed events; boundary equality on each event kind, unsorted events and several intervals in one range combine without bound.",
 [DB+"osv.go"],[("event scan","pkg/database/osv.go containsVersion"),("event ordering","pkg/database/osv.go containsVersion sort")],(),["(*OSV).IsAffected"])

p("C06","File-based databases report exactly the live advisories affecting a package",
 "For each package, a file-based database reports every loaded advisory that affects the package and is not withdrawn, and nothing else. No advisory is reported twice for the same package, where advisories with the same ID or that are aliases of each other count as the same.",
 ["inputs"],"every set of loaded advisories and every package",
 "Tests do not combine withdrawn, aliased and multi-entry advisories with arbitrary packages.",
 [DB+"mem-check.go",DB+"vulnerabilities.go",DB+"osv.go"],[("selection of advisories","pkg/database/mem-check.go VulnerabilitiesAffectingPackage"),("alias-aware membership","pkg/database/vulnerabilities.go Includes")],
 [("vulnerabilities","loaded advisories by ecosystem and name","pkg/database/mem-check.go memDB")],["Check results of zip and dir databases"])

p("C07","Indexing and pre-filtering never hide an advisory",
 "An advisory loaded from a file-based database is consulted for every package whose normalized ecosystem and name are those of any of the advisory's entries, however the lockfile or the advisory spell them. The pre-filter on the names of the packages being checked only leaves out advisories that have no entry for any of those packages, the names of the packages of every lockfile take part in it, and no names means no filtering.",
 ["inputs","configurations"],"every advisory, every set of lockfiles and every spelling of names and ecosystems",
 "Needs the index key and the pre-filter to agree with the matcher for all names; tests use names that are already normalized and one lockfile at a time.",
 [DB+"mem-check.go",DB+"zip.go",DB+"dir.go",DB+"osv.go","main.go"],[("index writer and reader use the same key","pkg/database/mem-check.go addVulnerability, VulnerabilitiesAffectingPackage"),("pre-filter","pkg/database/zip.go mightAffectPackages"),("names handed to the loader","main.go run")],
 [("vulnerabilities","index of advisories","pkg/database/mem-check.go memDB")],["vulnerabilities reported for a package"])

p("C08","Database answers line up one-to-one with the packages asked about",
 "When a database check succeeds it returns exactly one list of vulnerabilities per package, in the order of the packages, for every kind of database, every number of packages and every batch size. The API is asked about every package exactly once, and an answer with a different number of results than packages asked about is an error.",
 ["inputs","schedules","configurations"],"every list of packages, batch size, completion order of concurrent batches and API response",
 "Tests use a few packages and batch sizes and one completion order; alignment must hold for all of them.",
 [DB+"mem-check.go",DB+"api-check.go",DB+"db.go",DB+"api.go"],[("one entry appended per package","pkg/database/mem-check.go Check"),("batches partition the packages","pkg/database/api-check.go batchPkgs"),("results stored at the batch's own index","pkg/database/api-check.go Check"),("results count check","pkg/database/api-check.go checkBatch")],(),["DB.Check results"])

p("C09","API lookups are all-or-nothing and never lose an ID",
 "If any batch of an API check fails (cannot be sent, unexpected status, unreadable or undecodable body, wrong number of results), the whole check returns an error and no results. Otherwise every vulnerability ID the API returned for a package is reported for that package, even when its details cannot be fetched or decoded, and details are only ever attached to the vulnerability whose ID they carry.",
 ["inputs","schedules","fault_sequences"],"every combination of failing requests, response bodies and completion orders",
 "Failure combinations across concurrent batches and detail fetches are not enumerable by tests.",
 [DB+"api-check.go",DB+"api-fetch.go",DB+"api-fetch-all.go"],[("batch errors cancel the check","pkg/database/api-check.go Check"),("response validation","pkg/database/api-check.go checkBatch"),("fallback to the bare ID","pkg/database/api-check.go findOrDefault")],(),["(APIDB).Check results"])

p("C10","Concurrent API lookups share no unsynchronised state",
 "Goroutines started while checking packages or fetching details never write memory that another goroutine or the starter may access at the same time: each writes only its own result slot, and package-level state reachable from them is only accessed through synchronised types. All of them have finished before their results are read or the call returns.",
 ["schedules"],"every interleaving of the goroutines",
 "Races and missed joins depend on the schedule; tests run a few small batches.",
 [DB+"api-check.go",DB+"api-fetch-all.go","internal/cachedregexp/regex.go"],[("per-index result slots","pkg/database/api-check.go Check, pkg/database/api-fetch-all.go FetchAll"),("join before use","eg.Wait"),("regexp cache is a sync.Map","internal/cachedregexp/regex.go")],(),["memory written by goroutines"])

p("C11","A finding is suppressed only by an ignore that applies to its lockfile",
 "A vulnerability found for a package is moved to the ignored ones if and only if its ID is exactly one of the IDs given with the ignore flag or listed in the config used for that lockfile, the latter only when config ignores are not disabled. Ignored vulnerabilities stay visible as ignored, do not count as known vulnerabilities, and an ignore in one lockfile's config has no effect on other lockfiles.",
 ["inputs","configurations"],"every set of findings, flags and configs across any number of lockfiles",
 "Ignoring is exercised by tests that need the network; near-miss IDs, aliases and several lockfiles with different configs are not sampled.",
 ["main.go",RP+"report.go",CF+"load.go"],[("partition of findings","main.go transposePkgResults"),("assembly of the ignore list","main.go run"),("counting","internal/reporter/report.go countKnownVulnerabilities")],(),["report contents","exit status"])

p("C12","Merging databases only drops the same advisory",
 "When several databases report vulnerabilities for a package, each reported vulnerability is kept unless one with the same ID or an alias relation to it was already kept for that package, where an alias relation is that either one lists the other's ID or both list a common alias. A database whose check fails contributes nothing, is reported as an error, and does not affect what the others contribute.",
 ["inputs","fault_sequences"],"every list of databases, results and alias sets",
 "Alias relations between any number of advisories from any number of databases cannot be enumerated; tests only check membership on small lists.",
 ["main.go",DB+"vulnerabilities.go",DB+"osv.go"],[("deduplication","main.go transposePkgResults"),("membership","pkg/database/vulnerabilities.go Includes"),("alias relation","pkg/database/osv.go isAliasOf"),("failing database is skipped","main.go check")],(),["report contents"])

p("C13","Each lockfile gets exactly its own configuration",
 "Unless a config is given explicitly or configs are disabled, the config of a lockfile is the one in the lockfile's own directory, the .yml spelling being preferred over the .yaml one; no lockfile ever uses or changes a config found for another. A config that exists but cannot be read or decoded makes its lockfiles (or, if given explicitly, the run) fail instead of being treated as absent, and a database in it with an invalid URL or unknown type is reported and left out while the others are kept.",
 ["inputs","configurations","fault_sequences"],"every set of lockfiles, directories, configs and flags",
 "Needs all orders of lockfiles with and without configs and every kind of read failure; tests use a few fixture directories.",
 ["main.go",CF+"load.go"],[("lookup by directory","main.go readAllLockfiles, internal/configer/load.go Find"),("only not-exist errors mean no config","internal/configer/load.go Find"),("explicit config","main.go run")],(),["config used for a lockfile","reported errors"])

p("C14","Updating ignores rewrites only the ignore list of configs in use",
 "A config file is only written when updating ignores was requested, and only if it was used for a lockfile that was checked. Its ignore list then becomes, in sorted order, exactly the IDs found (ignored or not) in the lockfiles that use it, all its databases are kept as they were, and a failure to read, write or flush the file is reported as an error.",
 ["inputs","configurations","fault_sequences"],"every set of lockfiles sharing configs, findings and write failures",
 "The tests of this feature need the network, and write failures are not injected.",
 ["main.go",CF+"update.go",CF+"load.go"],[("collection per config","main.go run"),("rewrite","internal/configer/update.go UpdateWithIgnores"),("error reporting","main.go writeUpdatedConfigs")],(),["config files","reported errors"])

p("C15","The detector only writes its cache and, on request, configs",
 "The only files ever created or changed are the archive cache files inside the temporary directory, whose names depend only on the archive's URL, and config files when updating ignores was requested. Nothing is ever deleted, renamed or executed, and inputs are only read.",
 ["inputs","configurations"],"every input, flag and code path",
 "A test can only look for the writes it expects; absence of any other write must hold on all paths.",
 ["main.go",CF+"update.go",DB+"zip.go"],[("cache path","pkg/database/zip.go cachePath"),("config rewrite","internal/configer/update.go UpdateWithIgnores")],(),["file system"])

p("C16","The archive cache only holds and serves complete, current responses",
 "A cached archive is only replaced by the complete body of a successful (200) response, together with the URL and validators of that same response. A cached archive is only used when offline or when the host answers that it has not been modified to a request that carried the cached validators; any other status, a failed request or a partly read body is an error, and a cache that cannot be read or decoded is treated as absent.",
 ["inputs","histories","fault_sequences"],"every sequence of runs, responses, partial reads and cache contents",
 "Histories of runs against changing hosts and damaged caches are unbounded; tests check one transition each.",
 [DB+"zip.go"],[("cache protocol","pkg/database/zip.go fetchZip")],[("cache file","URL, ETag, date and body of the last archive","temporary directory")],["cache file","loaded advisories"])

p("C17","Database load failures are reported, never read as having no advisories",
 "If a database's source cannot be fetched, read or opened as what it is meant to be, or its type is unknown, loading it returns an error, that error is reported for that database, and the remaining databases are still loaded and used. Every .json file under the database's working directory that holds a valid advisory is loaded; a file that cannot be read or decoded is reported on stderr and does not stop the others.",
 ["inputs","configurations","fault_sequences"],"every archive, directory tree, response and list of databases",
 "Failures in the middle of an archive or directory and combinations of failing and working databases are not sampled.",
 [DB+"zip.go",DB+"dir.go",DB+"config.go",DB+"api.go","main.go"],[("archive loading","pkg/database/zip.go load, loadZipFile"),("directory walk","pkg/database/dir.go load"),("dispatch on type","pkg/database/config.go Load"),("load errors are reported","main.go loadDatabases")],(),["load errors","stderr","loaded advisories"])

p("C18","JSON mode prints exactly one JSON document to stdout",
 "With JSON output, stdout receives exactly one JSON document holding every result, on every path that returns after the flags were parsed (including early exits), and nothing else; all other text goes to stderr. Errors always go to stderr, in both modes.",
 ["inputs","configurations"],"every combination of flags, inputs and failures",
 "Any print on any path can corrupt the document; tests compare the output of a few runs.",
 ["main.go",RP+"reporter.go"],[("writer selection","internal/reporter/reporter.go PrintTextf, PrintErrorf, PrintResult"),("final document","main.go run defer, internal/reporter/reporter.go PrintJSONResults")],(),["stdout","stderr"])

p("C19","Every lockfile and every package is reported exactly once",
 "For each lockfile that was read, exactly one result is reported, in the order the lockfiles were found; a lockfile that failed is reported as an error instead and does not prevent the others from being reported. A result lists every package of its lockfile once, in order, with exactly that package's vulnerabilities, and the text output lists every non-ignored vulnerability of every package and states their number.",
 ["inputs","configurations"],"every list of lockfiles, packages and findings",
 "Requires all sizes and mixes of lockfiles and findings; the tests that print findings need the network.",
 ["main.go",RP+"report.go",RP+"reporter.go"],[("result per lockfile","main.go run"),("package per entry","main.go check"),("text rendering","internal/reporter/report.go String, formatLineByLine")],(),["stdout"])

p("C20","Output order does not depend on map order or scheduling",
 "For the same inputs and databases, the packages, vulnerabilities, databases, ecosystems and updated configs are reported in the same order on every run. Nothing whose order comes from iterating a map or from the completion order of goroutines reaches the output or a written file without being put in an order that depends only on the values.",
 ["schedules","inputs"],"every map iteration order and goroutine schedule",
 "Map order is random per run; a test passes by luck on small maps.",
 ["main.go",LF+"parse.go",DB+"api-fetch-all.go",DB+"mem-check.go"],[("packages are sorted by name, version and commit","pkg/lockfile/parse.go Parse"),("ecosystems are sorted","pkg/lockfile/parse.go Ecosystems"),("ignores and messages are sorted","main.go writeUpdatedConfigs"),("details are looked up by ID","pkg/database/api-check.go")],(),["stdout","config files"])

p("C21","No content makes a parser or loader crash",
 "For every file content, parsing a lockfile, CSV input, config, cache, archive or API response ends with a result or an error, never with an out-of-range index or slice, a nil dereference, a failed type assertion, a division by zero or a deliberate abort.",
 ["inputs"],"every byte sequence as the content of an input or response",
 "The inputs are unbounded, and crashes hide in rare shapes (an empty tuple, a missing separator, a null document).",
 [LF+"*.go",DB+"zip.go",DB+"dir.go",DB+"api-check.go",DB+"api-fetch.go",DB+"osv.go",CF+"load.go"],[("length and nil checks before indexing","all parsers"),("batch size is at least one","pkg/database/api.go NewAPIDB")],(),["process does not panic"])

p("C22","Every package is labelled with its format's ecosystem",
 "Every package extracted by the parser of a format carries that format's ecosystem, both to identify it and to compare its version with, whatever the content of the file. The ecosystems listed as known are exactly those the parsers produce, each once.",
 ["inputs","configurations"],"every format and every entry in it",
 "Tests compare fixtures; an entry kind that is labelled differently or a new format that is not listed is not caught.",
 [LF+"*.go",LF+"ecosystems.go"],[("ecosystem fields of package literals","each Parse function"),("list of known ecosystems","pkg/lockfile/ecosystems.go KnownEcosystems")],(),["packages","--list-ecosystems"])

p("C23","The parser used is the one requested or named by the file",
 "A file is parsed by the parser explicitly requested for its path, else by the one requested for the whole run, else by the one whose lockfile name is exactly the file's base name; if there is none, that is an error for a file given directly, and the file is left out when found in a directory. Only regular entries directly in a given directory are considered, each of them, and the text before the first colon of a path is what selects its parser, an empty one meaning the default.",
 ["inputs","configurations"],"every path, file name and parse-as value",
 "Names, prefixes and their combinations are unbounded; tests use a few.",
 ["main.go",LF+"parse.go"],[("parser lookup","pkg/lockfile/parse.go FindParser, Parse"),("path prefix","main.go parseLockfilePathWithParseAs"),("directory listing","main.go findLockfiles, findAllLockfiles")],[("parsers","lockfile name to parser","pkg/lockfile/parse.go")],["parsedAs of results","errors"])

p("C24","Following requirement includes always terminates",
 "Parsing a requirements file visits each included path at most once per run of the parser, so cyclic, self-referencing and repeated includes end, and every include that is reached is relative to the file that names it. A failing include fails the whole parse.",
 ["inputs"],"every graph of including files",
 "Include graphs are unbounded; a test samples one cycle.",
 [LF+"parse-requirements-txt.go"],[("visited set checked and filled before recursing","pkg/lockfile/parse-requirements-txt.go parseRequirementsTxt")],[("requiredAlready","paths already included","parse-requirements-txt.go")],["ParseRequirementsTxt returns"])

p("C25","Files and response bodies are always closed",
 "Every file the detector opens and every HTTP response body it receives is closed on every path, including error paths, by the time the operation that opened it returns.",
 ["inputs","fault_sequences"],"every path through every operation that opens a file or sends a request",
 "Leaks have no visible effect in short tests; only exhaustion over many lockfiles or an unflushed write shows them.",
 ["main.go",LF+"csv.go",LF+"parse-yarn-lock.go",LF+"parse-mix-lock.go",LF+"parse-gradle-lock.go",LF+"parse-requirements-txt.go",CF+"update.go",DB+"zip.go",DB+"api-check.go",DB+"api-fetch.go"],[("deferred Close after each successful open","all openers")],(),["open handles"])

p("C26","Every dependency recorded in a lockfile is extracted",
 "For each structured lockfile format, every dependency entry of every section that the format defines becomes a package with the name, version and commit recorded for that entry, except for the documented exclusions (the project's own entry, entries without the name or version that format needs, packages of other repositories, replaced Go modules). Entries are only merged when they agree on name and version or commit (for pom.xml: on name, where a direct dependency wins over a managed one).",
 ["inputs"],"every number and combination of entries in every section of every format",
 "Fixtures hold a few entries; dropping, merging or mislabelling an unusual entry goes unnoticed.",
 [LF+f for f in ("parse-npm-lock.go","parse-bun-lock.go","parse-pnpm-lock.go","parse-cargo-lock.go","parse-composer-lock.go","parse-go-lock.go","parse-maven-lock.go","parse-nuget-lock.go","parse-pdm-lock.go","parse-pipenv-lock.go","parse-poetry-lock.go","parse-pubspec-lock.go","parse-pylock.go","parse-renv-lock.go","parse-uv-lock.go")],[("loop over each decoded section","each Parse function"),("merge keys","npm, NuGet, pipenv, go.mod and maven parsers")],(),["packages returned by parsing"])

p("C27","Each lockfile is checked against exactly the databases it calls for",
 "The databases a lockfile is checked against are those of its config (unless disabled), the API if it is enabled, and the ecosystem databases of its own packages if those are enabled, each at most once, where databases are the same only if type, URL and working directory agree. Each distinct database is loaded once for all lockfiles, nothing is loaded when only listing packages, and a failing database is not used for any lockfile.",
 ["inputs","configurations"],"every set of lockfiles, configs and flags",
 "Combinations of lockfiles, ecosystems, configs and flags are unbounded and most tests of them need the network.",
 ["main.go",DB+"config.go",LF+"parse.go"],[("extra databases per lockfile","main.go adjustExtraDatabases"),("selection by identifier","main.go forConfigs, uniqueDBConfigs"),("identity of a database","pkg/database/config.go Identifier")],(),["databases used per lockfile"])

p("C28","API queries identify a package by version, or else by commit",
 "The query sent for a package carries its name, ecosystem and version exactly as extracted if it has all three, and otherwise its commit if it has one; it never carries both a version and a commit. Queries go to the batch endpoint and details requests to the vulnerability's own endpoint below the configured base URL.",
 ["inputs","configurations"],"every package and base URL",
 "Tests cover a few field combinations.",
 [DB+"api-check.go",DB+"api-fetch.go",DB+"api.go"],[("payload","pkg/database/api-check.go buildAPIPayload"),("endpoints","pkg/database/api-check.go bulkEndpoint, pkg/database/api-fetch.go osvEndpoint")],(),["HTTP requests"])

p("C29","CSV rows become packages as documented",
 "A CSV row with at least four fields becomes a package with the first field as ecosystem, the second (or the first if it is empty) as the ecosystem to compare as, the third as name, and the fourth as version, or as commit when there is no ecosystem. A row with fewer fields, without a name, or without an ecosystem and a commit, fails the whole input, and every row yields exactly one package.",
 ["inputs"],"every row and number of rows",
 "Tests list some valid and invalid rows; combinations of empty fields over many rows are not sampled.",
 [LF+"csv.go"],[("row conversion","pkg/lockfile/csv.go fromCSVRecord"),("row loop","pkg/lockfile/csv.go fromCSV")],(),["packages of csv inputs"])

p("C30","Versions are ordered by their ecosystem's own rules",
 "For every ecosystem, comparing two versions gives the order that the ecosystem's own tooling gives.",
 ["inputs"],"every pair of versions of every ecosystem",
 "The space of version strings is unbounded; generators sample pairs.",
 [DB+"osv.go"],[("comparison is delegated to the osv-scalibr semantic package","pkg/database/osv.go containsVersion")],(),["order of versions"])

p("C31","Line-based formats are tokenised as their tools write them",
 "For every file written by yarn, bundler, mix, gradle or pip, the name, version and commit extracted from each dependency line are the ones the tool meant.",
 ["inputs"],"every line those tools can write",
 "The set of lines is unbounded and defined by other tools.",
 [LF+f for f in ("parse-yarn-lock.go","parse-gemfile-lock.go","parse-mix-lock.go","parse-gradle-lock.go","parse-requirements-txt.go")],[("regular expressions and string splitting","the line-based parsers")],(),["packages returned by parsing"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
