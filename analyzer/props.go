package main

import "strings"

// contracts: functions whose own behaviour is compared for some property, and
// that are therefore never looked into when deciding what their callers do
var contracts = map[string]bool{}

// duty: a function that has to do what its reference does, in some respects
// (res: results, err: errors, mem: memory, eff:x: effects of kind x)
type duty struct {
	fn      string
	aspects string
	helper  bool // only blamed when an anchor that uses it differs because of it
}

type property struct {
	id     string
	duties []duty
	// other analyses that take part in deciding it
	passes []func(*checker) []finding
	// which differences matter to it
	filter func(*checker, *pairInfo, diff) bool
	panics bool // compares when functions crash
}

var parserNames = []string{
	"ParseBunLock", "ParseCargoLock", "ParseComposerLock", "ParseGemfileLock", "ParseGoLock", "ParseGradleLock",
	"ParseMavenLock", "ParseMixLock", "ParseNpmLock", "ParseNuGetLock", "ParsePdmLock", "ParsePipenvLock",
	"ParsePnpmLock", "ParsePoetryLock", "ParsePubspecLock", "ParsePylock", "ParseRenvLock", "ParseRequirementsTxt",
	"ParseUvLock", "ParseYarnLock",
}

func d(aspects string, fns ...string) []duty {
	var out []duty
	for _, f := range fns {
		out = append(out, duty{fn: strings.ReplaceAll(f, "main.", modPath+"."), aspects: aspects})
	}
	return out
}

func h(aspects string, fns ...string) []duty {
	out := d(aspects, fns...)
	for i := range out {
		out[i].helper = true
	}
	return out
}

func cat(ds ...[]duty) []duty {
	var out []duty
	for _, x := range ds {
		out = append(out, x...)
	}
	return out
}

func parsers(aspects string) []duty {
	var ns []string
	for _, n := range parserNames {
		ns = append(ns, "pkg/lockfile."+n)
	}
	return d(aspects, ns...)
}

var unmarshalers = []string{
	"(*pkg/lockfile.MavenLockProperties).UnmarshalXML",
	"(*pkg/lockfile.PnpmLockfile).UnmarshalYAML",
	"(*pkg/lockfile.PubspecLockDescription).UnmarshalYAML",
}

var properties = []property{
	{id: "C01", duties: d("err eff:http", "pkg/database.NewZippedDB", "pkg/database.NewAPIDB", "pkg/database.Load"),
		passes: []func(*checker) []finding{passOffline}, filter: whenOffline},
	{id: "C02", duties: cat(
		parsers("err"), d("err", unmarshalers...),
		d("err", "pkg/lockfile.FromCSVRows", "pkg/lockfile.FromCSVFile", "pkg/lockfile.Parse"),
		h("err", "main.parseLockfile", "pkg/lockfile.fromCSV", "pkg/lockfile.fromCSVRecord"),
	)},
	{id: "C03", duties: cat(
		d("res", "main.run"), d("all", "main.main"),
		d("mem", reporterMethods+"PrintErrorf"), d("mem eff:errs", reporterMethods+"PrintDatabaseLoadErr"),
		d("res", reporterMethods+"HasErrored", "(internal/reporter.Report).HasKnownVulnerabilities"),
		h("res:1 eff:errs mem", "main.findAllLockfiles", "main.findLockfiles", "main.loadDatabases"),
		h("eff:errs mem", "(main.OSVDatabases).check", "main.writeUpdatedConfigs"),
		h("res", "main.parseLockfile"), h("res eff:errs mem", "main.readAllLockfiles"),
	)},
	{id: "C04", duties: cat(
		d("res", "(*pkg/database.OSV).IsAffected", "(*pkg/database.OSV).AffectsEcosystem",
			"(pkg/database.Package).NormalizedName", "(pkg/database.Package).NormalizedEcosystem"),
		h("res", "(pkg/database.Affects).affectsVersion", "pkg/database.areEcosystemsEqual"),
	)},
	{id: "C05", duties: cat(
		d("res", "(*pkg/database.OSV).IsAffected"),
		h("res", "(pkg/database.AffectsRange).containsVersion", "(pkg/database.RangeEvent).version"),
	)},
	{id: "C06", duties: cat(
		d("res err", "(*pkg/database.DirDB).Check", "(*pkg/database.ZipDB).Check"),
		d("res", "(*pkg/database.DirDB).VulnerabilitiesAffectingPackage", "(*pkg/database.ZipDB).VulnerabilitiesAffectingPackage",
			"(*pkg/database.DirDB).Vulnerabilities", "(*pkg/database.ZipDB).Vulnerabilities",
			"(pkg/database.Vulnerabilities).Includes"),
		h("res", "(*pkg/database.OSV).isAliasOf", "(*pkg/database.memDB).Check", "(*pkg/database.memDB).VulnerabilitiesAffectingPackage", "(*pkg/database.memDB).Vulnerabilities"),
	)},
	{id: "C07", duties: cat(
		d("res", "pkg/database.NewDirDB", "pkg/database.NewZippedDB",
			"(*pkg/database.DirDB).VulnerabilitiesAffectingPackage", "(*pkg/database.ZipDB).VulnerabilitiesAffectingPackage",
			"(pkg/database.Package).NormalizedName", "(pkg/database.Package).NormalizedEcosystem", "pkg/database.Load"),
		d("eff:http", "main.run"),
		h("res", "pkg/database.mightAffectPackages", "(*pkg/database.memDB).VulnerabilitiesAffectingPackage"),
		h("all", "(*pkg/database.memDB).addVulnerability", "(*pkg/database.DirDB).load", "(*pkg/database.ZipDB).load", "(*pkg/database.ZipDB).loadZipFile"),
		h("eff:http", "main.loadDatabases"),
	)},
	{id: "C08", duties: cat(
		d("res err eff:http", "(pkg/database.APIDB).Check"),
		d("res err", "(*pkg/database.DirDB).Check", "(*pkg/database.ZipDB).Check"),
		d("res err", "pkg/database.NewAPIDB"),
		h("res err eff:http", "pkg/database.batchPkgs", "(pkg/database.APIDB).checkBatch", "(*pkg/database.memDB).Check"),
	)},
	{id: "C09", duties: cat(
		d("res err", "(pkg/database.APIDB).Check", "(pkg/database.APIDB).FetchAll", "(pkg/database.APIDB).Fetch"),
		h("res err", "(pkg/database.APIDB).checkBatch", "pkg/database.findOrDefault"),
	)},
	{id: "C10", passes: []func(*checker) []finding{passGoroutines}},
	{id: "C11", duties: cat(
		d("eff:results res", "main.run"),
		d("mem err", "(*main.stringsFlag).Set"),
		d("res", "(internal/reporter.Report).HasKnownVulnerabilities", "(internal/reporter.Report).HasIgnoredVulnerabilities", "(internal/reporter.Report).String"),
		d("res", "internal/configer.Load", "internal/configer.Find"),
		h("res", "(main.OSVDatabases).check", "(main.OSVDatabases).transposePkgResults", "main.readAllLockfiles"),
		h("res", "(internal/reporter.Report).describeIgnores", "(internal/reporter.Report).countIgnoredVulnerabilities", "(internal/reporter.Report).countKnownVulnerabilities"),
	)},
	{id: "C12", duties: cat(
		d("eff:results eff:pkg/database.DB.Check", "main.run"),
		d("res", "(pkg/database.Vulnerabilities).Includes", "(pkg/database.Vulnerabilities).Unique"),
		h("res eff:errs mem eff:pkg/database.DB.Check", "(main.OSVDatabases).check", "(main.OSVDatabases).transposePkgResults"),
		h("res", "(*pkg/database.OSV).isAliasOf"),
	)},
	{id: "C13", duties: cat(
		d("res err mem eff:errs", "internal/configer.Load", "internal/configer.Find"),
		d("eff:results eff:http res eff:errs", "main.run"),
		h("res mem err eff:errs", "main.readAllLockfiles", "internal/configer.load", "internal/configer.newConfig",
			"(internal/configer.rawDatabaseConfig).toConfig", "(internal/configer.rawDatabaseConfig).inferDBType"),
	)},
	{id: "C14", duties: cat(
		d("err eff:fs", "internal/configer.UpdateWithIgnores"),
		d("eff:fs eff:errs res", "main.run"),
		h("all", "main.writeUpdatedConfigs", "internal/configer.load"),
		d("res", "(pkg/database.Vulnerabilities).Unique"),
	)},
	{id: "C15", passes: []func(*checker) []finding{passFiles}},
	{id: "C16", duties: cat(
		d("res err eff:fs eff:http", "pkg/database.NewZippedDB"),
		h("all", "(*pkg/database.ZipDB).fetchZip", "(*pkg/database.ZipDB).cachePath", "(*pkg/database.ZipDB).load"),
	)},
	{id: "C17", duties: cat(
		d("res err eff:out", "pkg/database.NewZippedDB", "pkg/database.NewDirDB", "pkg/database.Load"),
		d("res err", "pkg/database.NewAPIDB"),
		d("mem eff:errs", reporterMethods+"PrintDatabaseLoadErr"),
		d("eff:errs eff:http eff:results", "main.run"),
		h("all", "main.loadDatabases", "(*pkg/database.DirDB).load", "(*pkg/database.ZipDB).load", "(*pkg/database.ZipDB).loadZipFile", "(*pkg/database.ZipDB).fetchZip"),
	)},
	{id: "C18", duties: cat(
		d("all", reporterMethods+"PrintErrorf", reporterMethods+"PrintTextf", reporterMethods+"PrintResult",
			reporterMethods+"PrintJSONResults", reporterMethods+"PrintDatabaseLoadErr", reporterMethods+"PrintKnownEcosystems",
			"internal/reporter.New"),
		d("res err", "(pkg/database.Vulnerabilities).MarshalJSON", "(pkg/database.Versions).MarshalJSON"),
		d("eff:results eff:out eff:listing", "main.run"),
		h("eff:out eff:listing", "main.findAllLockfiles", "main.findLockfiles", "main.parseLockfile", "main.readAllLockfiles", "main.loadDatabases",
			"(main.OSVDatabases).check", "(main.OSVDatabases).transposePkgResults", "main.writeUpdatedConfigs", "main.uniqueDBConfigs", "main.collectEcosystems"),
	), passes: []func(*checker) []finding{passStdout}},
	{id: "C19", duties: cat(
		d("eff:results eff:errs", "main.run"),
		d("all", reporterMethods+"PrintResult", reporterMethods+"PrintJSONResults"),
		d("res", "(internal/reporter.Report).String", "(pkg/lockfile.Lockfile).String", "internal/reporter.Form"),
		d("res err", "(pkg/database.Vulnerabilities).MarshalJSON", "(pkg/database.Versions).MarshalJSON"),
		d("res", "(pkg/database.Vulnerabilities).Unique"),
		h("res", "(main.OSVDatabases).check", "(main.OSVDatabases).transposePkgResults", "main.readAllLockfiles", "main.findAllLockfiles", "main.findLockfiles",
			"(internal/reporter.Report).describeIgnores", "(internal/reporter.Report).countIgnoredVulnerabilities",
			"(internal/reporter.Report).countKnownVulnerabilities", "(internal/reporter.Report).formatLineByLine"),
	)},
	{id: "C20", duties: cat(
		d("res", "pkg/lockfile.Parse", "(pkg/lockfile.Packages).Ecosystems", "pkg/lockfile.ListParsers", "pkg/lockfile.KnownEcosystems",
			"(pkg/lockfile.Lockfile).String", "pkg/lockfile.FromCSVRows", "pkg/lockfile.FromCSVFile",
			"(pkg/database.APIDB).Check", "(pkg/database.APIDB).FetchAll", "(*pkg/database.DirDB).Check", "(*pkg/database.ZipDB).Check",
			"(*pkg/database.DirDB).VulnerabilitiesAffectingPackage", "(*pkg/database.ZipDB).VulnerabilitiesAffectingPackage",
			"(pkg/database.Vulnerabilities).Unique", "(internal/reporter.Report).String",
			"pkg/database.NewDirDB", "pkg/database.NewZippedDB"),
		d("eff:http", "(pkg/database.APIDB).Check", "(pkg/database.APIDB).FetchAll"),
		d("res err", "(pkg/database.Vulnerabilities).MarshalJSON", "(pkg/database.Versions).MarshalJSON"),
		d("all", reporterMethods+"PrintResult", reporterMethods+"PrintJSONResults", reporterMethods+"PrintKnownEcosystems"),
		d("err eff:fs", "internal/configer.UpdateWithIgnores"),
		d("all", "main.run"),
		h("all", "main.findAllLockfiles", "main.findLockfiles", "main.readAllLockfiles", "main.writeUpdatedConfigs", "main.uniqueDBConfigs", "main.collectEcosystems",
			"(main.OSVDatabases).check", "(main.OSVDatabases).transposePkgResults", "(main.OSVDatabases).forConfigs", "main.loadDatabases",
			"(main.lockfileAndConfigOrErrs).adjustExtraDatabases", "(main.lockfileAndConfigOrErrs).getConfigs",
			"(*pkg/database.memDB).addVulnerability", "(*pkg/database.memDB).Check", "(*pkg/database.memDB).VulnerabilitiesAffectingPackage",
			"(*pkg/database.DirDB).load", "(*pkg/database.ZipDB).load", "(pkg/database.APIDB).checkBatch", "pkg/database.batchPkgs", "pkg/lockfile.fromCSV",
			"(internal/reporter.Report).describeIgnores", "(internal/reporter.Report).formatLineByLine"),
	), passes: []func(*checker) []finding{passOrder, passMapOrder}, filter: onOrder},
	{id: "C21", panics: true, duties: cat(
		parsers("eff:panic"), d("eff:panic", unmarshalers...),
		d("eff:panic", "(pkg/lockfile.MavenLockDependency).ResolveVersion", "pkg/lockfile.FromCSVRows", "pkg/lockfile.FromCSVFile", "pkg/lockfile.Parse", "pkg/lockfile.FindParser",
			"(pkg/lockfile.Packages).Ecosystems", "(pkg/lockfile.Lockfile).String",
			"internal/configer.Load", "internal/configer.Find", "internal/configer.UpdateWithIgnores",
			"pkg/database.NewDirDB", "pkg/database.NewZippedDB", "pkg/database.NewAPIDB", "pkg/database.Load",
			"(pkg/database.APIDB).Check", "(pkg/database.APIDB).Fetch", "(pkg/database.APIDB).FetchAll",
			"(*pkg/database.DirDB).Check", "(*pkg/database.ZipDB).Check", "(*pkg/database.OSV).IsAffected", "(*pkg/database.OSV).AffectsEcosystem",
			"(pkg/database.Package).NormalizedName", "(pkg/database.Package).NormalizedEcosystem",
			"(pkg/database.Vulnerabilities).Includes", "(pkg/database.Vulnerabilities).Unique",
			"(pkg/database.Vulnerabilities).MarshalJSON", "(pkg/database.Versions).MarshalJSON",
			"(internal/reporter.Report).String", reporterMethods+"PrintResult", "main.run"),
		d("err", "pkg/database.NewAPIDB"),
	), passes: []func(*checker) []finding{passKnownCrashes}, filter: canCrashLater},
	{id: "C22", duties: cat(parsers("res"), d("res", "pkg/lockfile.KnownEcosystems"), d("eff:listing", "main.run"),
		d("all", reporterMethods+"PrintKnownEcosystems")),
		passes: []func(*checker) []finding{passLabels}, filter: onLabels},
	{id: "C23", duties: cat(
		d("res", "pkg/lockfile.FindParser", "pkg/lockfile.ListParsers"),
		d("res err", "pkg/lockfile.Parse"),
		d("eff:results res", "main.run"),
		h("res eff:errs", "main.findAllLockfiles", "main.findLockfiles", "main.parseLockfile", "main.parseLockfilePathWithParseAs", "main.readAllLockfiles"),
	)},
	{id: "C24", duties: cat(
		d("res err eff:rec", "pkg/lockfile.ParseRequirementsTxt"),
	)},
	{id: "C25", passes: []func(*checker) []finding{passClosing}},
	{id: "C26", duties: cat(parsers("res"), d("all", unmarshalers...), d("res", "(pkg/lockfile.MavenLockDependency).ResolveVersion"))},
	{id: "C27", duties: cat(
		d("eff:http eff:results eff:pkg/database.DB.Check eff:wr", "main.run"),
		d("res", "(pkg/database.Config).Identifier", "(pkg/database.APIDB).Identifier", "(*pkg/database.DirDB).Identifier", "(*pkg/database.ZipDB).Identifier",
			"(pkg/lockfile.Packages).Ecosystems"),
		d("res err", "pkg/database.Load"),
		h("all", "main.uniqueDBConfigs", "(main.lockfileAndConfigOrErrs).adjustExtraDatabases", "(main.lockfileAndConfigOrErrs).getConfigs", "main.collectEcosystems",
			"(main.OSVDatabases).forConfigs", "main.loadDatabases", "main.makeAPIDBConfig", "main.makeEcosystemDBConfig"),
	)},
	{id: "C28", duties: cat(
		d("eff:http", "(pkg/database.APIDB).Check", "(pkg/database.APIDB).Fetch", "(pkg/database.APIDB).FetchAll"),
		d("res err", "pkg/database.NewAPIDB"),
		h("res eff:http", "(pkg/database.APIDB).buildAPIPayload", "(pkg/database.APIDB).bulkEndpoint", "(pkg/database.APIDB).osvEndpoint", "(pkg/database.APIDB).checkBatch"),
	)},
	{id: "C29", duties: cat(
		d("res err", "pkg/lockfile.FromCSVRows", "pkg/lockfile.FromCSVFile"),
		h("res err", "pkg/lockfile.fromCSV", "pkg/lockfile.fromCSVRecord"),
	)},
}

// whenOffline: differences that show when the offline argument is true
func whenOffline(c *checker, pi *pairInfo, df diff) bool {
	i := offlineParam(pi.repo)
	if i < 0 || df.gotN == nil || df.wantN == nil {
		return true
	}
	paramTag = "/" + shortName(pi.spec)
	on := paramTerm(i, pi.repo.Params[i].Type())
	return differ(ite(on, df.gotN, Bot), ite(on, df.wantN, Bot))
}

func init() {
	for _, n := range []string{
		"pkg/lockfile.Parse", "pkg/lockfile.FromCSVRows", "pkg/lockfile.FromCSVFile", "pkg/lockfile.FindParser",
		"pkg/lockfile.ListParsers", "pkg/lockfile.KnownEcosystems", "(pkg/lockfile.Packages).Ecosystems",
		"(pkg/lockfile.Lockfile).String",
		"pkg/database.Load", "pkg/database.NewZippedDB", "pkg/database.NewDirDB", "pkg/database.NewAPIDB",
		"(*pkg/database.OSV).IsAffected", "(pkg/database.Vulnerabilities).Includes", "(pkg/database.Vulnerabilities).Unique",
		"(pkg/database.Config).Identifier", "(pkg/database.APIDB).Fetch", "(pkg/database.APIDB).FetchAll",
		"internal/configer.Load", "internal/configer.Find", "internal/configer.UpdateWithIgnores",
		"(internal/reporter.Report).HasKnownVulnerabilities", "(internal/reporter.Report).HasIgnoredVulnerabilities",
		"(internal/reporter.Report).String", "internal/reporter.Form", modPath + ".run",
	} {
		contracts[n] = true
	}
}
