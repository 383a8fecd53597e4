L='pkg/lockfile/'
edits={}
def same(n,*e): edits[n]=('same','',list(e))
def bug(n,p,*e): edits[n]=('bug',p,list(e))
bug('l_npm_cmp','C22',(L+'parse-npm-lock.go','''			CompareAs: NpmEcosystem,
			Commit:    commit,
		}
	}

	return details
}

func extractNpm''','''			Commit:    commit,
		}
	}

	return details
}

func extractNpm'''))
bug('l_go_replace','C22',(L+'parse-go-lock.go','''			packages[replacement] = PackageDetails{
				Name:      replace.New.Path,
				Version:   strings.TrimPrefix(replace.New.Version, "v"),
				Ecosystem: GoEcosystem,
				CompareAs: GoEcosystem,''','''			eco := GoEcosystem
			if replace.New.Version == "" {
				eco = ""
			}
			packages[replacement] = PackageDetails{
				Name:      replace.New.Path,
				Version:   strings.TrimPrefix(replace.New.Version, "v"),
				Ecosystem: eco,
				CompareAs: GoEcosystem,'''))
bug('l_yarn_commit','C22',(L+'parse-yarn-lock.go','''	return PackageDetails{
		Name:      name,
		Version:   version,
		Ecosystem: YarnEcosystem,
		CompareAs: YarnEcosystem,
		Commit:    tryExtractCommit(resolution),
	}
}''','''	details := PackageDetails{
		Name:      name,
		Version:   version,
		Ecosystem: YarnEcosystem,
		CompareAs: YarnEcosystem,
		Commit:    tryExtractCommit(resolution),
	}
	if details.Commit != "" && version == "" {
		details.CompareAs = ""
	}
	return details
}'''))
bug('l_renv_repo','C22',(L+'parse-renv-lock.go','''			Ecosystem: CRANEcosystem,
			CompareAs: CRANEcosystem,''','''			Ecosystem: CRANEcosystem,
			CompareAs: Ecosystem(pkg.Repository),'''))
bug('l_gradle','C22',(L+'parse-gradle-lock.go','''		Ecosystem: MavenEcosystem,
		CompareAs: MavenEcosystem,''','''		Ecosystem: MavenEcosystem,
		CompareAs: GoEcosystem,'''))
bug('l_known','C22',(L+'ecosystems.go','''		MixEcosystem,
''',''))
bug('l_known_dup','C22',(L+'ecosystems.go','''		MixEcosystem,
''','''		MixEcosystem,
		YarnEcosystem,
'''))
bug('l_pipenv_dev','C22',(L+'parse-pipenv-lock.go','''			Ecosystem: PipenvEcosystem,
			CompareAs: PipenvEcosystem,
		}
	}

	for name''','''			Ecosystem: PipenvEcosystem,
			CompareAs: "Pipenv",
		}
	}

	for name'''))
same('l_helper',(L+'parse-npm-lock.go','''		details[finalName+"@"+finalVersion] = PackageDetails{
			Name:      finalName,
			Version:   detail.Version,
			Ecosystem: NpmEcosystem,
			CompareAs: NpmEcosystem,
			Commit:    commit,
		}''','''		details[finalName+"@"+finalVersion] = newDetails(finalName, detail.Version, commit, NpmEcosystem)'''),
 (L+'parse-gradle-lock.go','''	return PackageDetails{
		Name:      fmt.Sprintf("%s:%s", group, artifact),
		Version:   version,
		Ecosystem: MavenEcosystem,
		CompareAs: MavenEcosystem,
	}, nil''','''	return newDetails(group+":"+artifact, version, "", MavenEcosystem), nil'''),
 (L+'types.go','','''
func newDetails(name, version, commit string, ecosystem Ecosystem) PackageDetails {
	return PackageDetails{Name: name, Version: version, Commit: commit, Ecosystem: ecosystem, CompareAs: ecosystem}
}
'''))
same('l_late',(L+'parse-maven-lock.go','''		details[finalName] = PackageDetails{
			Name:      finalName,
			Version:   lockPackage.ResolveVersion(*parsedLockfile),
			Ecosystem: MavenEcosystem,
			CompareAs: MavenEcosystem,
		}
	}

	//''','''		d := PackageDetails{
			Name:      finalName,
			Version:   lockPackage.ResolveVersion(*parsedLockfile),
		}
		mavenise(&d)
		details[finalName] = d
	}

	//'''),(L+'parse-maven-lock.go','','''
func mavenise(d *PackageDetails) {
	d.Ecosystem = MavenEcosystem
	d.CompareAs = d.Ecosystem
}
'''))
same('l_known_var',(L+'ecosystems.go','''	return []Ecosystem{
''','''	known := []Ecosystem{
'''),(L+'ecosystems.go','''		PubEcosystem,
	}
''','''	}

	return append(known, PubEcosystem)
'''))
same('l_unkeyed',(L+'parse-renv-lock.go','''PackageDetails{
			Name:      pkg.Package,
			Version:   pkg.Version,
			Ecosystem: CRANEcosystem,
			CompareAs: CRANEcosystem,
		})''','''PackageDetails{pkg.Package, pkg.Version, "", CRANEcosystem, CRANEcosystem})'''))
