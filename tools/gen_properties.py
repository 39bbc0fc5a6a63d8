#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})


DBSTATE = ("<root>/var/lib/pkg/DB/<name>/{META,files}", "the package database: one directory per installed package", "src/pkgdbh.cxx")

prop("C01", "Installing a package puts down exactly its content and records exactly it",
     "After a successful pkgadd (install or upgrade) every entry of the package exists under the root in use with the type, content, "
     "permissions, owner, modification time and link target it has in the package, and the database holds one record under the package's "
     "name with the package's own metadata and exactly the installed file list. Nothing else below the root appears, disappears or changes, "
     "apart from what an upgrade or a forced takeover removes.",
     ["inputs", "histories"], "all packages (any mix of files, directories, symbolic and hard links, modes, owners, contents, compression) "
     "installed in any order on any reachable root, default or alternative",
     "The suite's only package-database program (tests/pkgdbh) opens an existing database and prints it; no test installs a package at all.",
     ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/archive.cxx"],
     [("pkgadd::run", "src/pkgadd.cxx"), ("installArchivePackage", "src/pkgdbh.cxx"), ("moveMetaFilesPackage / addPackageFilesRefsToDB", "src/pkgdbh.cxx")],
     [DBSTATE], ["the filesystem below the root", "var/lib/pkg/DB"])

prop("C02", "Without -f, pkgadd never overwrites a file the package does not own",
     "If any non-directory file of a package being installed or upgraded without --force already exists below the root, or is recorded for "
     "another installed package, and is not recorded for this package, pkgadd fails, names every such file on its error output, and leaves "
     "the filesystem and the database as they were. If there is no such file it does not refuse for this reason.",
     ["inputs", "histories"], "all packages, all previous histories of installs, upgrades, removals and user edits",
     "No test calls pkgadd; the conflict decision depends on the whole history of the root.",
     ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("getConflictsFilesList", "src/pkgdbh.cxx"), ("pkgadd::run", "src/pkgadd.cxx")], [DBSTATE],
     ["exit status and error output of pkgadd", "filesystem", "var/lib/pkg/DB"])

prop("C03", "A forced install takes files over: no non-directory file has two owners",
     "After pkgadd --force succeeds, every conflicting file belongs to the new package alone: it is gone from the file list of every other "
     "package, whose remaining files and metadata are untouched. In every state reachable through pkgadd and pkgrm no non-directory path is "
     "listed by two packages.",
     ["histories"], "all histories of (forced) installs, upgrades and removals over overlapping packages",
     "No test performs two operations in sequence on a database.",
     ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("removePackageFilesRefsFromDB(files, keep_list)", "src/pkgdbh.cxx"), ("pkgadd::run", "src/pkgadd.cxx")],
     [DBSTATE], ["var/lib/pkg/DB/*/files", "filesystem"])

prop("C04", "Removing a package removes its files and nothing that anything else needs",
     "After a successful pkgrm the package has no database record; every file recorded only for it is gone, and so is every directory "
     "recorded only for it that has become empty. Every path still recorded for another package, every file nobody recorded, and every other "
     "package's record is unchanged.",
     ["histories"], "all histories of installs, upgrades, removals and user edits, with shared files and directories",
     "No test calls pkgrm.",
     ["src/pkgrm.cxx", "src/pkgdbh.cxx"], [("pkgrm::run", "src/pkgrm.cxx"), ("removePackageFiles(name)", "src/pkgdbh.cxx"),
      ("removePackageFilesRefsFromDB(name)", "src/pkgdbh.cxx")], [DBSTATE], ["filesystem", "var/lib/pkg/DB"])

prop("C05", "Upgrading replaces the old version: new files in, obsolete files out, rest kept",
     "After a successful pkgadd --upgrade the record describes the new version only, files of the old version that are neither in the new "
     "version nor recorded for another package are gone, and all other files are kept. A file of the new version for which pkgadd.conf says "
     "UPGRADE NO keeps its present content if it exists, the new one being left under var/lib/pkg/rejected unless it is identical or empty. A "
     "package recorded as automatically installed stays so, and a manually installed one stays manual.",
     ["inputs", "histories"], "all pairs of versions, all UPGRADE rule lists, all states of the files on disk",
     "No test upgrades a package.",
     ["src/pkgadd.cxx", "src/pkgdbh.cxx"], [("removePackageFiles(name, keep_list)", "src/pkgdbh.cxx"), ("getKeepFileList", "src/pkgadd.cxx"),
      ("installArchivePackage: rejected files", "src/pkgdbh.cxx"), ("setDependency", "src/pkgdbh.cxx")],
     [DBSTATE, ("<root>/var/lib/pkg/rejected", "rejected new versions of kept files", "src/pkgdbh.cxx")], ["filesystem", "var/lib/pkg/DB", "var/lib/pkg/rejected"])

prop("C06", "pkgadd.conf decides file by file, and the last matching rule wins",
     "For every file of a package the last INSTALL (respectively UPGRADE) rule of the root's var/lib/pkg/pkgadd.conf whose extended regular "
     "expression matches the file's path decides, and a file no rule matches is treated as YES. A file with INSTALL NO is neither put on disk "
     "nor recorded. A pkgadd.conf line that is not blank, not a # comment and not a known event, a pattern and YES or NO makes pkgadd refuse before it changes anything.",
     ["inputs", "configurations"], "all rule lists and all packages; all single-line corruptions of a rule file",
     "No test reads a pkgadd.conf.",
     ["src/pkgadd.cxx", "src/pkgdbh.cxx", "src/pkgadd.conf"], [("readRulesFile", "src/pkgdbh.cxx"), ("applyInstallRules", "src/pkgadd.cxx"),
      ("checkRuleAppliesToFile", "src/pkgdbh.cxx")], [("var/lib/pkg/pkgadd.conf", "rules", "src/pkgdbh.cxx")], ["filesystem", "var/lib/pkg/DB", "exit status"])

prop("C07", "A refused operation changes nothing",
     "pkgadd and pkgrm that fail because the package is already installed, is not installed, is not a readable package, is for another "
     "architecture (on the default root), would overwrite files (see C02), has a failing pre-install or pre-remove script, is called with wrong options or by an ordinary user "
     "exit with a non-zero status and leave the filesystem and the database exactly as they were (apart from what the script itself did).",
     ["inputs", "histories"], "all refusal causes met in any reachable state of the root",
     "Error paths are not reached by any test.",
     ["src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/archive.cxx"], [("pkgadd::run / pkgrm::run order of checks", "src/pkgadd.cxx"),
      ("treatErrors", "src/pkgdbh.cxx"), ("main's catch", "src/tools.cxx")], [DBSTATE], ["exit status", "filesystem", "var/lib/pkg/DB"])

prop("C08", "With -r, nothing outside the given root is touched",
     "pkgadd, pkgrm and pkginfo run with -r ROOT, however ROOT is spelt (absolute, relative to the current directory, with extra or trailing "
     "slashes), read and change the database and files below ROOT only: every file outside ROOT is as before, and the outcome below ROOT is "
     "the one the same command has on a default root.",
     ["inputs", "histories", "configurations"], "all histories of tool runs with -r, all spellings of the root and current directories, with look-alike files outside",
     "No test uses -r.",
     ["src/pkgdbh.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkginfo.cxx", "src/file_utils.cxx", "src/lock.cxx"],
     [("m_root", "src/pkgdbh.h"), ("chdir(m_root)", "src/pkgdbh.cxx"), ("cleanupMetaFiles / removeFile", "src/file_utils.cxx")], [DBSTATE],
     ["the whole filesystem outside ROOT"])

prop("C09", "Package scripts and post-install commands run exactly when they should",
     "A package's pre-install script runs once before any of its files is put down, its post-install script once after all are (neither with "
     "--ignore), its pre-remove script once before and its post-remove script once after its files are removed by pkgrm; a failing "
     "pre-script aborts the operation, a failing post-script does not, and no script is left in the root. A system command tied to a "
     "pkgadd.conf event (LDCONF, INFO, FONTS, ...) runs, if it exists, for exactly the installed files for which the last matching event rule says YES.",
     ["inputs", "histories", "configurations"], "all packages with any subset of scripts, succeeding or failing, any rule list",
     "No test installs a package with scripts.",
     ["src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkgdbh.cxx", "src/process.cxx"], [("preRun/postRun", "src/pkgadd.cxx"), ("preRun/postRun", "src/pkgrm.cxx"),
      ("applyInstallRules / runLastPostInstall", "src/pkgdbh.cxx")], [DBSTATE], ["a log the scripts and commands write"])

prop("C10", "pkginfo's answers agree with the database",
     "pkginfo -i lists every installed package once with its collection, version, release and manual or automatic state; -n counts them; -l NAME "
     "lists exactly the files recorded for NAME (or for the package with that alias); -o PATTERN lists exactly the (package, file) pairs whose "
     "path matches; -b NAME prints its build time and 0 if it is not installed; -d NAME prints its metadata, automatic flag and dependencies. It never changes the database.",
     ["inputs", "histories"], "all databases reachable through pkgadd and pkgrm, all query arguments",
     "No test runs pkginfo.",
     ["src/pkginfo.cxx", "src/pkgdbh.cxx", "src/db.cxx"], [("pkginfo::run", "src/pkginfo.cxx"), ("buildDatabase", "src/pkgdbh.cxx")], [DBSTATE], ["standard output of pkginfo"])

prop("C11", "pkginfo describes a package file truthfully",
     "For every package file, pkginfo -f prints one line per archive entry with its permissions, owner, path and the link target, device number "
     "or EMPTY mark; -l prints exactly the package's file list; -m prints its metadata lines; -a prints its fields (name, version, release, "
     "architecture, build date, dependencies...), whatever the compression.",
     ["inputs"], "all well-formed packages with any entry types, modes, owners and metadata",
     "No test opens a package file.",
     ["src/pkginfo.cxx", "src/pkgdbh.cxx", "src/archive.cxx", "src/string_utils.cxx"], [("getFootprintPackage / mtos", "src/pkgdbh.cxx"),
      ("archive", "src/archive.cxx")], [], ["standard output of pkginfo"])

prop("C12", "A crash at any point leaves a usable database and the other packages intact",
     "If pkgadd or pkgrm is killed at any point, or a system call on the way fails, every later command can still read the database, the records and files of "
     "all packages not involved in the operation are intact, and no file list is half written: the record of the package in question is the old one, the new one "
     "or absent. Repeating the operation then succeeds (with --force where files were left behind). SIGHUP, SIGINT, SIGQUIT and SIGTERM do not cut the operation off: "
     "what it does to files and database is complete afterwards.",
     ["crash_points", "fault_sequences", "histories"], "every file-changing system call of install, upgrade, forced install and removal",
     "No test kills or disturbs an operation.",
     ["src/pkgdbh.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx"], [("temporary file + fsync + rename of the file list", "src/pkgdbh.cxx"),
      ("order of removal and recording", "src/pkgadd.cxx")], [DBSTATE], ["var/lib/pkg/DB", "filesystem", "exit status of later commands"])

prop("C13", "Database operations exclude each other",
     "While one process holds the package database of a root for writing, any pkgadd or pkgrm on that root fails without changing a file and any pkginfo "
     "query of the database fails cleanly; while readers hold it, writers fail and readers proceed. A lock is never left behind: after the holder ends in any way, including being killed, operations proceed.",
     ["schedules", "histories"], "all pairs of operations with the first one stopped at any of its file-changing system calls",
     "No test runs two processes.",
     ["src/lock.cxx", "src/pkgadd.cxx", "src/pkgrm.cxx", "src/pkginfo.cxx"], [("cards::lock", "src/lock.cxx")],
     [("flock on var/lib/pkg/DB", "shared for queries, exclusive for changes", "src/lock.cxx")], ["exit status", "filesystem", "var/lib/pkg/DB"])

prop("C14", "No package file, however malformed, crashes the tools or gets half installed",
     "For every byte string given as a package file, pkgadd and pkginfo either process it as the package it is or report an error and exit "
     "with a non-zero status; they never crash, read or write out of bounds, hang, or change the database or the files of installed packages on behalf of a package they report as invalid.",
     ["inputs"], "all byte strings, in particular mutated, truncated and hand-built archives with missing, empty, oversized or malformed metadata",
     "No test opens a malformed package.",
     ["src/archive.cxx", "src/pkgdbh.cxx", "src/pkginfo.cxx", "src/tools.cxx"], [("archive::extractFileContent", "src/archive.cxx"),
      ("openArchivePackage", "src/pkgdbh.cxx")], [], ["exit status, sanitizer reports", "filesystem", "var/lib/pkg/DB"])

json_path = os.path.join(HERE, "properties.jsonl")
exec(open(os.path.join(HERE, "tools", "gen_properties2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "gen_properties2.py")) else None
with open(json_path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
