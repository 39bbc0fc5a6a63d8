REPOSTATE = ("<depot>/<collection>/{.REPO,.FILES,.PKEY}", "what a collection of binary packages offers", "src/pkgrepo.cxx")

prop("C15", "Only packages whose signature verifies with the collection's key get installed",
     "cards install, upgrade and sync-then-upgrade install a package of a repository only if its file's SHA-512 hash carries a valid Ed25519 signature, found in the collection's .REPO, "
     "under the collection's public key. A missing, malformed or wrong signature, a missing or unusable key, or a file that differs from the signed one makes the command fail with a non-zero status "
     "before anything below the root changes; the same holds for dependencies and group packages, wherever the file came from (depot or mirror). Packages that verify are installed.",
     ["inputs", "fault_sequences"], "all repositories, all ways of tampering with packages, hashes, signatures and keys in the depot or on the mirror",
     "No test downloads or verifies a package.",
     ["src/pkgrepo.cxx", "src/install.cxx", "src/upgrade.cxx"], [("pkgrepo::checkSign / checkHash", "src/pkgrepo.cxx"), ("downloadPackageFileName", "src/pkgrepo.cxx"),
      ("install::install / getLocalePackagesList", "src/install.cxx")], [REPOSTATE, DBSTATE], ["exit status of cards", "filesystem", "var/lib/pkg/DB"])

prop("C16", "cards install adds what was asked for and its missing dependencies, in order",
     "cards install NAME... installs the named packages, the not yet installed members of named sets and collections, everything they need at run time that is missing or older than needed, directly or through other packages, and "
     "the configured group packages of what it installs; nothing else changes. Each package is installed once, after the dependencies it was built with (except within a dependency cycle). Packages pulled in as dependencies are "
     "marked automatic, packages asked for are not, and upgrading an installed package as a dependency leaves its mark alone. If a package or a dependency cannot be found nothing changes and the command fails. "
     "Package files among the names, relative or not, are installed as well. With --root everything is decided from and done to that root.",
     ["inputs", "histories"], "all dependency graphs (chains, diamonds, cycles), installed systems, sets, collections, groups and argument lists",
     "No test installs from a repository; order and closure depend on graph and history.",
     ["src/install.cxx", "src/pkgrepo.cxx", "src/pkgdbh.cxx"], [("install::generateDependencies / addPackageToDependenciesList", "src/install.cxx"), ("pkgrepo::getListOfPackagesFromSet / FromCollection", "src/pkgrepo.cxx")],
     [REPOSTATE, DBSTATE], ["order of pre-install scripts", "filesystem", "var/lib/pkg/DB"])

prop("C17", "cards remove removes what was named and what nobody needs any more, no more",
     "cards remove NAME... removes the named packages (an alias stands for its package; a set, collection or group for its members) and then the automatic packages nothing left installed needs, with their group packages. "
     "Without -f it refuses, changing nothing, if an installed package still needs an argument or one belongs to the base collection. An unknown argument or an ordinary user changes nothing. Packages installed by hand and dependencies "
     "still in use stay. Removed packages are gone from the database with the files only they owned; all other files and records are untouched.",
     ["inputs", "histories"], "all installed systems with their dependency graphs, aliases, sets, collections, groups and automatic marks; all argument lists",
     "No test removes a package through cards.",
     ["src/remove.cxx", "src/pkgdbh.cxx"], [("remove::remove", "src/remove.cxx"), ("checkDependency / getObsoletsDeps", "src/pkgdbh.cxx")], [DBSTATE], ["exit status of cards remove", "filesystem", "var/lib/pkg/DB"])

prop("C18", "cards upgrade brings the installed system to the state the repositories offer",
     "cards diff, upgrade -c and -s report exactly the installed packages the repositories offer in a newer build and the obsolete ones. cards upgrade installs those and their new dependencies (marked automatic, with the configured "
     "groups), removes automatic packages no longer offered, leaves everything else and all automatic marks alone, and empties the depots of mirrors of downloaded packages. Files may move between packages. Too many changes need -p. "
     "--download-only fetches all that is needed and changes nothing else; --ready tells whether it is there intact. A second upgrade finds nothing to do.",
     ["inputs", "histories"], "all repositories, installed systems, configurations and upgrade options",
     "No test upgrades a system.",
     ["src/diff.cxx", "src/upgrade.cxx"], [("diff::diff / showInfo", "src/diff.cxx"), ("upgrade::upgrade / upgradePackages / Isdownload", "src/upgrade.cxx")], [REPOSTATE, DBSTATE],
     ["output of cards diff, upgrade -c / -s", "exit status", "filesystem", "var/lib/pkg/DB"])

prop("C19", "cards sync replaces the metadata of a collection only by a complete new version",
     "After cards sync succeeds, .REPO, .FILES and .PKEY of every collection with an url hold exactly what the mirror offers, decompressed, fetched from the url of that collection; collections without url and all other files are untouched. "
     "If a file is missing, damaged, cut off or the transfer, disk or process fails at any point, sync fails and each metadata file is still the complete old or the complete new one. A later sync repairs everything.",
     ["inputs", "crash_points", "fault_sequences"], "all metadata contents and compressions, transfer faults, failing system calls and crash points",
     "No test uses a mirror, and the outcome depends on where a transfer or write stops.",
     ["src/sync.cxx", "src/dwl.cxx"], [("sync::run / uncompress", "src/sync.cxx"), ("dwl::get", "src/dwl.cxx")], [REPOSTATE], ["exit status of cards sync", "contents of .REPO, .FILES, .PKEY"])

prop("C20", "cards keys and cards repo produce exactly what the verifying side accepts",
     "cards keys writes an Ed25519 pair that belongs together, the private key never readable by others. cards repo writes, for each collection asked for, .REPO and .FILES (and their .zst) describing exactly the packages there - all "
     "metadata, SHA-512, size, files, a signature valid for the public key - and touches nothing else; it fails for unknown collections, foreign files and bad keys. Killed or failing at any point it leaves each file the complete old or "
     "new one. Without a private key cards repo reports exactly the packages whose file, hash or signature is not right, and fails if there is any.",
     ["inputs", "crash_points", "fault_sequences"], "all collections, package contents, keys, tampered metadata or archives, failing system calls and crash points",
     "Signatures must hold for every content, and no test signs anything.",
     ["src/repo.cxx", "src/pkgrepo.cxx"], [("repo::repo / compress", "src/repo.cxx"), ("pkgrepo::generateKeys / generateSign / checkSign", "src/pkgrepo.cxx")], [REPOSTATE],
     ["exit status and output of cards repo / keys", "contents of .REPO, .FILES, .PKEY, .private.key"])

prop("C21", "The catalogue queries of cards answer exactly what the metadata say",
     "cards list -b / -S, search (also -n), query -b, files -b, info -b / -S and list, files, query for installed packages show every matching package or file of every collection with its own properties, and nothing else: whatever the "
     "fields present, name case, line lengths, a missing last newline, or an empty or missing metadata file of another collection.",
     ["inputs"], "all repository metadata, installed systems and query arguments",
     "The readers are hand-written parsers over mapped files; tests query no repository.",
     ["src/list.cxx", "src/search.cxx", "src/query.cxx", "src/files.cxx", "src/info.cxx", "src/pkgrepo.cxx"],
     [("list::parse / parseSets", "src/list.cxx"), ("search::parse / list", "src/search.cxx"), ("query::parse", "src/query.cxx"), ("files::parse", "src/files.cxx"), ("pkgrepo::getBinaryPackageInfo", "src/pkgrepo.cxx")], [REPOSTATE, DBSTATE],
     ["output of the queries", "exit status"])

prop("C22", "cards.conf means the same whatever its layout, and purge removes only downloads",
     "Every dir, collection, depot, url, group, locale and logdir of cards.conf and the version file counts, whatever the order, white space, comments or line lengths: cards config shows exactly the resulting collections, urls and "
     "groups. cards purge (root only) removes all visible files in the directories of collections with an url, and nothing else: no hidden metadata, directories, symbolic links or collections without url. It fails if one cannot be removed.",
     ["inputs", "fault_sequences"], "all configuration files and depots",
     "No test reads a generated configuration or purges anything.",
     ["src/conf.cxx", "src/file_utils.cxx"], [("conf::parseConfig / purge", "src/conf.cxx"), ("findRecursiveFile / parseFile", "src/file_utils.cxx")], [("configuration", "cards.conf and the version file", "src/conf.h"), REPOSTATE],
     ["output of cards config", "filesystem", "exit status"])

prop("C23", "The tree of ports is read completely, and its levels are a valid build order",
     "cards level gives every port one more than the highest level of the ports it needs (makedepends and run lists in any layout, with comments, group packages, missing or self dependencies) and names each missing dependency. depends, "
     "deptree and dependent show exactly the transitive closure in build order, the tree, and the direct users; ports of the first collection win; ports needing each other never hang. create --dry lists exactly the ports whose binary is "
     "missing or of another version or release, and the binaries without port.",
     ["inputs"], "all trees of ports and dependency graphs",
     "Levels must hold for every graph; no test has a tree of ports.",
     ["src/pkgfile.cxx", "src/level.cxx", "src/depends.cxx", "src/deptree.cxx", "src/dependent.cxx", "src/create.cxx"],
     [("pkgfile::parse / confirmDependencies / generate_level", "src/pkgfile.cxx"), ("depends::list / print", "src/depends.cxx"), ("deptree::print", "src/deptree.cxx"), ("dependent::list", "src/dependent.cxx"), ("create::buildCollection / checkBinaries", "src/create.cxx")],
     [REPOSTATE], ["output of cards level, depends, deptree, dependent, create --dry", "exit status"])

prop("C24", "The libraries and owners pkginfo finds are those the ELF files name",
     "pkginfo --runtimelibs shows exactly the needed libraries and sonames of the visible regular files below a directory, -L those of an installed package (names ending with a dot left out), --runtimedepfiles and -R exactly the packages "
     "owning a file of that name or of that name followed by a dot and a version; also below -r. It does not matter whether files are 32 or 64 bits little-endian, in which order sections lie, or what other files are there; files that are "
     "no ELF file, are empty, damaged, cut off or FIFOs never crash, hang or hide others.",
     ["inputs"], "all directory trees, ELF files (well-formed or damaged) and installed packages",
     "The reader is a hand-written binary parser; no test gives it an ELF file.",
     ["src/runtime_dependencies_utils.cxx", "src/pkginfo.cxx", "src/elf.h", "src/file_utils.cxx"],
     [("getRuntimeLibrariesList", "src/runtime_dependencies_utils.cxx"), ("pkginfo::run", "src/pkginfo.cxx"), ("findRecursiveFile / getDatas", "src/file_utils.cxx")], [DBSTATE],
     ["output of pkginfo --runtimelibs, --runtimedepfiles, -L, -R", "exit status"])

prop("C25", "The web catalogue shows exactly the packages, pages and lines a visitor asks for",
     "index.cgi lists, for a package search, exactly the records of all readable collections whose collection, name or description contains the text (case does not matter; type, branch and system restrict it), with their version, "
     "release, date and links. A page appears with every line, a contents list of its h2-h6 headings, and its date; a text search finds exactly the lines of the pages containing it. Words of the visitor and of packages never become "
     "HTML, hidden files never show, nothing is written but the visit.",
     ["inputs"], "all sites (pages, configurations, repositories) and queries",
     "The program answers requests of strangers; no test runs it.",
     ["src/webcards.cxx", "src/webrepo.cxx", "src/webcards.h"],
     [("parseArguments / getFormatedBinaryPackageList / parseHTMLDelimitedList / main", "src/webcards.cxx"), ("webrepo::parse", "src/webrepo.cxx")], [REPOSTATE],
     ["answer of index.cgi", "exit status", "filesystem"])

prop("C26", "pkgmk makes of a port the packages, records and meta data the port states",
     "Every file a port installs is in exactly one package, the one its group, locale or function claims, once, with mode and contents; binaries stripped, manual pages and links to them compressed, only the documented files removed. "
     "Meta data name what the Pkgfile and the files say. .REPO and .FILES change for this port only and match the packages. Nothing is built again when nothing changed; a failing download, unpacking, build, group or dependency gives its "
     "documented status and no record; modes such as -co, -do, -uf, -i, -r do what the manual says.",
     ["inputs", "histories"], "all ports (trees, lists, groups, locales, functions), configurations, mirrors and sequences of pkgmk runs",
     "pkgmk is a shell script no test runs.",
     ["scripts/pkgmk.in", "src/pkginfo.cxx", "src/pkgdbh.cxx"],
     [("build_package / pack_* / remove_* / add_meta_to_archive / update_repo_file / compress_manpages / download_file / main", "scripts/pkgmk.in")], [REPOSTATE],
     ["packages, .REPO, .FILES, footprints, sources", "exit status of pkgmk", "installed system with -i"])

prop("C27", "cards create builds ports in a clean, complete environment, installs the result",
     "cards create runs pkgmk once for each port asked for (of a collection: those without a binary of their version and release, lower levels first), in the port's directory. Then exactly these are installed: packages of the sets chroot "
     "and devel with what they need, the port's dependencies at any depth, with packages of configured groups. Afterwards the new packages are installed or upgraded and the log holds the output. A collection's up-to-date ports whose libraries nothing provides are named. A build that fails or is killed, a missing "
     "binary, port or directory ends with an error and nothing of it is installed; --dry and refused runs change nothing.",
     ["inputs", "histories", "fault_sequences"], "all trees of ports, repositories, installed systems, configurations and results of the builds",
     "No test runs cards create; its result depends on the whole system, the tree and the repository.",
     ["src/create.cxx", "src/process.cxx", "src/pkgfile.cxx", "src/pkgrepo.cxx"],
     [("core / base / installDependencies / buildBinary / buildCollection / run", "src/create.cxx"), ("execShellLog / execShell", "src/process.cxx"), ("getListOfPackagesFromCollection", "src/pkgfile.cxx"),
      ("getListOfPackagesFromGroup / refresh", "src/pkgrepo.cxx")], [REPOSTATE, DBSTATE],
     ["calls of pkgmk and what is installed at each", "installed records and files", "log", "exit status"])

prop("C28", "Damaged or odd text files never crash the tools, hide other data or have effects",
     "Whatever bytes the configuration, rules, records, file lists, .REPO, .FILES, keys, mirror metadata, meta data of a package, Pkgfiles, and the web site hold (cut, changed, too long, another file type), "
     "and whatever the arguments are, no command crashes, hangs or uses memory wrongly; queries change nothing, other commands nothing outside the places they own; only signed contents get installed; packages and records not damaged "
     "stay visible; a number that is none, or a damaged record, does not end the listing commands. Comments, empty lines and a missing line end of the last line change no answer.",
     ["inputs", "configurations"], "all contents of the text files and all arguments; an error with a status is an acceptable answer to damage",
     "The files come from mirrors, editors and crashes; the tests read good ones only.",
     ["src/conf.cxx", "src/pkgdbh.cxx", "src/pkgrepo.cxx", "src/pkgfile.cxx", "src/file_utils.cxx", "src/list.cxx", "src/search.cxx", "src/webrepo.cxx", "src/archive.cxx"],
     [("conf::parseConfig", "src/conf.cxx"), ("buildDatabase / readRulesFile", "src/pkgdbh.cxx"), ("parse / checkSign", "src/pkgrepo.cxx"), ("pkgfile::parse", "src/pkgfile.cxx"), ("parseFile", "src/file_utils.cxx")],
     [REPOSTATE, DBSTATE], ["exit status and signals", "output", "filesystem"])

prop("C29", "A command line means the same however it is written; a wrong one does nothing",
     "For pkgadd, pkgrm, pkginfo and cards: two valid command lines that differ only in the place of their options (cards: the first non-option argument is the command, wherever options stand and whatever packages are called), in short or "
     "long option names, or in repeated flags give the same status, output and file system. With -h/--help (pkg tools also -v/--version) in any place the tool prints it, succeeds and changes nothing. A line with an unknown, joined or "
     "incomplete option, an unknown or missing command, too many or too few arguments, or two modes of pkginfo fails with a message and changes nothing.",
     ["inputs", "configurations"], "all command lines made of the documented commands, options and arguments, and all single faults in them; on any installed system",
     "The combinations of options, places and faults are far more than the tests' fixed command lines.",
     ["src/argument_parser.cxx", "src/cards_argument_parser.cxx", "src/cards.cxx", "src/pkgadd.cxx", "src/pkgdbh.cxx", "src/pkginfo.cxx", "src/tools.cxx", "src/system_utils.cxx"],
     [("ArgParser::parse / addOption / addCommand", "src/argument_parser.cxx"), ("CardsArgumentParser", "src/cards_argument_parser.cxx"), ("main", "src/cards.cxx"), ("main", "src/tools.cxx"),
      ("pkgadd::parseArguments", "src/pkgadd.cxx"), ("pkgdbh::parseArguments", "src/pkgdbh.cxx"), ("pkginfo::parseArguments", "src/pkginfo.cxx")],
     [DBSTATE], ["exit status", "output", "filesystem"])

prop("C30", "The graphical client does the jobs marked, no others, and reports how they ended",
     "For the graphical client below its windows (fltk/): its list holds every package of the configured collections once, with its data, marked installed exactly when the database says so; its job list is what is marked, and empty once "
     "cleared or processed. Processing removes the packages marked for it, then installs those marked with their missing dependencies, in order, and nothing else; who is not root changes nothing. Failures (lock held, package missing or "
     "unreadable, failed sync) are logged and reported, each window is told once, one job runs at a time, and no sequence of operations crashes it.",
     ["inputs", "histories", "configurations"], "all catalogues, installed systems and sequences of list, mark, clear, process, synchronise and query operations, with failures",
     "The tests do not touch the graphical client.",
     ["fltk/cards_client.cxx", "fltk/cards_wrapper.cxx", "fltk/cards_log.cxx", "fltk/cards_event_handler.h", "src/cache.cxx", "src/pkgrepo.cxx", "src/pkgadd.cxx"],
     [("cards_client::InstallPackages / RemovePackages / progressInfo", "fltk/cards_client.cxx"), ("cards_wrapper::m_DoJobList_Thread / refreshJobList / clearJobList / m_RefreshPackageList", "fltk/cards_wrapper.cxx"),
      ("cards_logger::log", "fltk/cards_log.cxx"), ("cache::setStatus", "src/cache.cxx")],
     [REPOSTATE, DBSTATE], ["package and job lists", "callbacks", "messages", "filesystem"])
