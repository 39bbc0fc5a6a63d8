From ec4fc02194974753e88028aeeba28a04060bdf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 001/113] fix: initialise pkgdbh's automatic-dependency flag

It was read before being set: a plain pkgadd could record a manually
installed package as an automatic dependency (d1 in its META).
---
 src/pkgdbh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6dc0352..61f1123 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -9,6 +9,7 @@ using __gnu_cxx::stdio_filebuf;
 
 pkgdbh::pkgdbh(const std::string& name)
 	: m_utilName(name)
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
@@ -18,6 +19,7 @@ pkgdbh::pkgdbh(const std::string& name)
 }
 pkgdbh::pkgdbh()
 	: m_utilName("pkgdbh")
+	, m_dependency(false)
 	, m_DB_Empty(true)
 	, m_progress(false)
 	, m_runPrePost(true)
-- 
2.43.0


From 5fb4f512745592d9ba25a11ff38a45d844f29f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 002/113] fix: remove package meta files from the root in use,
 not from /

With -r, .MTREE, .META, .README and .INFO were left in the alternative root
and the files of the same name were removed from the running system's /.
---
 src/file_utils.cxx | 12 ++++++------
 src/pkgdbh.cxx     |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6804a35..16f8361 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -178,37 +178,37 @@ void cleanupMetaFiles(const std::string& basedir)
 #ifdef DEBUG
 		std::cerr << basedir << "/.INFO removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.INFO");
+		remove( (basedir + "/.INFO").c_str() );
 	}
 	if ( checkFileExist( basedir + "/.META") ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.META removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.META");
+		remove( (basedir + "/.META").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.PRE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.PRE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.PRE");
+		remove( (basedir + "/.PRE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.POST" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.POST removed" << std::endl;
 #endif
-		removeFile ( basedir , "/.POST");
+		remove( (basedir + "/.POST").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.MTREE");
+		remove( (basedir + "/.MTREE").c_str() );
 	}
 	if ( checkFileExist ( basedir + "/.README" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.README removed" << std::endl;
 #endif
-		removeFile ( basedir, "/.README");
+		remove( (basedir + "/.README").c_str() );
 	}
 }
 void removeFile(const std::string& basedir, const std::string& filename)
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 61f1123..3fa8714 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -664,7 +664,7 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		}
 	for (auto i : metaFilesList)
 		info.files.erase(i);
-	removeFile (m_root, "/.MTREE");
+	remove((m_root + "/" + MTREEFILE).c_str());
 	if (checkFileExist(m_root + PKG_PRE_REMOVE))
 		metaFilesList.insert(PKG_PRE_REMOVE);
 	if (checkFileExist(m_root + PKG_POST_REMOVE))
-- 
2.43.0


From b77875c3e46590233c36fa2bc41fbc6ec7d12204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 003/113] fix: do not leave .PRE in the root when the
 pre-install script fails

---
 src/pkgdbh.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 3fa8714..bcc6d77 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1222,6 +1222,7 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 		progressInfo(cards::ACTION_ENUM_PKG_PREINSTALL_START);
 		process preinstall(SHELL,PKG_PRE_INSTALL, 0 );
 		if (preinstall.executeShell()) {
+			removeFile(m_root,PKG_PRE_INSTALL);
 			exit(EXIT_FAILURE);
 		}
 		removeFile(m_root,PKG_PRE_INSTALL);
-- 
2.43.0


From a14e93413f94c5b40b7332da4413e1e1fda30b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 004/113] fix: make a relative root absolute before pkgadd
 changes directory

---
 src/pkgadd.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index ca29ed5..92fca7b 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -45,6 +45,14 @@ void pkgadd::parseArguments(int argc, char** argv)
 		treatErrors("");
 	}
 
+	// The installation changes to the root directory,
+	// a relative root would then point somewhere else
+	if (m_root[0] != '/') {
+		char buf[PATH_MAX];
+		if (realpath(m_root.c_str(), buf) != NULL)
+			m_root = std::string(buf) + "/";
+	}
+
 	// Check UID
 	if (getuid())
 	{
-- 
2.43.0


From ed0ed9e574a904bd53ae2470606b0a8621ff9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 005/113] fix: initialise all the query modes of pkginfo

---
 src/pkginfo.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index d71f7f0..36d2c94 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -26,10 +26,12 @@ pkginfo::pkginfo(const std::string& commandName)
 pkginfo::pkginfo()
     : pkgdbh("pkginfo")
     , m_runtimedependencies_mode(0)
+    , m_runtimelibs_mode(0)
     , m_footprint_mode(0)
     , m_archiveinfo(0)
     , m_metainfo(0)
     , m_installed_mode(0)
+    , m_number_mode(0)
     , m_list_mode(0)
     , m_owner_mode(0)
     , m_details_mode(0)
-- 
2.43.0


From dbcd9e85725d31445299cfc4e8d371d5ef133c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 006/113] fix: run post-install commands only for installed
 files their rule matches

---
 src/pkgadd.cxx | 49 ++++++-------------------------------------------
 1 file changed, 6 insertions(+), 43 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index 92fca7b..d7eda00 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -141,6 +141,8 @@ void pkgadd::run()
 		// Add the info about the files to the DB
 		addPackageFilesRefsToDB(package.first, package.second);
 	}
+	// Find out which system commands have to be run for the installed files
+	applyPostInstallRules(package.first, package.second, m_actionRules);
 	postRun();
 }
 void pkgadd::postRun()
@@ -224,9 +226,6 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 	std::vector<rule_t> files_found;
 	getInstallRulesList(rules, cards::INSTALL, files_found);
 
-	std::vector<rule_t> scripts_found;
-	getPostInstallRulesList(rules, scripts_found);
-
 	for (auto i : info.files) {
 
 		bool install_file = true;
@@ -242,40 +241,11 @@ pkgadd::applyInstallRules(const std::string& name, cards::db& info,
 			install_set.insert(install_set.end(), i);
 		else
 			non_install_set.insert(i);
-
-		std::pair <std::string, int> a;
-		for (std::vector<rule_t>::reverse_iterator j = scripts_found.rbegin();
-		j != scripts_found.rend();
-		j++) {
-			a.first=i;
-			a.second=(*j).event;
-
-			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				break;
-				}
-		}
-		if (install_file) {
-			if ( a.second == cards::LDCONF ) {
-				a.first="";
-			} else {
-				a.first=i;
-			}
-			m_postInstallList.insert(a);
-		}
 	}
-	scripts_found.clear();
 	info.files.clear();
 	info.files = install_set;
 
 #ifdef DEBUG
-	std::cerr << "PostInstall set:" << std::endl;
-	for (auto i : m_postInstallList)
-		std::cerr << "  "
-			<< i.first
-			<< " "
-			<< i.second
-			<< std::endl;
 	std::cerr << "Install set:" << std::endl;
 	for  (auto i : info.files)
 		std::cerr << "   " << i << std::endl;
@@ -297,22 +267,15 @@ pkgadd::applyPostInstallRules(const std::string& name, cards::db& info,
 	getPostInstallRulesList(rules, found);
 
 	for (auto i : info.files) {
-		bool install_file = true;
 		for (std::vector<rule_t>::reverse_iterator j = found.rbegin();
 		j != found.rend();
 		j++) {
-			std::pair <std::string, int> a;
-			a.first=(*j).event;
-			a.second=(*j).action;
-
 			if (checkRuleAppliesToFile((*j), i)) {
-				install_file = (*j).action;
-				if (install_file) {
-					if ( a.second == cards::LDCONF ) {
-						a.first="";
-					} else {
+				if ((*j).action) {
+					std::pair <std::string, int> a;
+					a.second=(*j).event;
+					if ( a.second != cards::LDCONF )
 						a.first=i;
-					}
 					m_postInstallList.insert(a);
 				}
 				break;
-- 
2.43.0


From faf7d22439f734c9cdf781942f66b9efa4984055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 007/113] fix: resolve aliases in all queries of pkginfo

---
 src/pkginfo.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 36d2c94..8a73a43 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -316,7 +316,7 @@ void pkginfo::run()
             std::cout << "Librairies"<< std::endl;
 
             if (checkPackageNameExist(m_arg)) {
-                for (auto i : m_listOfPackages[m_arg].files) {
+                for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
                     std::string filename('/' + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
@@ -359,7 +359,7 @@ void pkginfo::run()
             //  get the buildtime of the package: return 0 if not found
             buildDatabase(false);
             if (checkPackageNameExist(m_arg)) {
-                std::cout << m_listOfPackages[m_arg].build() << std::endl;
+                std::cout << m_listOfPackages[m_listOfAlias[m_arg]].build() << std::endl;
             } else {
                 std::cout << "0" << std::endl;
             }
@@ -408,12 +408,12 @@ void pkginfo::run()
                           << _("Installed Size : ") << sizeHumanRead(m_listOfPackages[arg].space())
                           << _("bytes") << std::endl
                           << _("Arch           : ") << m_listOfPackages[arg].arch() << std::endl;
-                if (m_listOfPackages[m_arg].dependency() == false)
+                if (m_listOfPackages[arg].dependency() == false)
                     std::cout << _("Man. installed : Yes");
                 else
                     std::cout << _("Man. installed : No");
                 std::cout << std::endl;
-                if (m_listOfPackages[m_arg].dependencies().size() > 0) {
+                if (m_listOfPackages[arg].dependencies().size() > 0) {
                     std::cout << _("Dependencies   : ");
                     for (auto i : m_listOfPackages[arg].dependencies())
                         std::cout << i.first << " ";
-- 
2.43.0


From a42676bfcb0d75f7d5c3045326058270968a8b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 008/113] fix: do not end a package at an entry libarchive only
 warns about

---
 src/archive.cxx |  2 +-
 src/archive.h   | 12 ++++++++++++
 src/pkgdbh.cxx  | 12 ++++--------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 60a492b..0c11439 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -89,7 +89,7 @@ void archive::extractFileContent
     }
     unsigned int i = 0;
     int64_t entry_size;
-    while (archive_read_next_header(ar, &ae) == ARCHIVE_OK) {
+    while (nextArchiveEntry(ar, &ae)) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
             entry_size = archive_entry_size(ae);
diff --git a/src/archive.h b/src/archive.h
index cfcb083..7377486 100644
--- a/src/archive.h
+++ b/src/archive.h
@@ -11,6 +11,18 @@
 #include <archive.h>
 #include <archive_entry.h>
 
+// Read the next entry of an opened archive. A warning (such as a file name which
+// does not exist in the current locale) does not end the archive.
+inline bool nextArchiveEntry(struct archive* ar, struct archive_entry** entry)
+{
+	int result;
+	do {
+		result = archive_read_next_header(ar, entry);
+	} while ((result == ARCHIVE_OK || result == ARCHIVE_WARN)
+		&& (archive_entry_pathname(*entry) == nullptr));
+	return (result == ARCHIVE_OK || result == ARCHIVE_WARN);
+}
+
 class archive {
 
 	unsigned int long        m_size;
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index bcc6d77..f60d447 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1195,8 +1195,7 @@ void pkgdbh::extractAndRunPREfromPackage(const std::string& filename)
 	getcwd(buf, sizeof(buf));
 	chdir(m_root.c_str());
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-		ARCHIVE_OK; ++m_installedFilesNumber)
+	for (m_installedFilesNumber = 0; nextArchiveEntry(archive, &entry); ++m_installedFilesNumber)
 	{
 		const char *archive_filename = archive_entry_pathname(entry);
 		if ( strcmp(archive_filename,PKG_PRE_INSTALL) == 0)
@@ -1255,8 +1254,7 @@ void pkgdbh::installArchivePackage
 
 	progressInfo(cards::ACTION_ENUM_PKG_INSTALL_START);
 
-	for (m_installedFilesNumber = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++m_installedFilesNumber) {
+	for (m_installedFilesNumber = 0; nextArchiveEntry(archive, &entry); ++m_installedFilesNumber) {
 
 		progressInfo(cards::ACTION_ENUM_PKG_INSTALL_RUN);
 
@@ -1561,8 +1559,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 			}
       //         throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	for (i = 0; nextArchiveEntry(archive, &entry); ++i) {
 
 		mode_t mode = archive_entry_mode(entry);
 
@@ -1594,8 +1591,7 @@ void pkgdbh::getFootprintPackage(std::string& filename)
 				treatErrors(filename);
         // throw RunTimeErrorWithErrno("could not open " + filename, archive_errno(archive));
 			}
-	for (i = 0; archive_read_next_header(archive, &entry) ==
-	     ARCHIVE_OK; ++i) {
+	for (i = 0; nextArchiveEntry(archive, &entry); ++i) {
 		mode_t mode = archive_entry_mode(entry);
 
 		// Access permissions
-- 
2.43.0


From 5babe5fd02ca4208515b2695fe010018d069c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 009/113] fix: read malformed package metadata without
 overrunning buffers or aborting

---
 src/archive.cxx    | 23 +++++++++++++----------
 src/file_utils.cxx | 24 ++++++++++++++++--------
 src/pkgdbh.cxx     |  4 +++-
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index 0c11439..223ef7e 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -87,17 +87,20 @@ void archive::extractFileContent
         m_actualError = cards::CANNOT_OPEN_ARCHIVE;
         treatErrors(m_fileName);
     }
-    unsigned int i = 0;
-    int64_t entry_size;
     while (nextArchiveEntry(ar, &ae)) {
         const char* currentFile = archive_entry_pathname(ae);
         if (strcmp(currentFile, fileName) == 0) {
-            entry_size = archive_entry_size(ae);
-            char* fC = (char*)malloc(entry_size);
-            archive_read_data(ar, fC, entry_size);
-            fC[entry_size-1] = '\0';
-            list = parseDelimitedVectorList(fC,'\n');
-            free(fC);
+            std::string content;
+            char buffer[DEFAULT_BYTES_PER_BLOCK];
+            la_ssize_t size;
+            while ((size = archive_read_data(ar, buffer, sizeof(buffer))) > 0)
+                content.append(buffer, size);
+            if (size < 0) {
+                FREE_ARCHIVE(ar);
+                m_actualError = cards::CANNOT_READ_ARCHIVE;
+                treatErrors(m_fileName);
+            }
+            list = parseDelimitedVectorList(content.c_str(), '\n');
             break;
         }
     }
@@ -108,7 +111,7 @@ void archive::getRunTimeDependenciesEpoch()
 {
     std::pair<std::string, time_t> NameEpoch;
     for (auto dependency : m_contentMeta) {
-        if (dependency[0] == 'R') {
+        if (dependency[0] == 'R' && dependency.size() > 11) {
             NameEpoch.first = dependency.substr(1, dependency.size() - 11);
             NameEpoch.second = strtoul((dependency.substr(dependency.size() - 10)).c_str(), NULL, 0);
             m_rtDependenciesEpochList.insert(NameEpoch);
@@ -250,7 +253,7 @@ int archive::release()
 {
     for (auto s : m_contentMeta) {
         if (s[0] == RELEASE) {
-            return stoi(s.substr(1));
+            return atoi(s.substr(1).c_str());
             break;
         }
     }
diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 16f8361..7fa8377 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -349,13 +349,17 @@ int parseFile(std::set<std::string>& fileContent, const char* fileName)
 	if (!fp)
 		return -1;
 
-	char input[BUFSIZ];
+	char* input = nullptr;
+	size_t capacity = 0;
+	ssize_t length;
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+	while ((length = getline(&input, &capacity, fp)) > 0) {
+		if (input[length-1] == '\n')
+			input[length-1] = '\0';
 		fileContent.insert(input);
-  }
-  fclose(fp);
+	}
+	free(input);
+	fclose(fp);
   return 0;
 }
 
@@ -366,12 +370,16 @@ int parseFile(std::vector<std::string>& fileContent, const char* fileName)
 	if (!fp)
 		return -1;
 
-	char input[BUFSIZ];
+	char* input = nullptr;
+	size_t capacity = 0;
+	ssize_t length;
 
-	while (fgets(input, BUFSIZ, fp)) {
-		input[strlen(input)-1] = '\0';
+	while ((length = getline(&input, &capacity, fp)) > 0) {
+		if (input[length-1] == '\n')
+			input[length-1] = '\0';
 		fileContent.push_back(input);
 	}
+	free(input);
 	fclose(fp);
 	return 0;
 }
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index f60d447..8627d70 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -457,7 +457,7 @@ pkgdbh::buildSimpleDependenciesDatabase()
 			std::set<std::string> fileContent;
 			parseFile(fileContent,metaFile.c_str());
 		for (auto s : fileContent) {
-			if (s[0] == RUNTIME_DEPENDENCY) {
+			if (s[0] == RUNTIME_DEPENDENCY && s.size() > 11) {
 				std::string dependency = s.substr(1,s.size()-11);
 				packageWithDeps.second.insert(dependency);
 			}
@@ -564,6 +564,8 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case RUNTIME_DEPENDENCY:
+					if (s.size() < 12)
+						continue;
 					std::pair<std::string,time_t > NameEpoch;
 					NameEpoch.first=s.substr(1,s.size()-11);
 					NameEpoch.second=strtoul((s.substr(s.size()-10)).c_str(),nullptr,0);
-- 
2.43.0


From af67e9f602b5de11ceb72487c34c732d51950393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 010/113] fix: hold the database lock from reading the database
 to changing it

pkgadd and pkgrm read the database before taking the lock, and every reader
removed the meta files of an installation going on in another process.
---
 src/pkgadd.cxx  | 36 +++++++++++++++++++++---------------
 src/pkgadd.h    |  2 ++
 src/pkgdbh.cxx  |  3 ---
 src/pkginfo.cxx |  1 +
 src/pkgrm.cxx   |  4 ++++
 5 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/pkgadd.cxx b/src/pkgadd.cxx
index d7eda00..a0de90a 100644
--- a/src/pkgadd.cxx
+++ b/src/pkgadd.cxx
@@ -59,8 +59,6 @@ void pkgadd::parseArguments(int argc, char** argv)
 		m_actualError = cards::ERROR_ENUM_ONLY_ROOT_CAN_INSTALL_UPGRADE_REMOVE;
 		treatErrors("");
 	}
-	// Retrieving info about all the packages
-	buildDatabase(true);
 }
 void pkgadd::preRun()
 {
@@ -74,6 +72,19 @@ void pkgadd::preRun()
 }
 void pkgadd::run()
 {
+	addPackage();
+	postRun();
+}
+void pkgadd::addPackage()
+{
+	// Nobody else may read or change the database from now on
+	cards::lock Lock(m_root, true);
+
+	cleanupMetaFiles(m_root);
+
+	// Retrieving info about all the packages
+	buildDatabase(true);
+
 	// Reading the archiving to find a list of files
 	std::pair<std::string, cards::db> package = openArchivePackage(m_packageArchiveName);
 
@@ -101,7 +112,6 @@ void pkgadd::run()
 		package.second);
 	if (!conflicting_files.empty()) {
 		if (m_force) {
-			cards::lock Lock(m_root, true);
 			std::set<std::string> keep_list;
 			// Don't remove files matching the rules in configuration
 			if (m_upgrade)
@@ -123,27 +133,23 @@ void pkgadd::run()
 		if (checkDependency(package.first))
 			setDependency();
 
-		cards::lock Lock(m_root, true);
 		keep_list = getKeepFileList(package.second.files, m_actionRules);
 		removePackageFiles(package.first, keep_list);
 		// Remove metadata about the package removed
 		removePackageFilesRefsFromDB(package.first);
 	}
-	{
-		cards::lock Lock(m_root, true);
-		// Installation progressInfo of the files on the HD
-		installArchivePackage(m_packageArchiveName,
-			keep_list, non_install_files);
+	// Installation progressInfo of the files on the HD
+	installArchivePackage(m_packageArchiveName,
+		keep_list, non_install_files);
 
-		// Add the metadata about the package to the DB
-		moveMetaFilesPackage(package.first,package.second);
+	// Add the metadata about the package to the DB
+	moveMetaFilesPackage(package.first,package.second);
+
+	// Add the info about the files to the DB
+	addPackageFilesRefsToDB(package.first, package.second);
 
-		// Add the info about the files to the DB
-		addPackageFilesRefsToDB(package.first, package.second);
-	}
 	// Find out which system commands have to be run for the installed files
 	applyPostInstallRules(package.first, package.second, m_actionRules);
-	postRun();
 }
 void pkgadd::postRun()
 {
diff --git a/src/pkgadd.h b/src/pkgadd.h
index d8b8171..e7fb291 100644
--- a/src/pkgadd.h
+++ b/src/pkgadd.h
@@ -16,6 +16,8 @@
 
 class pkgadd : public pkgdbh {
 
+	void			addPackage();
+
 	void			applyPostInstallRules(const std::string& name,
 						cards::db& info,
 						const std::vector<rule_t>& rules);
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 8627d70..b76e9a3 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -51,8 +51,6 @@ void pkgdbh::parseArguments(int argc, char** argv)
 			m_packageName = option;
 		}
 	}
-	// Retrieve info about all the packages
-	buildDatabase(true);
 }
 void pkgdbh::run(int argc, char** argv)
 {
@@ -470,7 +468,6 @@ pkgdbh::buildSimpleDependenciesDatabase()
 void pkgdbh::buildDatabase(const bool& files)
 {
 	using namespace cards;
-	cleanupMetaFiles(m_root);
 	if (!m_DB_Empty)
 		return;
 
diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 8a73a43..9280b26 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -197,6 +197,7 @@ void pkginfo::run()
     if (m_footprint_mode) {
         getFootprintPackage(m_arg);
     } else if (m_number_mode) {
+        cards::lock Lock(m_root, false);
         buildDatabase(false);
         std::cout << m_listOfPackages.size() << std::endl;
     } else {
diff --git a/src/pkgrm.cxx b/src/pkgrm.cxx
index 14d24b3..80eb279 100644
--- a/src/pkgrm.cxx
+++ b/src/pkgrm.cxx
@@ -65,8 +65,12 @@ void pkgrm::run()
 		treatErrors("");
 	}
 
+	// Nobody else may read or change the database from now on
 	cards::lock Lock(m_root, true);
 
+	// Retrieve info about all the packages
+	buildDatabase(true);
+
 	readRulesFile();
 
 	if (!checkPackageNameExist(m_packageName)) {
-- 
2.43.0


From ca4f50a0b5a728b1d439158ea2092ac6454b2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 011/113] fix: ignore records an interrupted operation left
 incomplete

---
 src/pkgdbh.cxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index b76e9a3..9935008 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -399,10 +399,18 @@ void pkgdbh::getListOfPackagesNames()
 		return;
 
 	const std::string pathdb =  m_root + PKG_DB_DIR;
-	if (findDir(m_listOfPackagesNames, pathdb) != 0) {
+	std::set<std::string> names;
+	if (findDir(names, pathdb) != 0) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_READ_FILE;
 		treatErrors(pathdb);
 	}
+	// An interrupted installation or removal leaves a record without
+	// meta data or without list of files: this is not an installed package
+	for (auto i : names) {
+		if (checkFileExist(pathdb + i + PKG_META) &&
+			checkFileExist(pathdb + i + PKG_FILES))
+				m_listOfPackagesNames.insert(i);
+	}
 }
 std::set<std::string>
 pkgdbh::getSetOfFiles(const std::string& packageName)
@@ -678,6 +686,12 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 
 	mkdir(packagenamedir.c_str(),0755);
 
+	// Nothing of an interrupted installation or removal should remain
+	std::set<std::string> oldFilesList;
+	findDir(oldFilesList, packagenamedir);
+	for (auto i : oldFilesList)
+		remove((packagenamedir + "/" + i).c_str());
+
 	for (auto i : metaFilesList)
 	{
 		char * destFile = const_cast<char*>(i.c_str());
-- 
2.43.0


From 3262e0a72b9ff938ae2cc795eab899b423609077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 012/113] fix: refuse package names which are not a record of
 the database

---
 src/pkgdbh.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 9935008..b334967 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1165,6 +1165,12 @@ pkgdbh::openArchivePackage(const std::string& filename)
 		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
 		treatErrors(basename);
 	}
+	// The name becomes a directory of the database
+	if (packageArchive.name()[0] == '.' ||
+		packageArchive.name().find('/') != std::string::npos) {
+		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
+		treatErrors(basename);
+	}
 	result.first = packageArchive.name();
 	result.second.description(packageArchive.description());
 	result.second.url(packageArchive.url());
-- 
2.43.0


From 71cc2264c713d676e8dedb716659aa9c29f498bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 013/113] fix: refuse a package that cannot be read to its end
 before installing anything

---
 src/archive.cxx | 16 ++++++++++++++++
 src/archive.h   |  3 +++
 src/pkgdbh.cxx  |  1 +
 3 files changed, 20 insertions(+)

diff --git a/src/archive.cxx b/src/archive.cxx
index 223ef7e..e4ccc09 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -107,6 +107,22 @@ void archive::extractFileContent
     archive_read_close(ar);
     FREE_ARCHIVE(ar);
 }
+void archive::checkReadable() const
+{
+    struct archive* ar = archive_read_new();
+    struct archive_entry* ae;
+    INIT_ARCHIVE(ar);
+    int result = archive_read_open_filename(ar, m_fileName.c_str(), DEFAULT_BYTES_PER_BLOCK);
+    while (result == ARCHIVE_OK || result == ARCHIVE_WARN) {
+        result = archive_read_next_header(ar, &ae);
+        if ((result == ARCHIVE_OK || result == ARCHIVE_WARN) &&
+            (archive_read_data_skip(ar) != ARCHIVE_OK))
+            result = ARCHIVE_FATAL;
+    }
+    FREE_ARCHIVE(ar);
+    if (result != ARCHIVE_EOF)
+        throw std::runtime_error(gettext("could not read the archive ") + m_fileName);
+}
 void archive::getRunTimeDependenciesEpoch()
 {
     std::pair<std::string, time_t> NameEpoch;
diff --git a/src/archive.h b/src/archive.h
index 7377486..2d1f7ed 100644
--- a/src/archive.h
+++ b/src/archive.h
@@ -58,6 +58,9 @@ public:
 
 	virtual void treatErrors(const std::string& s) const;
 
+	// Throw an error if the archive cannot be read up to its end
+	void checkReadable() const;
+
 	// Print Out the dependencies
 	void printDeps();
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index b334967..2937c4d 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1138,6 +1138,7 @@ pkgdbh::openArchivePackage(const std::string& filename)
 {
 	std::pair<std::string, cards::db> result;
 	archive packageArchive(filename);
+	packageArchive.checkReadable();
 
 	std::string basename(filename, filename.rfind('/') + 1);
 	m_filesNumber = packageArchive.size();
-- 
2.43.0


From 64e68f1683200355d957c88015d7264d0c3ab708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 014/113] fix: refuse packages with file names leading out of
 the root

---
 src/archive.cxx | 13 +++++++++++++
 src/archive.h   |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/archive.cxx b/src/archive.cxx
index e4ccc09..cc53ec6 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -107,14 +107,27 @@ void archive::extractFileContent
     archive_read_close(ar);
     FREE_ARCHIVE(ar);
 }
+static bool hasParentDir(const char* fileName)
+{
+    return fileName && ("/" + std::string(fileName) + "/").find("/../") != std::string::npos;
+}
 void archive::checkReadable() const
 {
+    for (auto f : m_filesList) {
+        if (hasParentDir(f.c_str()))
+            throw std::runtime_error(gettext("invalid file name in the archive ") + m_fileName);
+    }
     struct archive* ar = archive_read_new();
     struct archive_entry* ae;
     INIT_ARCHIVE(ar);
     int result = archive_read_open_filename(ar, m_fileName.c_str(), DEFAULT_BYTES_PER_BLOCK);
     while (result == ARCHIVE_OK || result == ARCHIVE_WARN) {
         result = archive_read_next_header(ar, &ae);
+        if ((result == ARCHIVE_OK || result == ARCHIVE_WARN) &&
+            (hasParentDir(archive_entry_pathname(ae)) || hasParentDir(archive_entry_hardlink(ae)))) {
+            FREE_ARCHIVE(ar);
+            throw std::runtime_error(gettext("invalid file name in the archive ") + m_fileName);
+        }
         if ((result == ARCHIVE_OK || result == ARCHIVE_WARN) &&
             (archive_read_data_skip(ar) != ARCHIVE_OK))
             result = ARCHIVE_FATAL;
diff --git a/src/archive.h b/src/archive.h
index 2d1f7ed..6deefeb 100644
--- a/src/archive.h
+++ b/src/archive.h
@@ -59,6 +59,7 @@ public:
 	virtual void treatErrors(const std::string& s) const;
 
 	// Throw an error if the archive cannot be read up to its end
+	// or has a file name which could be outside of the root
 	void checkReadable() const;
 
 	// Print Out the dependencies
-- 
2.43.0


From 5a07d4e17f9761179dc4a3ae19d9c5e161fe15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 015/113] fix: refuse packages whose metadata cannot become a
 record of the database

A second .META, or one that is a link, replaced the metadata that had been
read; a name longer than a file name failed after the files were installed.
---
 src/archive.cxx | 13 ++++++++++++-
 src/pkgdbh.cxx  |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/archive.cxx b/src/archive.cxx
index cc53ec6..256672b 100644
--- a/src/archive.cxx
+++ b/src/archive.cxx
@@ -111,12 +111,22 @@ static bool hasParentDir(const char* fileName)
 {
     return fileName && ("/" + std::string(fileName) + "/").find("/../") != std::string::npos;
 }
+// What ends up in the database has to be the meta data which has been read
+static bool isValidMetaFile(struct archive_entry* ae, std::set<std::string>& metaFiles)
+{
+    const char* fileName = archive_entry_pathname(ae);
+    if (!fileName || (strcmp(fileName, METAFILE) && strcmp(fileName, MTREEFILE)))
+        return true;
+    return archive_entry_filetype(ae) == AE_IFREG && !archive_entry_hardlink(ae)
+        && metaFiles.insert(fileName).second;
+}
 void archive::checkReadable() const
 {
     for (auto f : m_filesList) {
         if (hasParentDir(f.c_str()))
             throw std::runtime_error(gettext("invalid file name in the archive ") + m_fileName);
     }
+    std::set<std::string> metaFiles;
     struct archive* ar = archive_read_new();
     struct archive_entry* ae;
     INIT_ARCHIVE(ar);
@@ -124,7 +134,8 @@ void archive::checkReadable() const
     while (result == ARCHIVE_OK || result == ARCHIVE_WARN) {
         result = archive_read_next_header(ar, &ae);
         if ((result == ARCHIVE_OK || result == ARCHIVE_WARN) &&
-            (hasParentDir(archive_entry_pathname(ae)) || hasParentDir(archive_entry_hardlink(ae)))) {
+            (hasParentDir(archive_entry_pathname(ae)) || hasParentDir(archive_entry_hardlink(ae))
+            || !isValidMetaFile(ae, metaFiles))) {
             FREE_ARCHIVE(ar);
             throw std::runtime_error(gettext("invalid file name in the archive ") + m_fileName);
         }
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 2937c4d..7853de4 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -1168,6 +1168,7 @@ pkgdbh::openArchivePackage(const std::string& filename)
 	}
 	// The name becomes a directory of the database
 	if (packageArchive.name()[0] == '.' ||
+		packageArchive.name().size() > NAME_MAX ||
 		packageArchive.name().find('/') != std::string::npos) {
 		m_actualError = cards::ERROR_ENUM_CANNOT_DETERMINE_NAME_BUILDNR;
 		treatErrors(basename);
-- 
2.43.0


From 9eee83747251bd04fd1b8828556a196855765009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 016/113] fix: do not record metadata which could not be
 written completely

A failed write of .META or of a removal script was reported and then recorded
all the same; one of the rewritten META was not noticed.
---
 src/pkgdbh.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 7853de4..f407fbb 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -714,6 +714,10 @@ void pkgdbh::moveMetaFilesPackage(const std::string& name, cards::db& info)
 		std::ofstream out(file);
 		for ( auto i: fileContent) out << i << std::endl;
 		out.close();
+		if (!out) {
+			m_actualError = cards::ERROR_ENUM_CANNOT_WRITE_FILE;
+			treatErrors(file);
+		}
 		m_dependency=false;
 	}
 	progressInfo(cards::ACTION_ENUM_PKG_MOVE_META_END);
@@ -1312,6 +1316,15 @@ void pkgdbh::installArchivePackage
 			// continue trying to install the rest of the package.
 			const char* msg = archive_error_string(archive);
 			std::cerr << m_utilName << ": could not install " + archive_filename << ": " << msg << std::endl;
+
+			// What belongs to the record has to be complete
+			if (archive_filename == METAFILE ||
+				archive_filename == PKG_PRE_REMOVE ||
+				archive_filename == PKG_POST_REMOVE) {
+				cleanupMetaFiles(m_root);
+				m_actualError = cards::ERROR_ENUM_CANNOT_WRITE_FILE;
+				treatErrors(original_filename);
+			}
 			continue;
 
 		}
-- 
2.43.0


From f43bb531591d755b7ce6d1ce537cd0fd759a7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 017/113] fix: download and verify packages of a directory with
 its own url

---
 src/pkgrepo.cxx | 11 ++++++++++-
 src/pkgrepo.h   |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 3085a33..9e1f8c9 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -170,7 +170,7 @@ void pkgrepo::generateDependencies()
             // Let's see if we need to download it
             // if the binary archive is not yet downloaded
             // Make no sense to download if no url exist
-            if (m_config.url().size() > 0) {
+            if (checkUrlExist(packageName)) {
                 if (!checkFileExist(packageFileName))
                     downloadPackageFileName(packageName);
                 // m_packageFileNameHash contains
@@ -713,6 +713,15 @@ bool pkgrepo::checkBinaryExist(const std::string& name)
 
     return (m_listOfPackages.find(name) != m_listOfPackages.end());
 }
+// The url can be defined for all the directories or for each of them
+bool pkgrepo::checkUrlExist(const std::string& name)
+{
+    for (auto i : m_config.dirUrl()) {
+        if ((i.depot + "/" + i.collection) == dirName(name))
+            return !i.url.empty();
+    }
+    return false;
+}
 std::string& pkgrepo::dirName(const std::string& name)
 {
     parse();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 82be574..cec6120 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -89,6 +89,9 @@ public:
 
     bool                     checkBinaryExist(const std::string& name);
 
+    // Is the package coming from a mirror ?
+    bool                     checkUrlExist(const std::string& name);
+
     // To check the validity of an archive
     //
     // 1. generateHash(filename("gcc")); m_packageFileHash is set
-- 
2.43.0


From a1eebb5819c3a804c038fe70b37c794be140c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 018/113] fix: treat a malformed signature as a wrong one

---
 src/pkgrepo.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 9e1f8c9..fb92e21 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -991,7 +991,14 @@ bool pkgrepo::checkSign(const std::string& name)
         return false;
     }
 
+    // Only pairs of hexadecimal digits are a signature
     std::string signature = m_listOfPackages[name].signature();
+    if (signature.length() % 2 != 0 ||
+        signature.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+        EVP_MD_CTX_free(mdctx);
+        EVP_PKEY_free(key);
+        return false;
+    }
     std::vector<unsigned char> sigBytes(signature.length() / 2);
     for (size_t i = 0; i < signature.length(); i += 2)
         sigBytes[i / 2] = static_cast<unsigned char>(std::stoi(signature.substr(i, 2), nullptr, 16));
-- 
2.43.0


From 33a46d50b409f91cc3dbc95f1b9ae9d19aca0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 019/113] fix: read the dependencies with a short name in the
 repository

---
 src/pkgrepo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index fb92e21..0a67650 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -492,7 +492,7 @@ void pkgrepo::parse()
                     continue;
                 case RUNTIME_DEPENDENCY:
                     dependency.first = pkgName;
-                    if (p.size() > 14) {
+                    if (p.size() > 11) {
                         dependency.first = p.substr(1, p.size() - 11);
                         dependency.second = strtoul(p.substr((p.size()) - 10).c_str(), nullptr, 0);
                         pkgDependencies.insert(dependency);
-- 
2.43.0


From e87f6457d30542546853d384775bae916d9fd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 020/113] fix: do not make a package automatic when upgrading
 it as a dependency

---
 src/install.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/install.cxx b/src/install.cxx
index abb288d..f5068ad 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -82,7 +82,8 @@ install::install(const CardsArgumentParser& argParser,
 		} else {
 			m_upgrade = false;
 		}
-		if (i.second > 0)
+		// An upgraded package stays what it was
+		if (i.second > 0 && !m_upgrade)
 			setDependency();
 		p += "("
 			+ packageArchive.collection()
-- 
2.43.0


From 269cbd306290f8c2243577a5329b2d222b571e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 021/113] fix: keep packages asked for manual when another
 argument depends on them

---
 src/pkgrepo.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 0a67650..92f1991 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -224,8 +224,11 @@ void pkgrepo::generateDependencies()
          vrit != depencenciestoSort.rend();
          ++vrit) {
         found = false;
-        for (auto i : m_dependenciesList) {
+        for (auto& i : m_dependenciesList) {
             if (i.first == vrit->first) {
+                // asked for, even if another package needs it as well
+                if (vrit->second == 0)
+                    i.second = 0;
                 found = true;
                 break;
             }
-- 
2.43.0


From 00ec4d018ab79b7258299794babbefa0e6567222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 022/113] fix: resolve dependencies and upgrades against the
 root given by --root

---
 src/diff.cxx    | 7 ++++++-
 src/install.cxx | 3 ++-
 src/pkgdbh.cxx  | 4 ++++
 src/pkgdbh.h    | 1 +
 src/pkgrepo.cxx | 3 ++-
 src/pkgrepo.h   | 2 +-
 src/upgrade.cxx | 6 ++++--
 7 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 3aaab25..63c9599 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -8,7 +8,8 @@ diff::diff(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
 	: m_config(configFileName)
 	, m_sync(configFileName,argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ?
+		argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_argParser(argParser)
 	, m_packagesConflict(0)
 	, m_packagesReplace(0)
@@ -19,6 +20,10 @@ diff::diff(const CardsArgumentParser& argParser,
 	, m_packagesNew(0)
 	, m_packagesOK(0)
 {
+    if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
+        m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+            + m_root;
+
     buildDatabase(false);
 
 	m_package packageNameToDeal;
diff --git a/src/install.cxx b/src/install.cxx
index f5068ad..e3b951c 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -6,7 +6,8 @@ namespace cards {
 
 install::install(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
-	: m_pkgrepo(configFileName)
+	: m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ?
+		argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_argParser(argParser)
 	, m_configFileName(configFileName)
 {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index f407fbb..25d9596 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -863,6 +863,10 @@ void pkgdbh::resetDependency()
 {
 	m_dependency=false;
 }
+void pkgdbh::setRoot(const std::string& root)
+{
+	m_root = root;
+}
 bool
 pkgdbh::checkPackageNameUptodate(archive& archiveName)
 {
diff --git a/src/pkgdbh.h b/src/pkgdbh.h
index 28fd85e..b85f26b 100644
--- a/src/pkgdbh.h
+++ b/src/pkgdbh.h
@@ -143,6 +143,7 @@ public:
     void                    buildDatabase(const bool& files);
     void                    setDependency();
     void                    resetDependency();
+    void                    setRoot(const std::string& root);
 
     std::set<std::string>&  getSetOfPackagesNames();
     std::string             getDescription(const std::string& name) const;
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 92f1991..43ca0a6 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -4,10 +4,11 @@
 
 namespace cards {
 
-pkgrepo::pkgrepo(const std::string& fileName)
+pkgrepo::pkgrepo(const std::string& fileName, const std::string& root)
     : m_configFileName(fileName)
     , m_config(fileName)
 {
+    m_dbh.setRoot(root);
     m_dbh.buildDatabase(false);
     parse();
     OpenSSL_add_all_digests();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index cec6120..db658fe 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -71,7 +71,7 @@ class pkgrepo {
     void                     errors();
 
 public:
-    pkgrepo(const std::string& fileName);
+    pkgrepo(const std::string& fileName, const std::string& root = "/");
     virtual ~pkgrepo() { ERR_free_strings(); }
 
 	/**
diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index d2e3e9d..8a057ec 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -8,11 +8,13 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 	const std::string& configFileName)
 	: m_argParser(argParser)
 	, m_diff(argParser,configFileName)
-	, m_pkgrepo(configFileName)
+	, m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ?
+		argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_config(configFileName)
 {
 	if (m_argParser.isSet(CardsArgumentParser::OPT_ROOT))
-		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT);
+		m_root = m_argParser.getOptionValue(CardsArgumentParser::OPT_ROOT)
+			+ m_root;
 
 	if (m_argParser.isSet(CardsArgumentParser::OPT_CHECK)) {
 		if (m_diff.size() > 0)
-- 
2.43.0


From be8dee390c7a231c23bdb562927e7801ebe6c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 023/113] fix: install the packages depending on each others,
 dependencies first

---
 src/pkgrepo.cxx | 151 +++++++++++++++++-------------------------------
 src/pkgrepo.h   |   2 +
 2 files changed, 55 insertions(+), 98 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 43ca0a6..f980bf4 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -128,117 +128,72 @@ void pkgrepo::generateKeys()
 }
 void pkgrepo::generateDependencies()
 {
-    std::string packageNameHash, packageName, packageFileName;
+    std::set<std::string> treatedPackages;
     std::pair<std::string, time_t> PackageTime;
-    std::vector<std::pair<std::string, time_t>> dependenciesWeMustAdd, depencenciestoSort;
-    std::vector<std::pair<std::string, time_t>>::iterator vit;
-    std::set<std::pair<std::string, time_t>>::iterator sit;
 
     PackageTime.first = m_packageName;
     PackageTime.second = 0;
 
-    // Insert the final package
-    dependenciesWeMustAdd.push_back(PackageTime);
-
-    // Main while loop
-    while (!dependenciesWeMustAdd.empty()) {
-        vit = dependenciesWeMustAdd.begin();
-        packageName = vit->first;
-        PackageTime = *vit;
-
-        // Erase the current treated packageName
-        dependenciesWeMustAdd.erase(vit);
-
-        std::set<std::pair<std::string, time_t>> directDependencies;
-        if (m_listOfRepoPackages.find(packageName) != m_listOfRepoPackages.end()) {
-            directDependencies = m_listOfPackages[packageName].dependencies();
-        } else {
-            // The packageName is not found in the listOfPackages
-            if (checkBinaryExist(packageName)) {
-
-                // The packageName binary is found.
-                // Directs dependencies are not yet availables
-                // We need to get PackageFileName of the packageName
-                // And check it's signature
-                packageFileName = dirName(packageName) + "/" + fileName(packageName);
-                packageNameHash = fileHash(packageName);
-            } else {
-                m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_EXIST;
-                treatErrors(packageName);
-            }
-
-            // archive PackageName exist:
-            // Let's see if we need to download it
-            // if the binary archive is not yet downloaded
-            // Make no sense to download if no url exist
-            if (checkUrlExist(packageName)) {
-                if (!checkFileExist(packageFileName))
-                    downloadPackageFileName(packageName);
-                // m_packageFileNameHash contains
-                // the hashsum of packageFileName
-                generateHash(packageFileName);
-
-                // we compare m_packageFileNameHash
-                // with the one stored in the database
-                if (!checkHash(packageName)) {
-                    // Last try to get it.
-                    downloadPackageFileName(packageName);
-                }
-                if (!checkSign(packageName)) {
-                    m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
-                    treatErrors(packageName);
-                }
-            }
-            directDependencies = getPackageDependencies(packageFileName);
-        }
-
-        // If the package is not yet installed or not uptodate
-        if (!m_dbh.checkPackageNameBuildDateSame(PackageTime)) {
-            // checkPackageNameBuildDateSame is no then add it
-            depencenciestoSort.push_back(PackageTime);
-        }
+    addPackageToDependenciesList(PackageTime, treatedPackages);
+}
+void pkgrepo::addPackageToDependenciesList(const std::pair<std::string, time_t>& PackageTime,
+    std::set<std::string>& treatedPackages)
+{
+    const std::string packageName = PackageTime.first;
 
-        // else checkPackageNameBuildDateSame is yes
+    // Packages can depend on each others
+    if (!treatedPackages.insert(packageName).second)
+        return;
 
-        for (auto sit : directDependencies) {
-            if (sit.first == PackageTime.first)
-                continue;
-            for (vit = dependenciesWeMustAdd.begin(); vit != dependenciesWeMustAdd.end(); ++vit) {
-                if (sit == *vit) {
-                    dependenciesWeMustAdd.erase(vit);
-                    break;
-                }
-            }
-        }
-        for (sit = directDependencies.begin(); sit != directDependencies.end(); sit++) {
-            if (PackageTime.first != sit->first) {
-                if (!m_dbh.checkPackageNameBuildDateSame(*sit))
-                    dependenciesWeMustAdd.push_back(*sit);
-            }
+    for (auto& i : m_dependenciesList) {
+        if (i.first == packageName) {
+            // asked for, even if another package needs it as well
+            if (PackageTime.second == 0)
+                i.second = 0;
+            return;
         }
     }
 
-    // Let's revert the order of dependencies
-    // We need the last founds (lower level) first
-    bool found = false;
-    for (std::vector<std::pair<std::string, time_t>>::reverse_iterator vrit = depencenciestoSort.rbegin();
-         vrit != depencenciestoSort.rend();
-         ++vrit) {
-        found = false;
-        for (auto& i : m_dependenciesList) {
-            if (i.first == vrit->first) {
-                // asked for, even if another package needs it as well
-                if (vrit->second == 0)
-                    i.second = 0;
-                found = true;
-                break;
-            }
+    if (!checkBinaryExist(packageName)) {
+        m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_EXIST;
+        treatErrors(packageName);
+    }
+
+    // The packageName binary is found.
+    // Directs dependencies are not yet availables
+    // We need to get PackageFileName of the packageName
+    // And check it's signature
+    const std::string packageFileName = dirName(packageName) + "/" + fileName(packageName);
+
+    // archive PackageName exist:
+    // Let's see if we need to download it
+    // if the binary archive is not yet downloaded
+    // Make no sense to download if no url exist
+    if (checkUrlExist(packageName)) {
+        if (!checkFileExist(packageFileName))
+            downloadPackageFileName(packageName);
+        // m_packageFileNameHash contains
+        // the hashsum of packageFileName
+        generateHash(packageFileName);
+
+        // we compare m_packageFileNameHash
+        // with the one stored in the database
+        if (!checkHash(packageName)) {
+            // Last try to get it.
+            downloadPackageFileName(packageName);
         }
-        if (!found) {
-            m_dependenciesList.push_back(*vrit);
+        if (!checkSign(packageName)) {
+            m_actualError = cards::ERROR_ENUM_WRONG_SIGNATURE;
+            treatErrors(packageName);
         }
-        // else no deps founds
     }
+
+    // The dependencies which are not yet installed or not uptodate
+    // have to be installed before
+    for (auto i : getPackageDependencies(packageFileName))
+        addPackageToDependenciesList(i, treatedPackages);
+
+    m_dependenciesList.push_back(PackageTime);
 }
 void pkgrepo::downloadPackageFileName(const std::string& packageName)
 {
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index db658fe..4fb5b90 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -68,6 +68,8 @@ class pkgrepo {
 	 *
 	 */
     void                     parse(const std::string& packageNameFiles);
+    void                     addPackageToDependenciesList(const std::pair<std::string,time_t>& PackageTime,
+                                std::set<std::string>& treatedPackages);
     void                     errors();
 
 public:
-- 
2.43.0


From 472528a4796ffcf0eb4f74d0a683c7faf9ab3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 024/113] fix: check the package behind an alias before
 removing it

An alias of a package in use or of the base system was removed without
a question, and a package listing itself as a dependency could not be
removed at all.
---
 src/remove.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 9f9f333..3307c05 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -35,9 +35,16 @@ remove::remove(const std::string& commandName,
 			treatErrors(i);
 		}
 
+		// if it's an alias get the real name
+		std::string name;
+		if (checkPackageNameExist(i))
+			name = m_listOfAlias[i];
+
 		for (auto j : m_listOfPackages) {
+			if (j.first == name)
+				continue;
 			for (auto k : j.second.dependencies() ){
-				if ( i == k.first) {
+				if ( i == k.first || name == k.first ) {
 					m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 					std::cout << std::endl << i << _(" is a runtime dependency for ") << j.first << " !!!" << std::endl << std::endl;
 					treatErrors(i);
@@ -61,11 +68,9 @@ remove::remove(const std::string& commandName,
 				}
 			}
 		}
-		{
-			// if it's an alias get the real name
-			std::string a = m_listOfAlias [i];
-			PackageToRemove.first = a ;
-			PackageToRemove.second = getCollection(i);
+		if (!name.empty()) {
+			PackageToRemove.first = name;
+			PackageToRemove.second = m_listOfPackages[name].collection();
 			listOfPackagesToRemove.insert(PackageToRemove);
 		}
 	}
-- 
2.43.0


From c8e3d01c14bd6a61b8e31cd79042168225635fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 025/113] fix: look at every argument of cards remove

The members of a set were only removed when nothing was found for the
arguments before it, and an unknown name was silently ignored.
---
 src/remove.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 3307c05..2a1f086 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -24,6 +24,7 @@ remove::remove(const std::string& commandName,
 	std::pair<std::string,std::string> PackageToRemove;
 
 	for ( auto i : m_argParser.otherArguments() ) {
+		bool found = false;
 		if ( i == "base" ) {
 			m_actualError = cards::ERROR_ENUM_PACKAGE_IN_USE;
 			std::cout << std::endl
@@ -55,15 +56,17 @@ remove::remove(const std::string& commandName,
 				PackageToRemove.first=j.first;
 				PackageToRemove.second=j.second.collection();
 				listOfPackagesToRemove.insert(PackageToRemove);
+				found = true;
 			}
 		}
-		if (listOfPackagesToRemove.empty()) {
+		if (!found) {
 			for (auto j : m_listOfPackages) {
 				for (auto k : j.second.sets()) {
 					if ( i == k ) {
 						PackageToRemove.first = j.first;
 						PackageToRemove.second=j.second.collection();
 						listOfPackagesToRemove.insert(PackageToRemove);
+						found = true;
 					}
 				}
 			}
@@ -72,6 +75,11 @@ remove::remove(const std::string& commandName,
 			PackageToRemove.first = name;
 			PackageToRemove.second = m_listOfPackages[name].collection();
 			listOfPackagesToRemove.insert(PackageToRemove);
+			found = true;
+		}
+		if (!found) {
+			m_actualError = cards::ERROR_ENUM_PACKAGE_NOT_INSTALL;
+			treatErrors(i);
 		}
 	}
 	std::set< std::pair<std::string,std::string> > groupSetPackagesToRemove;
-- 
2.43.0


From 43da2f49f870fa9b87fdcc31b45677e6266c9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 026/113] fix: refuse to remove packages of the base system
 before removing others

---
 src/remove.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/remove.cxx b/src/remove.cxx
index 2a1f086..d3abc8d 100644
--- a/src/remove.cxx
+++ b/src/remove.cxx
@@ -96,15 +96,16 @@ remove::remove(const std::string& commandName,
 		if (checkPackageNameExist(i.first))
 			listOfPackagesToRemove.insert(i);
 	}
+	// Refuse before anything is removed
 	for ( auto i : listOfPackagesToRemove ) {
-		if (i.first.size() == 0 )
-			continue;
-		m_packageName = i.first;
 		if ((i.second == "base") &&
 			(!m_argParser.isSet(CardsArgumentParser::OPT_FORCE))) {
 				m_actualError = cards::ERROR_ENUM_PACKAGE_IN_BASESYSTEM;
 				treatErrors(i.first);
 		}
+	}
+	for ( auto i : listOfPackagesToRemove ) {
+		m_packageName = i.first;
 		run();
 		std::string name = "(" +  m_packageCollection + ") ";
 		name += i.first;
-- 
2.43.0


From 8cfd89afd5d73190d86e3b5db70c39e8e6d4c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 027/113] fix: forget a removed package

Looking for its architecture put it back in the list of the installed
packages, so cards remove tried to remove it again as no longer needed,
failed, and left other packages which are no longer needed behind.
---
 src/pkgdbh.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 25d9596..2b4f4e6 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -932,7 +932,6 @@ void pkgdbh::removePackageFilesRefsFromDB(const std::string& name)
 	}
 	std::set<std::string> metaFilesList;
 	const std::string packagedir = m_root + PKG_DB_DIR ;
-	const std::string arch = m_listOfPackages[name].arch();
 	const std::string packagenamedir = m_root + PKG_DB_DIR + name;
 
 	if ( findDir(metaFilesList, packagenamedir) != 0 ) {
-- 
2.43.0


From c110e4073ade43f209733fd44693e6367352dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 028/113] fix: mark the new dependencies pulled in by an
 upgrade as automatic

---
 src/upgrade.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 8a057ec..22de378 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -146,6 +146,10 @@ void upgrade::upgradePackages()
 		else
 			m_upgrade=false;
 
+		// Not asked for, another package needs it
+		if (i.second > 0 && !m_upgrade)
+			setDependency();
+
 		run();
 		std::string p = i.first
 			+ " "
-- 
2.43.0


From e684ea03c41622d40d0c3fa3ec171ccb4b54d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 029/113] fix: download the packages with cards upgrade
 --download-only

---
 src/upgrade.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 22de378..c8299ff 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -129,12 +129,13 @@ return EXIT_SUCCESS;
 }
 void upgrade::upgradePackages()
 {
-	if (m_argParser.isSet(CardsArgumentParser::OPT_DOWNLOAD_ONLY))
-		return;
-
 	for (auto i : m_ListOfPackagesToUpdate)
 		m_pkgrepo.generateDependencies(i);
 
+	// Everything needed is downloaded now
+	if (m_argParser.isSet(CardsArgumentParser::OPT_DOWNLOAD_ONLY))
+		return;
+
 	for (auto i : m_pkgrepo.getDependenciesList()) {
 		m_packageArchiveName = m_pkgrepo.dirName(i.first)
 				+ "/"
-- 
2.43.0


From 3c2fa0d03ec03fc28d60d5b6d087ecffa18adedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 030/113] fix: let cards upgrade --ready look at the downloaded
 packages

It compared a hash which was never calculated, and answered yes without
looking when many packages are to be upgraded.
---
 src/upgrade.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index c8299ff..6ed2993 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -36,7 +36,8 @@ upgrade::upgrade(const CardsArgumentParser& argParser,
 		m_progress = false;
 
 	if (m_diff.ratio() > 20) {
-		if(!m_argParser.isSet(CardsArgumentParser::OPT_PROCEED)) {
+		if(!m_argParser.isSet(CardsArgumentParser::OPT_PROCEED) &&
+			!m_argParser.isSet(CardsArgumentParser::OPT_DOWNLOAD_READY)) {
 			m_diff.showInfo(false);
 			std::cout << std::endl
 				<< _("Percentage of obsoletes packages: ")
@@ -119,8 +120,12 @@ int upgrade::Isdownload()
 {
 	std::string packageFileName;
 	for (auto i : m_ListOfPackagesToUpdate) {
-		packageFileName = m_pkgrepo.fileName(i.first);
-		m_pkgrepo.checkHash(packageFileName);
+		packageFileName = m_pkgrepo.dirName(i.first)
+			+ "/"
+			+ m_pkgrepo.fileName(i.first);
+		if (!checkFileExist(packageFileName))
+			return EXIT_FAILURE;
+		m_pkgrepo.generateHash(packageFileName);
 		if (!m_pkgrepo.checkHash(i.first))
 			return EXIT_FAILURE;
 	}
-- 
2.43.0


From 60dc0f3734464e9eb524edbf3efeeb7b104a2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 031/113] fix: honour --no-sync and --no-progress when looking
 for upgrades

---
 src/diff.cxx | 4 +++-
 src/sync.cxx | 5 +++--
 src/sync.h   | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/diff.cxx b/src/diff.cxx
index 63c9599..72747c5 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -7,7 +7,9 @@ namespace cards {
 diff::diff(const CardsArgumentParser& argParser,
 		const std::string& configFileName)
 	: m_config(configFileName)
-	, m_sync(configFileName,argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
+	, m_sync(configFileName,
+		false,
+		!argParser.isSet(CardsArgumentParser::OPT_NO_SYNC))
 	, m_pkgrepo(configFileName, argParser.isSet(CardsArgumentParser::OPT_ROOT) ?
 		argParser.getOptionValue(CardsArgumentParser::OPT_ROOT) + "/" : "/")
 	, m_argParser(argParser)
diff --git a/src/sync.cxx b/src/sync.cxx
index 4f8a11d..0cc791d 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -7,7 +7,8 @@ const std::string sync::DEFAULT_PKG_REPO = ".REPO";
 const std::string sync::DEFAULT_PKG_FILES = ".FILES";
 
 sync::sync(const std::string& configFileName,
-		const bool& progress)
+		const bool& progress,
+		const bool& enabled)
 	: m_root("/")
 	, m_configFile(configFileName)
 	, m_config(m_root + m_configFile)
@@ -15,7 +16,7 @@ sync::sync(const std::string& configFileName,
 {
     m_pkgRepoFile = DEFAULT_PKG_REPO;
     m_pkgFilesFile = DEFAULT_PKG_FILES;
-	if (!getuid())
+	if (enabled && !getuid())
 		run();
 
 }
diff --git a/src/sync.h b/src/sync.h
index 603cae8..85029ca 100644
--- a/src/sync.h
+++ b/src/sync.h
@@ -21,7 +21,8 @@ class sync
 
 public:
 	sync(const std::string& configFileName,
-		const bool& progress);
+		const bool& progress,
+		const bool& enabled = true);
 
 	void        run();
 
-- 
2.43.0


From 98a28baa5b0ec5a4b13a8ea6d60384123cf2a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 032/113] fix: do not divide by zero without any installed
 package

---
 src/diff.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diff.cxx b/src/diff.cxx
index 72747c5..21f10d6 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -112,6 +112,8 @@ const unsigned long diff::RemoveSize()
 }
 const unsigned int diff::ratio()
 {
+	if (m_listOfPackages.empty())
+		return 0;
 	auto p = ((float)m_packagesOK/m_listOfPackages.size())*100;
 	return 100 - (int)p;
 }
-- 
2.43.0


From f9f6a37f38a854c3cd1841961a8eddd5ae255e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 033/113] fix: replace the metadata of a collection only by a
 complete new version

The files were decompressed in place, into a buffer of whatever size the
mirror announced, and cards sync succeeded when it could not decompress them.
---
 src/sync.cxx | 89 ++++++++++++++++++++++++++--------------------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/src/sync.cxx b/src/sync.cxx
index 0cc791d..21bd48c 100644
--- a/src/sync.cxx
+++ b/src/sync.cxx
@@ -63,53 +63,54 @@ void sync::run()
 }
 void sync::uncompress(const std::string& fileName)
 {
-	std::ifstream inFile(fileName + ".zst", std::ios::binary);
-	if (!inFile) {
-		std::cerr << "Cannot open file: " << fileName << "\n";
-		return;
-	}
-
-	inFile.seekg(0, std::ios::end);
-	size_t compressSize = inFile.tellg();
-	inFile.seekg(0, std::ios::beg);
-
-	std::vector<char> compressData(compressSize);
-	inFile.read(compressData.data(), compressSize);
-	inFile.close();
-
-	// Findout memory buffer
-	size_t decompressSize = ZSTD_getFrameContentSize(compressData.data(), compressSize);
-	if (decompressSize == ZSTD_CONTENTSIZE_UNKNOWN) {
-		std::cerr << "Unknown size"
-			<< std::endl;
-		return;
-	} else if (decompressSize == ZSTD_CONTENTSIZE_ERROR) {
-		std::cerr << "Something wrong in the compress file:"
-			<< fileName
-			<< std::endl;
-		return;
-	}
+	const std::string compressFile = fileName + ".zst";
+	// The actual file stays valid until the new one is complete
+	const std::string newFile = fileName + ".new";
 
-	// Decompress
-	std::vector<char> decompressData(decompressSize);
-	size_t result = ZSTD_decompress(decompressData.data(), decompressSize, compressData.data(), compressSize);
+	std::ifstream inFile(compressFile, std::ios::binary);
+	if (!inFile)
+		throw std::runtime_error(_("could not open ") + compressFile);
 
-	if (ZSTD_isError(result)) {
-	std::cerr << "Error uncompressing: "
-		<< ZSTD_getErrorName(result)
-		<< std::endl;
-	return;
-	}
-
-	// Write to file
-	std::ofstream outFile(fileName, std::ios::binary|std::ios::out);
+	std::ofstream outFile(newFile, std::ios::binary | std::ios::trunc);
 	if (!outFile)
-		std::cerr << "Can't open file: "
-		<< fileName
-		<< std::endl;
-
-	outFile.write(decompressData.data(),decompressData.size());
+		throw std::runtime_error(_("could not open ") + newFile);
+
+	ZSTD_DStream* stream = ZSTD_createDStream();
+	if (!stream)
+		throw std::runtime_error(_("could not uncompress ") + compressFile);
+
+	std::vector<char> compressData(ZSTD_DStreamInSize());
+	std::vector<char> decompressData(ZSTD_DStreamOutSize());
+	// 0 when a frame is completely decompressed
+	size_t result = 1;
+	bool valid = true;
+
+	while (valid && inFile) {
+		inFile.read(compressData.data(), compressData.size());
+		ZSTD_inBuffer in = { compressData.data(), static_cast<size_t>(inFile.gcount()), 0 };
+		while (valid && in.pos < in.size) {
+			ZSTD_outBuffer out = { decompressData.data(), decompressData.size(), 0 };
+			result = ZSTD_decompressStream(stream, &out, &in);
+			valid = !ZSTD_isError(result);
+			if (valid)
+				outFile.write(decompressData.data(), out.pos);
+		}
+	}
+	// What did not fit in the last output buffer
+	while (valid && result != 0) {
+		ZSTD_inBuffer in = { nullptr, 0, 0 };
+		ZSTD_outBuffer out = { decompressData.data(), decompressData.size(), 0 };
+		result = ZSTD_decompressStream(stream, &out, &in);
+		valid = !ZSTD_isError(result) && out.pos > 0;
+		if (valid)
+			outFile.write(decompressData.data(), out.pos);
+	}
+	ZSTD_freeDStream(stream);
 	outFile.close();
-}
 
+	if (!valid || !outFile || rename(newFile.c_str(), fileName.c_str()) == -1) {
+		unlink(newFile.c_str());
+		throw std::runtime_error(_("could not uncompress ") + compressFile);
+	}
+}
 }
-- 
2.43.0


From b2d9b4b05bee57a21d5f634a4b1c516eff4866e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 034/113] fix: keep the existing file until a download is
 complete

A failing download left the beginning of the file, and an empty file the
previous one.
---
 src/dwl.cxx | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/dwl.cxx b/src/dwl.cxx
index 9584b5c..c6fd448 100644
--- a/src/dwl.cxx
+++ b/src/dwl.cxx
@@ -4,6 +4,9 @@
 
 namespace cards {
 
+// A file which is not yet completely downloaded
+static const std::string DWL_PART = ".part";
+
 dwlEvent::dwlEvent()
 {
 	dwl::SuscribeToEvents(this);
@@ -93,19 +96,33 @@ void dwl::get()
 	curl_easy_setopt(m_curl, CURLOPT_VERBOSE, 1L);
 #endif
 	m_curlCode = curl_easy_perform(m_curl);
+	const std::string partFile = m_downloadFileName + DWL_PART;
 	if ( m_curlCode != CURLE_OK) {
+		if (m_destinationFile.stream) {
+			fclose(m_destinationFile.stream);
+			unlink(partFile.c_str());
+		}
 		std::cerr << curl_easy_strerror(m_curlCode) << std::endl;
 		throw std::runtime_error ( "\n\nURL   : " +
 		m_url + "\nFILE  : " +
 		m_downloadFileName +"\n\n !!! download failed !!! \n");
 	}
-	if (m_destinationFile.stream) {
-		fclose(m_destinationFile.stream);
+	// Nothing was written from an empty file
+	if (!m_destinationFile.stream)
+		m_destinationFile.stream = fopen(partFile.c_str(), "w");
+	bool written = m_destinationFile.stream != nullptr;
+	if (written) {
+		written = fclose(m_destinationFile.stream) == 0;
 		long int fT = 0;
 		curl_easy_getinfo(m_curl,CURLINFO_FILETIME,&fT);
 		m_destinationFile.acmodtime.actime = fT;
 		m_destinationFile.acmodtime.modtime = fT;
-		utime ( m_destinationFile.filename.c_str(),&m_destinationFile.acmodtime);
+		utime ( partFile.c_str(),&m_destinationFile.acmodtime);
+	}
+	// The existing file is kept until the new one is complete
+	if (!written || rename(partFile.c_str(), m_downloadFileName.c_str()) == -1) {
+		unlink(partFile.c_str());
+		throw std::runtime_error("could not write " + m_downloadFileName);
 	}
 }
 
@@ -128,7 +145,7 @@ size_t dwl::writeToStream(void *buffer,
 	InfoFile *outputf = (InfoFile *)stream;
 	if ( outputf && ! outputf->stream)
 	{
-		outputf->stream=fopen(outputf->filename.c_str(), "w");
+		outputf->stream=fopen((outputf->filename + DWL_PART).c_str(), "w");
 		if ( ! outputf->stream )
 			return -1;
 	}
-- 
2.43.0


From 8de01263f9ed397a4d00ab0248525310ebf9e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 035/113] fix: install the groups of the new dependencies with
 the upgrade pulling them in

They were only installed by the next upgrade.
---
 src/upgrade.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/upgrade.cxx b/src/upgrade.cxx
index 6ed2993..1ff43ac 100644
--- a/src/upgrade.cxx
+++ b/src/upgrade.cxx
@@ -137,6 +137,18 @@ void upgrade::upgradePackages()
 	for (auto i : m_ListOfPackagesToUpdate)
 		m_pkgrepo.generateDependencies(i);
 
+	// The new dependencies have groups as well
+	for (auto j : m_config.groups()) {
+		auto dependenciesList = m_pkgrepo.getDependenciesList();
+		for (auto i : dependenciesList) {
+			std::string packageName = i.first + "." + j;
+			if (!checkPackageNameExist(i.first) &&
+				!checkPackageNameExist(packageName) &&
+				m_pkgrepo.checkBinaryExist(packageName))
+					m_pkgrepo.generateDependencies(packageName);
+		}
+	}
+
 	// Everything needed is downloaded now
 	if (m_argParser.isSet(CardsArgumentParser::OPT_DOWNLOAD_ONLY))
 		return;
-- 
2.43.0


From 706bc00e8e64e157858033bd148e2145aab9d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 036/113] fix: do not abort on a package of the repository
 without a release number

---
 src/pkgrepo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index f980bf4..f56f863 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -406,7 +406,7 @@ void pkgrepo::parse()
                     info.version(p.substr(1));
                     continue;
                 case RELEASE:
-                    info.release(stoi(p.substr(1)));
+                    info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
                     info.space(atoi(p.substr(1).c_str()));
-- 
2.43.0


From 354592453e6b3645686396ee740eff362ea8925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 037/113] fix: do not give a package the properties of the
 previous one

A package of the repository without an url, a hashsum, a signature, ...
got the ones of the package before.
---
 src/cache.cxx   |  2 ++
 src/db.cxx      |  4 +++-
 src/pkg.cxx     |  3 ++-
 src/pkgrepo.cxx | 29 ++++++++++++++---------------
 4 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/cache.cxx b/src/cache.cxx
index 081c2ee..8e47bb8 100644
--- a/src/cache.cxx
+++ b/src/cache.cxx
@@ -7,6 +7,8 @@ namespace cards {
 cache::cache()
 {
 	m_status = STATUS_ENUM_UNKNOWN;
+	m_size = 0;
+	m_installed = false;
 }
 cache::~cache()
 {
diff --git a/src/db.cxx b/src/db.cxx
index 899f2fe..5e27ea9 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -5,8 +5,10 @@
 namespace cards {
 
 db::db()
+	: m_space(0)
+	, m_install(0)
+	, m_dependency(false)
 {
-	//nothing todo ATM
 }
 db::~db()
 {
diff --git a/src/pkg.cxx b/src/pkg.cxx
index 2c41e0b..6ee080e 100644
--- a/src/pkg.cxx
+++ b/src/pkg.cxx
@@ -4,8 +4,9 @@
 
 namespace cards {
 pkg::pkg()
+	: m_release(0)
+	, m_build(0)
 {
-// nothing to do ATM
 }
 pkg::~pkg()
 {
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index f56f863..ffe1901 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -350,15 +350,14 @@ void pkgrepo::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cache info;
-
     for (auto i : m_config.dirUrl()) {
-        info.dirName(i.depot + "/" + i.collection);
-        std::string repoFile = info.dirName()
+        cache empty;
+        empty.dirName(i.depot + "/" + i.collection);
+        std::string repoFile = empty.dirName()
             + PKG_REPO_META;
 
-        info.collection(i.collection);
-        info.origin(i.url
+        empty.collection(i.collection);
+        empty.origin(i.url
             + "/"
             + getMachineType()
             + "/"
@@ -378,6 +377,7 @@ void pkgrepo::parse()
         bool pkgFound = false;
         std::string::size_type pos;
         std::string pkgName;
+        cache info;
         std::set<std::string> pkgSet;
         std::set<std::string> pkgAlias;
         std::set<std::string> pkgCategories;
@@ -389,10 +389,15 @@ void pkgrepo::parse()
             if (p[0] == '@') {
                 pos = p.find(".cards-");
                 if (pos != std::string::npos) {
+                    info = empty;
                     info.fileName(p.substr(1));
-                    info.group("");
-                    info.nls("");
-                    info.baseName("");
+                    pkgName.clear();
+                    pkgAlias.clear();
+                    pkgSet.clear();
+                    pkgCategories.clear();
+                    pkgDependencies.clear();
+                    pkgConflicts.clear();
+                    pkgLibs.clear();
                     pkgFound = true;
                 }
                 continue;
@@ -491,12 +496,6 @@ void pkgrepo::parse()
                 info.categories(pkgCategories);
                 info.dependencies(pkgDependencies);
                 info.conflicts(pkgConflicts);
-                pkgAlias.clear();
-                pkgSet.clear();
-                pkgCategories.clear();
-                pkgDependencies.clear();
-                pkgConflicts.clear();
-                pkgLibs.clear();
                 m_listOfPackages[pkgName] = info;
                 continue;
             }
-- 
2.43.0


From a468e2ddaeecfa482d8bf556278e5fd712d458c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 038/113] fix: find the last package of a metadata file without
 a trailing empty line

---
 src/pkgrepo.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index ffe1901..b140566 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -385,6 +385,8 @@ void pkgrepo::parse()
         std::set<std::string> pkgLibs;
         std::set<std::pair<std::string, time_t>> pkgDependencies;
         std::pair<std::string, time_t> dependency;
+        // The last package may not be followed by an empty line
+        repoFileContent.push_back("");
         for (auto p : repoFileContent) {
             if (p[0] == '@') {
                 pos = p.find(".cards-");
@@ -485,7 +487,7 @@ void pkgrepo::parse()
                     continue;
                 }
             }
-            if (p.size() == 0) {
+            if ( (p.size() == 0) && pkgFound ) {
                 if ( (info.collection().size() == 0) &&
                         (info.baseName().size() > 0) )
                     info.collection(m_listOfPackages[info.baseName()].collection());
-- 
2.43.0


From 0bd7aea9cc8d21c688f81b8dcc9ec4fecc5c1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 039/113] fix: use the package of the directory listed first

The packages of the last directory were taken, contrary to cards.conf(5).
---
 src/pkgrepo.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index b140566..bc1914c 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -498,7 +498,11 @@ void pkgrepo::parse()
                 info.categories(pkgCategories);
                 info.dependencies(pkgDependencies);
                 info.conflicts(pkgConflicts);
-                m_listOfPackages[pkgName] = info;
+                // directories listed first have precedence
+                auto known = m_listOfPackages.find(pkgName);
+                if (!pkgName.empty() && (known == m_listOfPackages.end() ||
+                        known->second.dirName() == info.dirName()))
+                    m_listOfPackages[pkgName] = info;
                 continue;
             }
         }
@@ -530,7 +534,10 @@ void pkgrepo::parseFiles()
                 pos = p.find(".cards-");
 				if (pos != std::string::npos) {
                     pkgName = p.substr(1,pos-1);
-					pkgFound = true;
+					// directories listed first have precedence
+					auto p = m_listOfPackages.find(pkgName);
+					pkgFound = p == m_listOfPackages.end() ||
+						p->second.dirName() == info.dirName();
 					continue;
 				}
 			}
-- 
2.43.0


From fc95fbbc7aee707c17f024c66a18f791b53e2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 040/113] fix: ignore the packages of a repository outside its
 directory

The file names of the metadata are not signed: with a '/' they could
let the download overwrite any file of the system.
---
 src/pkgrepo.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index bc1914c..7414817 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -390,7 +390,9 @@ void pkgrepo::parse()
         for (auto p : repoFileContent) {
             if (p[0] == '@') {
                 pos = p.find(".cards-");
-                if (pos != std::string::npos) {
+                pkgFound = false;
+                // The archive is stored in the directory of the collection
+                if (pos != std::string::npos && p.find('/') == std::string::npos) {
                     info = empty;
                     info.fileName(p.substr(1));
                     pkgName.clear();
-- 
2.43.0


From 581791ed0f11782d00e338dfd8b9d991cd0c7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 041/113] fix: do not look for the end of a line behind the end
 of the metadata

---
 src/conf.h     | 4 ++--
 src/list.cxx   | 4 ++--
 src/search.cxx | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/conf.h b/src/conf.h
index 14bc66e..c4f74db 100644
--- a/src/conf.h
+++ b/src/conf.h
@@ -10,8 +10,8 @@ struct DirUrl {
     std::string collection;
     std::string depot;
     std::string url;
-    size_t sFiles;
-    size_t sRepo;
+    size_t sFiles = 0;
+    size_t sRepo = 0;
 
 };
 
diff --git a/src/list.cxx b/src/list.cxx
index 1e0813a..060fad3 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -50,7 +50,7 @@ void list::parseSets() {
 		const char *end = data + i.sRepo;
 
         while (p < end) {
-            const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+            const char *nl = (const char*)memchr(p, '\n', end - p);
             if (!nl)
                 nl = end;
 
@@ -110,7 +110,7 @@ void list::parse() {
         pkg.col=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
diff --git a/src/search.cxx b/src/search.cxx
index 00dc6d4..b776cf9 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -44,7 +44,7 @@ void search::parse(){
         pkg.collection=" ";
 
         while (p < end) {
-			const char *nl = (const char*)memchr(p, '\n', i.sRepo);
+			const char *nl = (const char*)memchr(p, '\n', end - p);
     		if (!nl)
 				nl = end;
 
-- 
2.43.0


From e4b9a21488eb9cdd20713142bcc9fb5dbd7b68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 042/113] fix: show the other collections when the metadata of
 one are missing

cards list and cards search gave up at the first collection whose
metadata are empty or missing.
---
 src/list.cxx   | 24 ++++++++++++++++++++----
 src/search.cxx | 12 ++++++++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/list.cxx b/src/list.cxx
index 060fad3..b9a0a35 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -31,7 +31,15 @@ void list::parseSets() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
+        // Nothing to show from an empty collection
+        if (i.sRepo == 0)
+            continue;
+
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            perror("open");
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -40,10 +48,10 @@ void list::parseSets() {
 		    perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n Continue with next !!!"
                 << std::endl;
 		    close(fd);
-		    return;
+		    continue;
 		}
 
         const char *p = data;
@@ -88,7 +96,15 @@ void list::parse() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
     
+        // Nothing to show from an empty collection
+        if (i.sRepo == 0)
+            continue;
+
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            perror("open");
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -97,10 +113,10 @@ void list::parse() {
 			perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n Continue with next !!!"
                 << std::endl;
 			close(fd);
-			return;
+			continue;
 		}
 
 		const char *p = data;
diff --git a/src/search.cxx b/src/search.cxx
index b776cf9..372c74f 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -22,7 +22,15 @@ void search::parse(){
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_META;
 
+        // Nothing to show from an empty collection
+        if (i.sRepo == 0)
+            continue;
+
         fd = open(s.c_str(),O_RDONLY);
+        if (fd < 0) {
+            perror("open");
+            continue;
+        }
 
 		char *data = static_cast<char*>
 			(mmap(nullptr, i.sRepo, PROT_READ, MAP_PRIVATE, fd, 0));
@@ -31,10 +39,10 @@ void search::parse(){
 			perror("mmap");
             std::cerr << "Cannot read "
                 << s
-                << "\n Quit now !!!"
+                << "\n Continue with next !!!"
                 << std::endl;
 			close(fd);
-			return;
+			continue;
 		}
 
 		const char *p = data;
-- 
2.43.0


From bd99eb4f493e0a3247c42c24e2c86281094069bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 043/113] fix: list and search each package with its own
 properties

A package without an url, a packager, ... was found by the ones of the
package before, and the last one was missed without an empty line at the
end.
---
 src/list.cxx   | 12 +++++++++---
 src/search.cxx | 15 +++++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/list.cxx b/src/list.cxx
index b9a0a35..b6c38de 100644
--- a/src/list.cxx
+++ b/src/list.cxx
@@ -122,8 +122,9 @@ void list::parse() {
 		const char *p = data;
 		const char *end = data + i.sRepo;
  
-        package pkg;
-        pkg.col=" ";
+        package empty;
+        empty.col = i.collection;
+        package pkg = empty;
 
         while (p < end) {
 			const char *nl = (const char*)memchr(p, '\n', end - p);
@@ -131,7 +132,9 @@ void list::parse() {
 				nl = end;
 
 			if (p[0] == '\n') {
-				listOfPackages.push_back(pkg);
+				if (!pkg.name.empty())
+					listOfPackages.push_back(pkg);
+				pkg = empty;
 			} else {
 				size_t len = nl - p;
 				std::string found(p + 1, len - 1);
@@ -152,6 +155,9 @@ void list::parse() {
 			}
 			p = nl + 1;
 		}
+        // The last package may not be followed by an empty line
+        if (!pkg.name.empty())
+            listOfPackages.push_back(pkg);
         munmap(data,i.sRepo);
 		close(fd);
     }
diff --git a/src/search.cxx b/src/search.cxx
index 372c74f..f81c5b7 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -48,8 +48,9 @@ void search::parse(){
 		const char *p = data;
 		const char *end = data + i.sRepo;
 
-        package pkg;
-        pkg.collection=" ";
+        package empty;
+        empty.collection = i.collection;
+        package pkg = empty;
 
         while (p < end) {
 			const char *nl = (const char*)memchr(p, '\n', end - p);
@@ -57,10 +58,9 @@ void search::parse(){
 				nl = end;
 
 			if (p[0] == '\n') {
-				m_listOfPackages.push_back(pkg);
-				pkg.group="";
-				pkg.description="";
-				pkg.nls="";
+				if (!pkg.name.empty())
+					m_listOfPackages.push_back(pkg);
+				pkg = empty;
 			} else {
 				size_t len = nl - p;
 				std::string found(p + 1, len - 1);
@@ -96,6 +96,9 @@ void search::parse(){
 			}
 			p = nl + 1;
 		}
+        // The last package may not be followed by an empty line
+        if (!pkg.name.empty())
+            m_listOfPackages.push_back(pkg);
         munmap(data,i.sRepo);
 		close(fd);
     }
-- 
2.43.0


From c8664169e9a564de91651a2feae73fd313707125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 044/113] fix: search in the sets and the categories as well

As cards(8) says.
---
 src/search.cxx | 14 ++++++++++++++
 src/search.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/search.cxx b/src/search.cxx
index f81c5b7..6ab64e2 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -92,6 +92,12 @@ void search::parse(){
 					case NLS:
 						pkg.nls = found;
 						break;
+					case SETS:
+						pkg.sets.insert(found);
+						break;
+					case CATEGORIES:
+						pkg.categories.insert(found);
+						break;
 				}
 			}
 			p = nl + 1;
@@ -139,6 +145,14 @@ void search::list() {
 			pos = convertToLowerCase(j.packager).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.version).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		for (auto s : j.sets) {
+			if  (pos == std::string::npos)
+				pos = convertToLowerCase(s).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		}
+		for (auto c : j.categories) {
+			if  (pos == std::string::npos)
+				pos = convertToLowerCase(c).find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		}
 		if (pos != std::string::npos) {
 			if (j.nls.size() > 0) {
 				found = false;
diff --git a/src/search.h b/src/search.h
index 5d5c696..284c8bd 100644
--- a/src/search.h
+++ b/src/search.h
@@ -22,6 +22,8 @@ class search {
 		std::string packager;
 		std::string group;
 		std::string nls;
+		std::set<std::string> sets;
+		std::set<std::string> categories;
 	};
 
     const CardsArgumentParser& m_argParser;
-- 
2.43.0


From b6f83452dc89d7e529079ab0d3df66d132646996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 045/113] fix: find packages with upper case letters in their
 name

---
 src/search.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/search.cxx b/src/search.cxx
index 6ab64e2..cbf060a 100644
--- a/src/search.cxx
+++ b/src/search.cxx
@@ -120,7 +120,7 @@ void search::list() {
 		std::string::size_type pos;
 
 		if (m_argParser.isSet(CardsArgumentParser::OPT_NAMES)) {
-			if ( j.name.find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
+			if ( convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0])) == std::string::npos)
 					continue;
 
 			std::cout << "(" << j.collection << ") ";
@@ -134,9 +134,9 @@ void search::list() {
 					<< std::endl;
 			continue;
 		}
-		pos = j.collection.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+		pos = convertToLowerCase(j.collection).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-			pos = j.name.find(convertToLowerCase(m_argParser.otherArguments()[0]));
+			pos = convertToLowerCase(j.name).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
 			pos = convertToLowerCase(j.description).find(convertToLowerCase(m_argParser.otherArguments()[0]));
 		if  (pos == std::string::npos)
-- 
2.43.0


From cb68c844112db90a57dd7d3f66c6147c6d6638be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 046/113] fix: query the files of the repository whatever their
 names

A missing .FILES crashed cards query -b and cards files -b, long names
were cut, the last letter of a file without a final newline was lost and
the end of each package was taken for the file '/'.
---
 src/files.cxx | 25 ++++++++++++++-----------
 src/query.cxx | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/files.cxx b/src/files.cxx
index 573fd95..8a780ab 100644
--- a/src/files.cxx
+++ b/src/files.cxx
@@ -28,17 +28,20 @@ void files::parse() {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
         pkgFound = false;
 
-        // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
-
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
+        std::vector<std::string> contentFile;
+        if (parseFile(contentFile, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
+
+        for (auto line : contentFile) {
             if (line[0] == '@')  {
                 pos = line.find(pkgName);
-				if (pos != std::string::npos) {
+				if (pos == 0) {
 					pkgFound = true;
 					continue;
 				}
@@ -47,12 +50,12 @@ void files::parse() {
 				if (line.size() > 0) {
 					std::cout << line << std::endl;
 				} else {
-					fclose(fp);
 					return;
 				}
 			}
         }
-        fclose(fp);
+        if (pkgFound)
+            return;
     }
 }
 
diff --git a/src/query.cxx b/src/query.cxx
index 29f4279..ae2f849 100644
--- a/src/query.cxx
+++ b/src/query.cxx
@@ -45,14 +45,21 @@ void query::parse() {
     for (auto i : config.dirUrl()) {
         std::string s = i.depot + "/" + i.collection + PKG_REPO_FILES;
 
-        // Checking file's access already done
-        FILE* fp = fopen (s.c_str(),"r");
+        std::vector<std::string> contentFile;
+        if (parseFile(contentFile, s.c_str()) != 0) {
+            std::cerr << "Cannot read the file: "
+                << s
+                << std::endl
+                << "... continue with next"
+                << std::endl;
+            continue;
+        }
+
+        for (auto line : contentFile) {
+            // Only the end of a package
+            if (line.empty())
+                continue;
 
-        std::string line(BUFSIZ,'\0');
-        char input[BUFSIZ];
-        while (fgets(input,BUFSIZ,fp)) {
-            input[strlen(input)-1] = '\0';
-            line = input;
             if (line[0] == '@')  {
                 Pkg.name = line.substr(1);
                 continue;
@@ -70,7 +77,6 @@ void query::parse() {
                 }
             }
         }
-        fclose(fp);
     }
     regfree(&preg);
     if (listOfFiles.size() > 1) {
-- 
2.43.0


From 7b32c1328f14435ecd353b27352d2dea8d61dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 047/113] fix: accept any white space in cards.conf

An indented line, or a tab before the value of a line with a space in
it, hid the whole line.
---
 src/conf.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 7946c77..936d30c 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -31,11 +31,8 @@ void conf::parseConfig()
 		}
 
 		// whitespace separates
-		pos = s.find(' ');
-		if (pos == std::string::npos) {
-			// try with a tab
-			pos = s.find('\t');
-		}
+		s = stripWhiteSpace(s);
+		pos = s.find_first_of(" \t");
 		if (pos != std::string::npos) {
 			std::string key = s.substr(0, pos);
 			std::string val = stripWhiteSpace(s.substr(pos));
-- 
2.43.0


From bf81d864bab5ebfff07236cb9f4e9b8c895d5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 048/113] fix: read the lines of cards.conf whatever their
 length

---
 src/conf.cxx | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 936d30c..b473ffe 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -12,16 +12,10 @@ conf::conf(const std::string& filename)
 }
 void conf::parseConfig()
 {
-	FILE* fp = fopen(m_filename.c_str(), "r");
-	if (!fp)
+	std::vector<std::string> contentFile;
+	if (parseFile(contentFile, m_filename.c_str()) != 0)
 		return;
-	char line[BUFSIZ];
-	std::string s;
-	while (fgets(line, BUFSIZ, fp)) {
-		if (line[strlen(line)-1] == '\n' ) {
-			line[strlen(line)-1] = '\0';
-		}
-		s = line;
+	for (auto s : contentFile) {
 		bool found = false;
 
 		// strip comments
@@ -120,7 +114,6 @@ void conf::parseConfig()
 			}
 		}
 	}
-	fclose(fp);
 	if (!m_url.empty()) {
 		for (auto& i : m_dirUrl) {
 			if (i.url.empty())
-- 
2.43.0


From e44c4608713996631836196ebb19992dcd69baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 049/113] fix: do not take the depot or the root directory for
 a collection

'dir /' and 'dir cli' without a directory made an entry without a
name: with an url set, cards purge and cards upgrade removed every file
of the depot, or of the whole system without a depot.
---
 src/conf.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/conf.cxx b/src/conf.cxx
index b473ffe..6aaef84 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -43,12 +43,21 @@ void conf::parseConfig()
 					DU.url = "";
 				}
 
+				while (!dir.empty() && dir[dir.size()-1] == '/')
+					dir.erase(dir.size()-1);
+
 				pos = dir.rfind('/');
 
 				if (pos != std::string::npos) {
 					DU.collection = stripWhiteSpace(dir.substr(pos+1));
 					DU.depot = dir.substr(0,pos);
+				} else {
+					// a directory of the depot
+					DU.collection = dir;
 				}
+				// The files found in there will be purged
+				if (DU.collection.empty())
+					continue;
 				// TODO find a better solution
 				/*
 				for (auto i : m_dirUrl) {
@@ -62,6 +71,8 @@ void conf::parseConfig()
 					m_dirUrl.push_back(DU);
 			}
 			if (key == "collection") {
+				if (val.empty())
+					continue;
 				cards::DirUrl DU;
 				DU.collection = val;
 				for (auto i : m_dirUrl) {
-- 
2.43.0


From eca81f9b390fa671f1b0d1049ba3fbdcbf4e432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 050/113] fix: report every wrong signature found by cards repo

The check stopped at the first one, said that all the packages were
checked and succeeded.
---
 src/repo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index ddd02e1..d71de4d 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -15,17 +15,22 @@ repo::repo(const CardsArgumentParser& argParser,
 	keyfile += PRIVATEKEY;
     if ((config.keypath().empty()) ||
         (!checkFileExist(keyfile))) {
+        std::string wrong;
         for (auto pkg : m_pkgrepo.getListOfPackages()) {
             if (!m_pkgrepo.checkSign(pkg.first)) {
                 std::cout << "Package "
                     << pkg.first
                     << ": Wrong signature !!!"
                     << std::endl;
-                break;
+                wrong += " " + pkg.first;
+                continue;
             }
             if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                 rotatingCursor();
         }
+        if (!wrong.empty())
+            throw std::runtime_error("wrong signature:" + wrong);
+
         std::cout << "All "
             << m_pkgrepo.getListOfPackages().size()
             << " packages checked"
-- 
2.43.0


From 80b70273e64b61600af346e7f8bc5e095b44ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 051/113] fix: replace the metadata of a collection only by
 complete ones with cards repo

A file which is not a package, a full disk, a missing key, ... left a
part of the metadata, sometimes without an error.
---
 src/repo.cxx | 60 +++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index d71de4d..6405599 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -61,27 +61,20 @@ repo::repo(const CardsArgumentParser& argParser,
                 << repofile
                 << std::endl;
 
-            FILE* mp = fopen(repometa.c_str(),"w");
-            if (!mp) {
-                std::cout << "Cannot open "
-                    << repometa
-                    << std::endl;
-                return;
-            }
-            FILE* fp = fopen(repofile.c_str(),"w");
-            if (!fp) {
-                std::cout << "Cannot open "
-                    << repofile
-                    << std::endl;
-                return;
-            }
+            // The actual files stay until the new ones are complete
+            FILE* mp = fopen((repometa + ".new").c_str(),"w");
+            if (!mp)
+                throw std::runtime_error("Cannot open " + repometa + ".new");
+
+            FILE* fp = fopen((repofile + ".new").c_str(),"w");
+            if (!fp)
+                throw std::runtime_error("Cannot open " + repofile + ".new");
+
             findRecursiveFile(listOfFiles,path.c_str(),WS_DEFAULT);
             for (auto file : listOfFiles) {
                 archive a(file);
-                if (stat(file.c_str(), &buf) != 0) {
-                    std::cerr << "Cannot find size of " << file << std::endl;
-                    return;
-                }
+                if (stat(file.c_str(), &buf) != 0)
+                    throw std::runtime_error("Cannot find size of " + file);
 
                 m_pkgrepo.generateHash(file);
                 pos = file.rfind( '/' );
@@ -124,8 +117,14 @@ repo::repo(const CardsArgumentParser& argParser,
                 if (!m_argParser.isSet(CardsArgumentParser::OPT_NO_PROGRESS))
                     rotatingCursor();
             }
-            fclose(fp);
-            fclose(mp);
+            bool failed = ferror(fp) || ferror(mp);
+            failed = fclose(fp) != 0 || failed;
+            failed = fclose(mp) != 0 || failed;
+            if (failed ||
+                rename((repofile + ".new").c_str(), repofile.c_str()) != 0 ||
+                rename((repometa + ".new").c_str(), repometa.c_str()) != 0)
+                throw std::runtime_error("Cannot write " + repometa + " and " + repofile);
+
             std::cout << std::endl;
             std::cout << "Compressing "
                 << repometa
@@ -156,9 +155,7 @@ void repo::compress(const std::string fileName) {
 
     std::ifstream inFile(fileName, std::ios::binary);
     if (!inFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName);
 
     inFile.seekg(0,std::ios::end);
     size_t inSize = inFile.tellg();
@@ -166,6 +163,8 @@ void repo::compress(const std::string fileName) {
 
     std::vector<char> inData(inSize);
     inFile.read(inData.data(), inSize);
+    if (!inFile)
+        throw std::runtime_error("Cannot read file: " + fileName);
     inFile.close();
 
     // Find Out the requested size
@@ -175,20 +174,19 @@ void repo::compress(const std::string fileName) {
     // Compression
     size_t result = ZSTD_compress(compressData.data(), compressSize, inData.data(), inSize, 19);
     if (ZSTD_isError(result))
-        std::cerr << "Compression error: "
-            << ZSTD_getErrorName(result)
-            << std::endl;
+        throw std::runtime_error(std::string("Compression error: ")
+            + ZSTD_getErrorName(result));
 
-    std::ofstream outFile(fileName + ".zst", std::ios::binary);
+    std::ofstream outFile(fileName + ".zst.new", std::ios::binary);
 
     if (!outFile)
-        std::cerr << "Cannot open file: "
-            << fileName
-            << ".zst"
-            << std::endl;
+        throw std::runtime_error("Cannot open file: " + fileName + ".zst.new");
 
     outFile.write(compressData.data(), result);
     outFile.close();
+    if (!outFile ||
+        rename((fileName + ".zst.new").c_str(), (fileName + ".zst").c_str()) != 0)
+        throw std::runtime_error("Cannot write file: " + fileName + ".zst");
 
 }
 
-- 
2.43.0


From adb38cdc1fa367f4a31e63f9c5cc532bdaba88f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 052/113] fix: fail when the collection to sign does not exist,
 and count the packages signed

---
 src/repo.cxx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/repo.cxx b/src/repo.cxx
index 6405599..a118c36 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -136,18 +136,17 @@ repo::repo(const CardsArgumentParser& argParser,
             if (m_argParser.otherArguments().size() > 0 )
                 break;
         }
+        m_pkgrepo.refresh();
         if (m_argParser.otherArguments().size() == 0)
             std::cout << "All "
                 << m_pkgrepo.getListOfPackages().size()
                 << " packages signed"
                 << std::endl;
         else
-            if (!found) {
-                std::cerr << "Collection: "
-                    << m_argParser.otherArguments()[0]
-                    << " does not exist !!"
-                    << std::endl;
-            }
+            if (!found)
+                throw std::runtime_error("Collection: "
+                    + m_argParser.otherArguments()[0]
+                    + " does not exist !!");
     }
 
 }
-- 
2.43.0


From 8392af84eaec959ab5e6dd3b63eca21779125d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 053/113] fix: never let others read the private key

It was readable by everybody until the rights of the file were changed.
A key which could not be written is now an error.
---
 src/pkgrepo.cxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index 7414817..bc52757 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -2,6 +2,8 @@
 
 #include "pkgrepo.h"
 
+#include <fcntl.h>
+
 namespace cards {
 
 pkgrepo::pkgrepo(const std::string& fileName, const std::string& root)
@@ -90,7 +92,10 @@ void pkgrepo::generateKeys()
     }
     EVP_PKEY_CTX_free(ctx);
 
-    FILE* f = fopen(keyfile.c_str(), "w");
+    // Nobody else may read the private key, at any time
+    remove(keyfile.c_str());
+    int fd = open(keyfile.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
+    FILE* f = fd == -1 ? nullptr : fdopen(fd, "w");
     if (!f) {
         EVP_PKEY_free(key);
         m_actualError = cards::ERROR_ENUM_CANNOT_OPEN_FILE;
@@ -103,7 +108,11 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
+    if (fclose(f) != 0) {
+        EVP_PKEY_free(key);
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY;
+        treatErrors(keyfile);
+    }
     if (chmod(keyfile.c_str(), 0600) == -1) {
         m_actualError = cards::ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600;
         treatErrors(keyfile);
@@ -123,8 +132,11 @@ void pkgrepo::generateKeys()
         m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
         treatErrors(keyfile);
     }
-    fclose(f);
     EVP_PKEY_free(key);
+    if (fclose(f) != 0) {
+        m_actualError = cards::ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY;
+        treatErrors(keyfile);
+    }
 }
 void pkgrepo::generateDependencies()
 {
-- 
2.43.0


From e03671c407f12c409e39d506c660559157216f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 054/113] fix: report the files which cards purge could not
 remove

The command succeeded although they were still there.
---
 src/conf.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conf.cxx b/src/conf.cxx
index 6aaef84..ed50fca 100644
--- a/src/conf.cxx
+++ b/src/conf.cxx
@@ -182,9 +182,15 @@ void conf::purge()
 			continue;
 
 		findRecursiveFile(listOfFiles, path.c_str(),WS_DEFAULT);
-		for (auto file : listOfFiles)
-			remove(file.c_str());
 	}
+	std::string failed;
+	for (auto file : listOfFiles) {
+		// The same file can be found more than once
+		if (remove(file.c_str()) != 0 && errno != ENOENT)
+			failed += " " + file;
+	}
+	if (!failed.empty())
+		throw std::runtime_error("could not remove" + failed);
 }
 conf::~conf()
 {
-- 
2.43.0


From 6bdf51bcba316ebc8c18eb61184cdac7c0d33711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 055/113] fix: keep the ports apart when reading them

A port took over the fields missing in its Pkgfile from the port read
before, and the port of the last collection was used instead of the
port of the first one.
---
 src/pkgfile.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index dc5cbac..5308c27 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -83,9 +83,7 @@ void pkgfile::parse()
     if (m_listOfPackages.size() > 0)
         return;
 
-    cards::port info;
     unsigned int index = 0;
-    bool found = false;
 
     for (auto i : m_config.dirUrl()) {
         DIR* d;
@@ -101,6 +99,14 @@ void pkgfile::parse()
                 if (!checkFileExist(Pkgfile))
                     continue;
 
+                // The directories listed first have precedence
+                if (m_listOfPackages.find(portName) != m_listOfPackages.end())
+                    continue;
+
+                // Each port has its own properties
+                cards::port info;
+                info.index(index);
+                ++index;
                 info.collection(i.collection);
                 info.release(1);
                 std::vector<std::string> pkgFileContent;
@@ -113,6 +119,7 @@ void pkgfile::parse()
                 }
                 std::string::size_type pos;
                 std::string s;
+                bool found = false;
                 for (auto p : pkgFileContent) {
                     std::string line = stripWhiteSpace(p);
                     replaceAll(line, ",", " ");
@@ -169,9 +176,7 @@ void pkgfile::parse()
                 // and probably generate a full value with echo $version-$release
                 // info.version(getVariable(Pkgfile, "version"));
                 info.dependencies(parseDelimitedSetList(s, " "));
-                info.index(index);
                 m_listOfPackages[portName] = info;
-                ++index;
             }
         }
     }
-- 
2.43.0


From 20fc6dddbdffa4d5a4bc1ad1744aa92c39aba16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 056/113] fix: take no comments for dependencies of a port, and
 accept tabs between them

---
 src/pkgfile.cxx | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 5308c27..633295c 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -141,27 +141,17 @@ void pkgfile::parse()
                     else if (line.substr(0, 11) == "maintainer=")
                         info.maintainer(stripWhiteSpace(getValueBefore(getValue(line, '='), '#')));
                     else if (line.substr(0, 13) == "makedepends=(") {
-                        s += line.substr(13);
+                        line = line.substr(13);
                         found = true;
-                        pos = s.find(')');
-                        if (pos != std::string::npos) {
-                            s[pos] = ' ';
-                            found = false;
-                        } else
-                            s = s + " ";
-                        continue;
                     } else if (line.substr(0, 5) == "run=(") {
-                        s += line.substr(5);
+                        line = line.substr(5);
                         found = true;
-                        pos = s.find(')');
-                        if (pos != std::string::npos) {
-                            s[pos] = ' ';
-                            found = false;
-                        } else
-                            s = s + " ";
-                        continue;
                     }
                     if (found) {
+                        // The comments are no dependencies
+                        pos = line.find('#');
+                        if (pos != std::string::npos)
+                            line = line.substr(0, pos);
                         pos = line.find(')');
                         if (pos != std::string::npos) {
                             s += line.substr(0, pos);
@@ -175,7 +165,7 @@ void pkgfile::parse()
                 // we can use this good idea
                 // and probably generate a full value with echo $version-$release
                 // info.version(getVariable(Pkgfile, "version"));
-                info.dependencies(parseDelimitedSetList(s, " "));
+                info.dependencies(parseDelimitedSetList(s, " \t"));
                 m_listOfPackages[portName] = info;
             }
         }
-- 
2.43.0


From af76684da49cf2941c763dfa9f9b1a2645b37cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 057/113] fix: find the ports having a dot in their name

---
 src/pkgfile.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 633295c..5191c11 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -55,7 +55,10 @@ void pkgfile::confirmDependencies()
         std::vector<unsigned int> indexes;
         unsigned int n = 1;
         for (auto j : i.second.dependencies()) {
-            std::string s = getValueBeforeLast(j, '.');
+            // either a port or the package of a group of a port
+            std::string s = j;
+            if (m_listOfPackages.find(s) == m_listOfPackages.end())
+                s = getValueBeforeLast(j, '.');
             if (m_listOfPackages.find(s) != m_listOfPackages.end()) {
                 if (i.second.index() == m_listOfPackages[s].index())
                     continue;
-- 
2.43.0


From 136184ad5e6e5aebb46536722928845aed639aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 058/113] fix: show the dependencies listed behind the port
 itself in the tree

---
 src/deptree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deptree.cxx b/src/deptree.cxx
index af57045..7873674 100644
--- a/src/deptree.cxx
+++ b/src/deptree.cxx
@@ -21,7 +21,7 @@ void deptree::print(std::string name, std::string space, int level)
         if (m_tree[name].dependencies().size() > 0) {
             for (auto n : m_tree[name].dependencies()) {
                 if (n == name)
-                    break;
+                    continue;
                 print(n, space, level);
             }
         }
-- 
2.43.0


From 061e0b4bf328fbe4e6bc1fafc6f5f9a7a849e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 059/113] fix: read the 32 bits ELF files

The types of their structures have 32 bits on every machine.
---
 src/elf.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/elf.h b/src/elf.h
index 333375e..1e27aa1 100644
--- a/src/elf.h
+++ b/src/elf.h
@@ -43,10 +43,10 @@ typedef struct elf_internal_ehdr_end {
 
 /* dynamic section structure */
 typedef struct elf_internal_dyn_32 {
-	unsigned long d_tag;
+	unsigned int d_tag;
 	union { 
-		unsigned long d_val;
-		unsigned long d_ptr;
+		unsigned int d_val;
+		unsigned int d_ptr;
 	 } d_un;
 } Elf_Dyn_32;
 
@@ -63,14 +63,14 @@ typedef struct elf_internal_dyn_64 {
 typedef struct elf_internal_shdr_32 {
 	unsigned int  sh_name;
 	unsigned int  sh_type;
-	unsigned long sh_flags;
-	unsigned long sh_addr;
-	unsigned long sh_offset;
-	unsigned long sh_size;
+	unsigned int sh_flags;
+	unsigned int sh_addr;
+	unsigned int sh_offset;
+	unsigned int sh_size;
 	unsigned int  sh_link;
 	unsigned int  sh_info;
-	unsigned long sh_addralign;
-	unsigned long sh_entsize;
+	unsigned int sh_addralign;
+	unsigned int sh_entsize;
 } Elf_Shdr_32;
 
 typedef struct elf_internal_shdr_64 {
@@ -90,11 +90,11 @@ typedef struct elf_internal_shdr_64 {
 
 typedef struct elf_internal_phdr_32 {
 	unsigned int p_type;
-	unsigned long p_offset;
-	unsigned long p_vaddr;
-	unsigned long p_paddr;
-	unsigned long p_filesz;
-	unsigned long p_memsz;
+	unsigned int p_offset;
+	unsigned int p_vaddr;
+	unsigned int p_paddr;
+	unsigned int p_filesz;
+	unsigned int p_memsz;
 	unsigned int p_flags;
 	unsigned int p_align;
 } Elf_Phdr_32;
-- 
2.43.0


From fafb1aa23ba6b6f4e502fc2237b3d69311ef844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 060/113] fix: find the libraries of every ELF file

The names are in the strings belonging to the dynamic section. These are
not always the first ones, nor in the first half of the file.
---
 src/runtime_dependencies_utils.cxx | 65 ++++++++++--------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index 9f769c6..74bfe56 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -139,27 +139,21 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
 		{
-/* Only the dynamic section we are concern */
-			if ( section_headers_32bits[i].sh_type == SHT_STRTAB )
+/* Only the strings of the dynamic section we are concern */
+			if ( section_headers_32bits[i].sh_type == SHT_DYNAMIC &&
+				section_headers_32bits[i].sh_link < elf_header_end.e_shnum )
 			{
-					offset = section_headers_32bits[i].sh_offset;
-#ifdef DEBUG
-		printf("section_headers_32bits[%d].sh_offset: %u 0x%x\n",
-	i,section_headers_32bits[i].sh_offset,section_headers_32bits[i].sh_offset);
-#endif
-				
-					if ( i ==  elf_header_end.e_shnum - 1 )
-					{
-						dependencies_utils_end();
+				offset = section_headers_32bits[section_headers_32bits[i].sh_link].sh_offset;
+				break;
+			}
+		}
+		if ( offset == 0 )
+		{
+			dependencies_utils_end();
 #ifdef DEBUG
 	printf("No dynamics found\n");
-		printf("offset : %u 0x%x\n",
-	offset,offset);
 #endif
-						return 0;
-					}
-					break;
-			}
+			return 0;
 		}
 /* Program header */
 		program_headers_32bits  = (Elf_Phdr_32 *) getDatas(NULL, file,
@@ -223,7 +217,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <  dynamic_strings_length) )
+				if ( dynamic_strings != NULL )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
 					if ( name != NULL  && name[strlen(name)-1] != '.')
@@ -261,37 +255,22 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 		for (int i = 0;i < elf_header_end.e_shnum;i++)
 		{
-/* Only the dynamic section we are concern */
-			if ( section_headers_64bits[i].sh_type == SHT_STRTAB )
+/* Only the strings of the dynamic section we are concern */
+			if ( section_headers_64bits[i].sh_type == SHT_DYNAMIC &&
+				section_headers_64bits[i].sh_link < elf_header_end.e_shnum )
 			{
-				offset = section_headers_64bits[i].sh_offset;
-#ifdef DEBUG
-		printf("section_headers_64bits[%d].sh_offset: %u 0x%x\n",
-	i,section_headers_64bits[i].sh_offset,section_headers_64bits[i].sh_offset);
-#endif
-				if ( i ==  elf_header_end.e_shnum - 1 )
-				{
-					dependencies_utils_end();
-#ifdef DEBUG
-	printf("No dynamics found\n");
-	printf("offset : %u 0x%x\n",
-	offset,offset);
-#endif
-					return 0;
-				}
+				offset = section_headers_64bits[section_headers_64bits[i].sh_link].sh_offset;
 				break;
 			}
 		}
-    if ( offset == elf_header_end.e_shnum - 1)
-    {
-      dependencies_utils_end();
+		if ( offset == 0 )
+		{
+			dependencies_utils_end();
 #ifdef DEBUG
 	printf("No dynamics found\n");
-	printf("offset : %u 0x%x\n",
-	offset,offset);
 #endif
-      return 0;
-    }
+			return 0;
+		}
 /* Program header */
 		program_headers_64bits = (Elf_Phdr_64 *) getDatas(NULL, file,
 			elf_header_64bits.e_phoff,
@@ -355,7 +334,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( ( dynamic_strings != NULL ) && ( offset <	dynamic_strings_length) )
+				if ( dynamic_strings != NULL )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
 					if (name[strlen(name)-1] != '.')
-- 
2.43.0


From 548f40dbccaa5aa9841824f4d0d6f83fd00b2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 061/113] fix: stay inside of the ELF files when searching
 their libraries

---
 src/runtime_dependencies_utils.cxx | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index 74bfe56..d339e9a 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -129,6 +129,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if ( elf_header_end.e_shentsize != sizeof(Elf_Shdr_32) ||
+			elf_header_end.e_phentsize != sizeof(Elf_Phdr_32) )
+			return error ("The sizes of the headers are not those of a 32bits file");
+
 		section_headers_32bits = (Elf_Shdr_32 *)getDatas (NULL, file,
 				elf_header_32bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -147,7 +151,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				break;
 			}
 		}
-		if ( offset == 0 )
+		if ( offset <= 0 )
 		{
 			dependencies_utils_end();
 #ifdef DEBUG
@@ -209,7 +213,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_32bits;
-				edyn < dynamics_section_32bits + dynamic_size_32bits;
+				edyn < dynamics_section_32bits + dynamic_size_32bits / sizeof(Elf_Dyn_32);
 				edyn ++)
 		{
 			if (edyn->d_tag == DT_NULL)
@@ -217,10 +221,11 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 			
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( dynamic_strings != NULL )
+				if ( dynamic_strings != NULL &&
+					edyn->d_un.d_val < (unsigned long) dynamic_strings_length )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if ( name != NULL  && name[strlen(name)-1] != '.')
+					if ( name[0] != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
@@ -245,6 +250,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 		long str_tab_len = 0;
 		char * name = NULL;
 
+		if ( elf_header_end.e_shentsize != sizeof(Elf_Shdr_64) ||
+			elf_header_end.e_phentsize != sizeof(Elf_Phdr_64) )
+			return error ("The sizes of the headers are not those of a 64bits file");
+
 		section_headers_64bits = (Elf_Shdr_64  *)getDatas (NULL, file,
 				elf_header_64bits.e_shoff,
 				elf_header_end.e_shentsize,
@@ -263,7 +272,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				break;
 			}
 		}
-		if ( offset == 0 )
+		if ( offset <= 0 )
 		{
 			dependencies_utils_end();
 #ifdef DEBUG
@@ -323,7 +332,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 				str_tab_len);
 		dynamic_strings_length = dynamic_strings == NULL ? 0 : str_tab_len;
 		for (edyn = dynamics_section_64bits;
-			edyn < dynamics_section_64bits + dynamic_size_64bits;
+			edyn < dynamics_section_64bits + dynamic_size_64bits / sizeof(Elf_Dyn_64);
 			edyn ++)
 		{
 #ifdef DEBUG
@@ -334,10 +343,11 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 			if ((edyn->d_tag == DT_NEEDED) ||
 					(edyn->d_tag == DT_SONAME)) {  /* if it's a lib */
-				if ( dynamic_strings != NULL )
+				if ( dynamic_strings != NULL &&
+					edyn->d_un.d_val < (unsigned long) dynamic_strings_length )
 				{
 					name = dynamic_strings + edyn->d_un.d_val;
-					if (name[strlen(name)-1] != '.')
+					if ( name[0] != '\0' && name[strlen(name)-1] != '.')
 						runtimeLibrariesList.insert(name);
 				}
 			}
-- 
2.43.0


From ca081e73f4f3c8c443bc28b1f2a96b7202c87551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:14 +0000
Subject: [PATCH 062/113] fix: do not mix the message about a short ELF file
 with its libraries

---
 src/file_utils.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 7fa8377..6ed3099 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -32,7 +32,9 @@ void * getDatas ( void * var, FILE * file, long offset, size_t size, size_t nmem
   }
   if (fread (mvar, size, nmemb, file) != nmemb)
   {
-    printf("Unable to read in 0x%lx bytes", (unsigned long)(size * nmemb));
+    fprintf(stderr, "Unable to read in 0x%lx bytes\n", (unsigned long)(size * nmemb));
+    if (var == nullptr)
+      free (mvar);
     return nullptr;
   }
   return mvar;
-- 
2.43.0


From 42cba939c432c4cd95589e8e24f585d0a55f2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 063/113] fix: look for the libraries of a package below the
 given root

---
 src/pkginfo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index 9280b26..a707ad7 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -318,7 +318,7 @@ void pkginfo::run()
 
             if (checkPackageNameExist(m_arg)) {
                 for (auto i : m_listOfPackages[m_listOfAlias[m_arg]].files) {
-                    std::string filename('/' + i);
+                    std::string filename(m_root + i);
                     Result = getRuntimeLibrariesList(librariesList, filename);
                 }
                 if ((librariesList.size() > 0) && (Result > -1)) {
-- 
2.43.0


From 251e92be69983389d7276501b0e604dea0361323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 064/113] fix: take only the owners of a library for runtime
 dependencies

The owners of files beginning with its name were taken as well.
---
 src/pkginfo.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index a707ad7..bd85ba9 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -5,6 +5,12 @@
 
 #include "pkginfo.h"
 
+// libz.so.1 is found in lib/libz.so.1 and lib/libz.so.1.3 but not in lib/libz.so.10
+static bool isLibrary(const std::string& file, const std::string& library)
+{
+    const std::string name = file.substr(file.rfind('/') + 1);
+    return name == library || name.compare(0, library.size() + 1, library + ".") == 0;
+}
 pkginfo::pkginfo(const std::string& commandName)
     : pkgdbh(commandName)
     , m_runtimedependencies_mode(0)
@@ -287,7 +293,7 @@ void pkginfo::run()
                     for (auto j : m_listOfPackages) {
                         bool found = false;
                         for (auto k : j.second.files) {
-                            if (k.find('/' + i) != std::string::npos) {
+                            if (isLibrary(k, i)) {
                                 std::string dependency = j.first + ultos(j.second.build());
                                 runtimeList.insert(dependency);
                                 break;
@@ -328,7 +334,7 @@ void pkginfo::run()
                             for (auto j : m_listOfPackages) {
                                 bool found = false;
                                 for (auto k : j.second.files) {
-                                    if (k.find('/' + i) != std::string::npos) {
+                                    if (isLibrary(k, i)) {
                                         runtimeList.insert(j.first);
                                         break;
                                         found = true;
-- 
2.43.0


From 9a263e6709c70a6d5543649a1b92fd8c12cc70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 065/113] fix: a symbolic link to nothing is not a regular file

---
 src/file_utils.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6ed3099..a05c2c6 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -94,9 +94,8 @@ bool checkFileEmpty(const std::string& filename)
 bool checkRegularFile(const std::string& filename)
 {
 	struct stat buf;
-	if (!checkFileExist(filename))
+	if (stat(filename.c_str(), &buf) == -1)
 		return false;
-	stat(filename.c_str(), &buf);
 	return (S_ISREG(buf.st_mode));
 
 }
-- 
2.43.0


From ce88a81d2898ecccef5ef3099fee3aeea8e750a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 066/113] fix: do not wait for a FIFO when searching libraries

---
 src/runtime_dependencies_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index d339e9a..f5e091d 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -61,7 +61,7 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 
 	char * dynamic_strings = NULL;
 
-	if ( ! checkFileExist(file_name) || checkFileEmpty(file_name) )
+	if ( ! checkRegularFile(file_name) || checkFileEmpty(file_name) )
 		return error ("Cannot find file");
 
 	file = fopen (file_name, "rb" );
-- 
2.43.0


From c07141831d02dc7426ac89178386b356c5bf87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 067/113] fix: do not read behind the header of a short ELF
 file

---
 src/runtime_dependencies_utils.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime_dependencies_utils.cxx b/src/runtime_dependencies_utils.cxx
index f5e091d..1a549d2 100644
--- a/src/runtime_dependencies_utils.cxx
+++ b/src/runtime_dependencies_utils.cxx
@@ -99,6 +99,10 @@ int getRuntimeLibrariesList(std::set<std::string>& runtimeLibrariesList,
 /* 64 bit elf file */
     get_64bit_elf_header_part(file);
 
+/* The header is not complete, the file is already closed */
+	if (file == NULL)
+		return 0;
+
 /* Get the end part of the ELF Header */
 	buffer_end = (Elf_Ehdr_End *)malloc( sizeof(elf_header_end));
 	result = fread (buffer_end,1,sizeof(elf_header_end),file);
-- 
2.43.0


From 5ce2d60dc7669ee294451131d5336fffe85d2314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:15 +0000
Subject: [PATCH 068/113] fix: the web catalogue shows every record of every
 collection

An unreadable .REPO ended the list of all the collections, the record at
the end of a file without a final empty line was lost (and the search for
the end of a line read behind the mapping), fields of a record leaked into
the next one and a release which is no number ended the program.
---
 src/webrepo.cxx | 96 +++++++++++++++++++++----------------------------
 1 file changed, 40 insertions(+), 56 deletions(-)

diff --git a/src/webrepo.cxx b/src/webrepo.cxx
index 630d675..af20e20 100644
--- a/src/webrepo.cxx
+++ b/src/webrepo.cxx
@@ -14,15 +14,11 @@ void webrepo::parse() {
     if (m_listOfPackages.size() > 0)
         return;
 
-    pkg info;
     std::string::size_type pos;
-    std::string version;
-
-    struct stat st;
-    size_t size = 0;
-
 
     for (auto i : m_config.dirUrl()) {
+        pkg info;
+        std::string version;
         std::string repoFile = i.depot
             + "/"
             + i.collection
@@ -52,60 +48,48 @@ void webrepo::parse() {
 
         std::string pkgName;
 
-	int fd = open(repoFile.c_str(), O_RDONLY);
-	if (fstat(fd, &st) < 0 ) {
-		close(fd);
-		return;
-	}
-
-	size = st.st_size;
+        std::vector<std::string> repoFileContent;
 
-	char *data = static_cast<char*>
-		(mmap(nullptr, size, PROT_READ, MAP_PRIVATE, fd, 0));
-	if (data == MAP_FAILED) {
-		close(fd);
-		return;
-	}
+        // Nothing to show of this collection, the next ones still are
+        if (parseFile(repoFileContent, repoFile.c_str()) != 0)
+            continue;
 
-	const char *p = data;
-	const char *end = data + size;
-	while (p < end) {
-	    const char *nl = (const char*)memchr(p, '\n', size);
-	    if (!nl)
-		    nl = end;
+        // The last package may not be followed by an empty line
+        repoFileContent.push_back("");
 
-            if (p[0]== '\n') {
-		    m_listOfPackages[pkgName] = info;
-	    } else {
-		    size_t len = nl - p;
-		    std::string found(p + 1, len - 1);
-		    switch (p[0]) {
-			    case NAME:
-				    pkgName = info.system()
-					    + " "
-					    + info.branch()
-					    + " "
-					    + found;
-				    info.baseName(found);
-				    break;
-			    case VERSION:
-				    info.version(found);
-				    break;
-			    case RELEASE:
-				    info.release(stoi(found));
-				    break;
-			    case DESCRIPTION:
-				    info.description(found);
-				    break;
-			    case BUILD:
-				    info.build(strtoul(found.c_str(), nullptr, 0));
-				    break;
-		    }
+        const pkg empty = info;
+        for (const auto& line : repoFileContent) {
+            if (line.empty()) {
+                if (!pkgName.empty())
+                    m_listOfPackages[pkgName + " " + i.collection] = info;
+                pkgName.clear();
+                info = empty;
+                continue;
             }
-	    p = nl + 1;
-	}
-	munmap(data,size);
-	close(fd);
+            std::string found = line.substr(1);
+            switch (line[0]) {
+                case NAME:
+                    pkgName = info.system()
+                        + " "
+                        + info.branch()
+                        + " "
+                        + found;
+                    info.baseName(found);
+                    break;
+                case VERSION:
+                    info.version(found);
+                    break;
+                case RELEASE:
+                    info.release(atoi(found.c_str()));
+                    break;
+                case DESCRIPTION:
+                    info.description(found);
+                    break;
+                case BUILD:
+                    info.build(strtoul(found.c_str(), nullptr, 0));
+                    break;
+            }
+        }
     }
 }
 const webrepo_t& webrepo::getListOfPackages() {
-- 
2.43.0


From 9eee1db6fa14a3ef7f438b0e3956c18737bc1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 069/113] fix: pages of the web catalogue keep lines which are
 no complete heading

<hr>, <header> and headings closed on another line were dropped from the
page or moved into its contents list, and changed the level of the next
heading.
---
 src/webcards.cxx | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/webcards.cxx b/src/webcards.cxx
index 4f9672a..7be5c3c 100644
--- a/src/webcards.cxx
+++ b/src/webcards.cxx
@@ -22,12 +22,26 @@ std::vector<std::string> parseHTMLDelimitedList
 	bool haveContent=false;
 	int ref=0;
 	for (auto line : text) {
-		start = 0;
 		end = 0;
+		/* A heading is one of <h2> ... <h6>, with or without attributes:
+		 * <hr>, <header> ... only begin the same way */
 		start = line.find(startTagValue);
+		while ( start != std::string::npos
+			&& ( line.size() < start + 4
+			|| line[start+2] < '2' || line[start+2] > '6'
+			|| ( line[start+3] != '>' && line[start+3] != ' ' ) ) )
+			start = line.find(startTagValue, start + 1);
 
-		/* line contains startTag  not found, just copy the line*/
-		if ( start == std::string::npos) {
+		int headerLevel = start == std::string::npos ? 0 : line[start+2];
+
+		/* line contains first '>' after startTag found ? */
+		if ( start != std::string::npos )
+			start = line.find('>', start + 1);
+		if ( start != std::string::npos )
+			end = line.find(endTagValue, start);
+
+		/* line contains no complete heading, just copy the line*/
+		if ( start == std::string::npos || end == std::string::npos ) {
 			/* if they is no content yet we go on with copy */
 			if (! haveContent ) {
 				page.push_back(line);
@@ -36,23 +50,9 @@ std::vector<std::string> parseHTMLDelimitedList
 			}
 			continue;
 		}
-		int headerLevel =  line[start+2];
-		/* line contains <h1>... is the title, this should happens only once */
-		if ( headerLevel == '1' ) {
-			page.push_back(line);
-			continue;
-		}
-
-		/* line contains first '>' after startTag found ? */
-		start = line.find('>', start + 1);
-		if ( start == std::string::npos) {
-			page.push_back(line);
-			continue;
-		}
 
 		/* start is pos of first character of our line to add into contents */
 		start++;
-		end = line.find(endTagValue);
 		/* line contains endTag
 		We store the line as it is*/
 		if ( end != std::string::npos) {
-- 
2.43.0


From b031a09ed6bc8eea66dbdfa532d5cbd5e40c9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 070/113] fix: web catalogue: text of the visitor and of the
 packages is no HTML

The name of a missing page and the searched text were written as they came
in the query: a link could make the site run any script.
---
 src/webcards.cxx | 18 ++++++++++++++++--
 src/webcards.h   |  9 ++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/webcards.cxx b/src/webcards.cxx
index 7be5c3c..8a43e94 100644
--- a/src/webcards.cxx
+++ b/src/webcards.cxx
@@ -7,6 +7,20 @@
 using namespace std;
 using namespace sql;
 
+std::string escapeHTML(const std::string& text)
+{
+	std::string escaped;
+	for (auto c : text) {
+		switch (c) {
+			case '&': escaped += "&amp;"; break;
+			case '<': escaped += "&lt;"; break;
+			case '>': escaped += "&gt;"; break;
+			case '"': escaped += "&quot;"; break;
+			default: escaped += c;
+		}
+	}
+	return escaped;
+}
 std::vector<std::string> parseHTMLDelimitedList
 (const std::vector<std::string>& text,
 	const std::string startTagValue,
@@ -221,7 +235,7 @@ void searchpkg(contentInfo_t &contentInfo, arguments_t &arguments)
 	contentInfo.text.push_back( "      <h4>Search ...</h4>");
 	contentInfo.text.push_back( "     <td>");
 	contentInfo.text.push_back( "        <input id=\"search-field\" type=\"text\" name=\"searchpkg\" size=\"18\" maxlength=\"200\" value=\""
-		+ arguments.packageSearch + "\" />");
+		+ escapeHTML(arguments.packageSearch) + "\" />");
 	contentInfo.text.push_back( "   </table>");
 	contentInfo.text.push_back( "  </fieldset>");
 	contentInfo.text.push_back( "  </form>");
@@ -539,7 +553,7 @@ int main (int argc, char** argv)
 	else
 	{
 		std::cout << "<h1>"
-			<< arguments.docName
+			<< escapeHTML(arguments.docName)
 			<< " is not existing yet</h1>"
 			<< std::endl;
 		for (auto i : Content["under-construction"].text)
diff --git a/src/webcards.h b/src/webcards.h
index 8732d62..1daf23a 100644
--- a/src/webcards.h
+++ b/src/webcards.h
@@ -15,11 +15,11 @@
 + "<td>" + i.second.collection() + "</td>" \
 + "<td> <a href=\"https://github.com/NuTyX/" + i.second.system() \
 + "/tree/" + i.second.branch() + "/" \
-+ i.second.collection() + "/" + basename + "\">" + name + "</a></td>" \
++ i.second.collection() + "/" + escapeHTML(basename) + "\">" + escapeHTML(name) + "</a></td>" \
 + "<td> <a href=\"https://github.com/NuTyX/" + i.second.system() \
 + "/commits/" + i.second.branch() + "/" \
-+ i.second.collection() + "/" + basename + "\">" + i.second.version() + "-" + itos(i.second.release()) + "</a></td>" \
-+ "<td>" + i.second.description() + "</td>" \
++ i.second.collection() + "/" + escapeHTML(basename) + "\">" + escapeHTML(i.second.version()) + "-" + itos(i.second.release()) + "</a></td>" \
++ "<td>" + escapeHTML(i.second.description()) + "</td>" \
 + "<td>" + getDateFromEpoch(i.second.build()) + "</td>")
 
 struct contentInfo_t {
@@ -37,6 +37,9 @@ struct arguments_t {
 };
 typedef std::map<std::string, contentInfo_t> content_t;
 
+/* text as it has to be written in a page or in the value of an attribute */
+std::string escapeHTML(const std::string& text);
+
 /* populate a vector of string with delimed string from an html formated text */
 std::vector<std::string> parseHTMLDelimitedList
 (const std::vector<std::string>& text, 
-- 
2.43.0


From 30ffc7530648ac599cbc5b1e124246ff2f061e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 071/113] fix: web catalogue: a search finds names written with
 upper case letters

The searched text is converted to lower case, the names were not.
---
 src/webcards.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/webcards.cxx b/src/webcards.cxx
index 8a43e94..ee34d4e 100644
--- a/src/webcards.cxx
+++ b/src/webcards.cxx
@@ -304,7 +304,7 @@ contentInfo_t getFormatedBinaryPackageList(arguments_t &arguments)
 
 	for (auto i : repoList.getListOfPackages()) {
 		if ( arguments.type == "col" ) {
-			if ( convertToLowerCase(search) == i.second.collection() ) {
+			if ( convertToLowerCase(search) == convertToLowerCase(i.second.collection()) ) {
 				if ( ( arguments.packageBranch != i.second.branch() ) &&
 					( arguments.packageBranch != "all" ) )
 					continue;
@@ -326,12 +326,12 @@ contentInfo_t getFormatedBinaryPackageList(arguments_t &arguments)
 				( arguments.packageSystem != "all" )  )
 				continue;
 			std::string::size_type pos;
-			pos = i.second.collection().find(convertToLowerCase(search));
+			pos = convertToLowerCase(i.second.collection()).find(convertToLowerCase(search));
 			if (pos != std::string::npos) {
 				INSERTPACKAGE(i.second.baseName(), i.second.baseName());
 				continue;
 			}
-			pos = i.second.baseName().find(convertToLowerCase(search));
+			pos = convertToLowerCase(i.second.baseName()).find(convertToLowerCase(search));
 			if (pos != std::string::npos) {
 				INSERTPACKAGE(i.second.baseName(), i.second.baseName());
 				continue;
-- 
2.43.0


From f34d3d13977fe508fdd2ff7e3584862817eed2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 072/113] fix: a date which cannot be represented is no crash

---
 src/file_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index a05c2c6..b940bcc 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -62,7 +62,7 @@ std::string getDateFromEpoch(const time_t& epoch)
 {
 	const struct tm* time = localtime(&epoch);
 	char datetime[100] = {0};
-	if ( strftime(datetime, 100, "%c", time) > 0 )
+	if ( time && strftime(datetime, 100, "%c", time) > 0 )
 		return datetime;
 	else
 		return "";
-- 
2.43.0


From 179fdd798667ad3d44e58de1800e3cd55fe45ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 073/113] fix: pkgmk: a failing locale function fails the build

The status looked at was the one of an assignment.
---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index bc215cd..c4fc276 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1022,8 +1022,8 @@ build_package() {
 			if [ "$(type -t locale_${group})" == "function" ]; then
 				BUILD_SUCCESSFUL="no"
 				(set -e -x ;locale_${group})
-				j=1
 				if [ $? = 0 ]; then
+					j=1
 					BUILD_SUCCESSFUL="yes"
 				else
 					remove_dependencies
-- 
2.43.0


From 555f23f6a3745811ca756ab1534d70210525e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 074/113] fix: pkgmk: pkgconfig files are not lost when the
 libraries are packed first

They were kept out of the library package and then removed with the rest of
the directory.
---
 scripts/pkgmk.in | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index c4fc276..928dc9c 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -517,7 +517,10 @@ remove_lib() {
 	for DIR in usr opt/*; do
 		for SUBDIR in lib lib64;do
 			if [ -d $DIR/$SUBDIR ]; then
-				rm -r $DIR/$SUBDIR
+				# pack_lib leaves pkgconfig to the other packages
+				find $DIR/$SUBDIR -mindepth 1 -maxdepth 1 ! -name pkgconfig \
+					-exec rm -r {} +
+				[ -d $DIR/$SUBDIR/pkgconfig ] || rm -r $DIR/$SUBDIR
 			fi
 		done
 	done
-- 
2.43.0


From 58db2e5957dd716d0db4e1f3acf6c450a602663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 075/113] fix: pkgmk: lists of several words in alias, set and
 run are kept

Without quotes the test fails and the whole list was left out of the meta data.
---
 scripts/pkgmk.in | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 928dc9c..2faa846 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -143,7 +143,7 @@ check_pkgfile() {
 				fi
 				( unset alias
 				. ../$p/$PKGMK_PKGFILE
-				if [ ! -z $alias ];then
+				if [ ! -z "$alias" ];then
 					for ca in ${alias}
 					do
 						if [ "$ca" == "$a" ];then
@@ -169,7 +169,7 @@ get_categories() {
 	for FILE in $(find $PKG/usr/share/applications -type f 2>/dev/null);do
 		CANDIDATS+=$(grep ^Categories $FILE|cut -d "=" -f2)
 	done
-	if [ ! -z $CANDIDATS ];then
+	if [ ! -z "$CANDIDATS" ];then
 		OLDIFS=$IFS
 		IFS=";"
 		CATEGORIES=$(for i in ${CANDIDATS[@]};do echo $i;done|sort|uniq)
@@ -619,7 +619,7 @@ remove_service() {
 	fi
 }
 build() {
-	if [ -z $build ]; then
+	if [ -z "$build" ]; then
 		# debian package is standard
 		if [ -f data.tar.xz ]; then
 			bsdtar -xf data.tar.xz -C $PKG
@@ -817,7 +817,7 @@ add_meta_to_archive() {
 		done
 		# We don't want any .devel dependencies here
 		sed -i '/^R[[a-z0-9]*[-_+]*]*\.devel/d' .META
-		if [ ! -z $run ] && [ "$NAME" == "$name" ]; then
+		if [ ! -z "$run" ] && [ "$NAME" == "$name" ]; then
 			info "Adding runtime deps to Archive $NAME"
 			for rd in ${run[@]}; do
 				if [ "$(echo $rd|cut -d "." -f1)" == "$name" ]; then
@@ -852,7 +852,7 @@ add_meta_to_archive() {
 			echo "l$lib" >> .META
 		done
 	fi
-	if [ ! -z $alias ]; then
+	if [ ! -z "$alias" ]; then
 		info "Adding Alias to Archive $NAME"
 		for al in ${alias[@]}; do
 			if [ -z "$GROUP" ];then
@@ -862,7 +862,7 @@ add_meta_to_archive() {
 			fi
 		done
 	fi
-	if [ ! -z $set ]; then
+	if [ ! -z "$set" ]; then
 		info "Adding Sets to Archive $NAME"
 		for i in ${set[@]}; do
 			echo "s$i" >> .META
@@ -1071,7 +1071,7 @@ build_package() {
 
 	if [ "$BUILD_SUCCESSFUL" = "yes" ]; then
 		if [ "$1" != "$TARGET" ]; then
-			if [ -z $categories ]; then
+			if [ -z "$categories" ]; then
 				info "trying to get categories..."
 				get_categories
 			fi
-- 
2.43.0


From 8165bef0a28cb519799b7e425b84892bc937598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 076/113] fix: pkgmk: categories of several desktop files are
 not glued together

---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 2faa846..38d9f49 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -167,7 +167,7 @@ get_package_version() {
 get_categories() {
 	local FILE CANDIDATS CATEGORIES OLDIFS
 	for FILE in $(find $PKG/usr/share/applications -type f 2>/dev/null);do
-		CANDIDATS+=$(grep ^Categories $FILE|cut -d "=" -f2)
+		CANDIDATS+="$(grep ^Categories $FILE|cut -d "=" -f2);"
 	done
 	if [ ! -z "$CANDIDATS" ];then
 		OLDIFS=$IFS
-- 
2.43.0


From 9259b8f42bcd3757ddabe7bd7e69d6b4478085d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 077/113] fix: pkgmk: only the records of the port are replaced
 in .REPO and .FILES

Records of ports whose names begin with the name of the port were deleted as
well, and a port without package got a record of a file called name*.cards-*.
---
 scripts/pkgmk.in | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 38d9f49..d74be2e 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1196,11 +1196,12 @@ update_repo_file() {
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
 	touch $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 
-	sed -i "/^@$name.*/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-	sed -i "/^@$name.*/,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
+	sed -i "/^@$name\./,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
+	sed -i "/^@$name\./,/^$/d" $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 
-	for TARGET in $PKGMK_PACKAGE_DIR/${name}*${PKGMK_PACKAGE_EXT}*
+	for TARGET in $PKGMK_PACKAGE_DIR/${name}{,.*}${PKGMK_PACKAGE_EXT}*
 	do
+		[ -f "$TARGET" ] || continue
 		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
 		echo "@$(basename $TARGET)" >> $PKGMK_PACKAGE_DIR/$PKGMK_FILES_FILE
 		$PKGMK_PKGINFO -m $TARGET   >> $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE
-- 
2.43.0


From 4a0a8d4d0c91d348c9ea6f73e542d94104261c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 078/113] fix: pkgmk: files in sbin end with the status of a
 failed build

No status was given, exit complained and ended with the one of a bad Pkgfile.
---
 scripts/pkgmk.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index d74be2e..2c6e9cc 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -29,7 +29,7 @@ error() {
 }
 abort_on_build() {
         error "$1"
-        exit $2
+        exit ${2:-$E_BUILD}
 }
 have_function() {
 	declare -f "$1" >/dev/null
-- 
2.43.0


From bbe9b900bf2911e7f5040d6c78b613cfb59cc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 079/113] fix: pkgmk: links to manual pages are not lost

Links to pages of another directory, to directories of pages and to links
which come later in the search were removed.
---
 scripts/pkgmk.in | 53 +++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 2c6e9cc..279a0d3 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -393,8 +393,33 @@ strip_files() {
 		esac
 	done
 }
+compress_links() {
+	local FILE DIR TARGET PLAIN
+
+	find . -type l -path "$1" | while read FILE; do
+		# Links to directories stay as they are
+		[ -d "$FILE" ] && continue
+		TARGET="$(readlink -n "$FILE")"
+		DIR="$(dirname "$FILE")"
+		PLAIN="${TARGET%%.gz}"
+
+		# The page is beside the link, or where a relative link says
+		case "$PLAIN" in
+			/*) PLAIN="${PLAIN##*/}" ;;
+			*)  [ -e "$DIR/$PLAIN.gz" ] || [ -L "$DIR/$PLAIN" ] || \
+				PLAIN="${PLAIN##*/}" ;;
+		esac
+		rm -f "$FILE"
+		FILE="${FILE%%.gz}.gz"
+
+		# The page can be a link which is not done yet
+		if [ -e "$DIR/$PLAIN.gz" ] || [ -L "$DIR/$PLAIN" ]; then
+			ln -sf "$PLAIN.gz" "$FILE"
+		fi
+	done
+}
 compress_manpages() {
-	local FILE DIR TARGET
+	local FILE
 
 	cd $PKG
 
@@ -403,36 +428,14 @@ compress_manpages() {
 			gzip -9 "$FILE"
 		fi
 	done
+	compress_links "*/share/man*/*"
 
-	find . -type l -path "*/share/man*/*" | while read FILE; do
-	TARGET="$(readlink -n "$FILE")"
-		TARGET="${TARGET##*/}"
-		TARGET="${TARGET%%.gz}.gz"
-		rm -f "$FILE"
-		FILE="${FILE%%.gz}.gz"
-		DIR="$(dirname "$FILE")"
-
-		if [ -e "$DIR/$TARGET" ]; then
-			ln -sf "$TARGET" "$FILE"
-		fi
-	done
 	find . -type f -path "*/share/info/*" | while read FILE; do
 		if [ "$FILE" = "${FILE%%.gz}" ]; then
 			gzip -9 "$FILE"
 		fi
 	done
-	find . -type l -path "*/share/info/*" | while read FILE; do
-		TARGET="$(readlink -n "$FILE")"
-		TARGET="${TARGET##*/}"
-		TARGET="${TARGET%%.gz}.gz"
-		rm -f "$FILE"
-		FILE="${FILE%%.gz}.gz"
-		DIR="$(dirname "$FILE")"
-
-		if [ -e "$DIR/$TARGET" ]; then
-			ln -sf "$TARGET" "$FILE"
-		fi
-	done
+	compress_links "*/share/info/*"
 }
 check_footprint() {
 	local TARGET FILE="$PKGMK_WORK_DIR/.tmp"
-- 
2.43.0


From 38cb45c71894711fc139b60ed716affa62563ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 080/113] fix: pkgmk: --recursive keeps the other options as
 they are

-r was cut out of --ignore-repo and of the name of the configuration file.
---
 scripts/pkgmk.in | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 279a0d3..2a4316c 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1133,16 +1133,22 @@ install_package() {
 	done
 }
 recursive() {
-	local ARGS FILE DIR
+	local ARG ARGS FILE DIR
 
-	ARGS="$(echo "$@" | sed -e "s/--recursive//g" -e "s/-r//g")"
+	ARGS=()
+	for ARG in "$@"; do
+		case $ARG in
+			-r|--recursive) ;;
+			*) ARGS+=("$ARG") ;;
+		esac
+	done
 
 	for FILE in $(find $PKGMK_ROOT -name $PKGMK_PKGFILE | sort); do
 		DIR="$(dirname $FILE)/"
 		if [ -d $DIR ]; then
 			[ "$PKGMK_QUIET" = "yes" ] || \
 			info "Entering directory '$DIR'."
-			(cd $DIR && $PKGMK_COMMAND $ARGS)
+			(cd $DIR && $PKGMK_COMMAND "${ARGS[@]}")
 			[ "$PKGMK_QUIET" = "yes" ] || \
 			info "Leaving directory '$DIR'."
 		fi
-- 
2.43.0


From 4cfb745ff42d36051db67f8ff382271669e94197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 081/113] fix: pkgmk: packages which were cleaned have no
 records in the .REPO file

---
 scripts/pkgmk.in | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 2a4316c..92b0bbb 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1459,6 +1459,7 @@ main() {
 	if [ "$PKGMK_CLEAN_ONLY" = "yes" ]; then
 		clean
 		remove_source
+		[ "$PKGMK_IGNORE_REPO" = "yes" ] || update_repo_file
 		exit 0
 	fi
 	if [ "$PKGMK_UPDATE_REPO" = "yes" ]; then
@@ -1599,9 +1600,6 @@ main() {
 	if [ "$PKGMK_KEEP_SOURCES" != "yes" ]; then
 		remove_source
 	fi
-	if [ "$PKGMK_IGNORE_REPO" != "yes" ]; then
-		update_repo_file
-	fi
 	if [ "$PKGMK_CLEAN" != "no" ]; then
 		clean
 		unset TARGETS
@@ -1609,6 +1607,9 @@ main() {
 			clean_repo_file
 		fi
 	fi
+	if [ "$PKGMK_IGNORE_REPO" != "yes" ]; then
+		update_repo_file
+	fi
 	exit 0
 }
 
-- 
2.43.0


From 852c1222fb3325aaf598597c18b76fc4c75f5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 082/113] fix: pkgmk: a compressed package can be up to date

---
 scripts/pkgmk.in | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index 92b0bbb..e7fa71e 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -1531,6 +1531,7 @@ main() {
 
 	if [ "$PKGMK_UP_TO_DATE" = "yes" ]; then
 		TARGET="$PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}$version-$release"
+		[ "$PKGMK_COMPRESS_PACKAGE" = "yes" ] && TARGET+=".$PKGMK_COMPRESSION_MODE"
 		if [ ! -f $TARGET ]; then
 			info "Package '$TARGET' is not up to date."
 			exit 0
@@ -1558,6 +1559,7 @@ main() {
 
 	# From here on check the base package not any group
 	TARGET="$PKGMK_PACKAGE_DIR/${name}${PKGMK_PACKAGE_EXT}$version-$release"
+	[ "$PKGMK_COMPRESS_PACKAGE" = "yes" ] && TARGET+=".$PKGMK_COMPRESSION_MODE"
 	if [ -f $TARGET ]; then
 		get_packages_list
 		FOUND=false
-- 
2.43.0


From b8dd45bf581d2e92d36cb603c761a59337dfd5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 083/113] fix: pkgmk: .la files are not packed into the groups
 neither

---
 scripts/pkgmk.in | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index e7fa71e..cf4e755 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -978,6 +978,7 @@ build_package() {
 		fi
 
 		compress_manpages
+		remove_la_libs
 		clean_old_binaries
 
 
@@ -1230,11 +1231,13 @@ clean_repo_file() {
 		info "Removing $PKGMK_PACKAGE_DIR/$PKGMK_REPO_FILE"
 	fi
 }
-check_build() {
-	local LIST
+remove_la_libs() {
 	if [ "$PKGMK_KEEP_LA_LIBS" != "yes" ]; then
 		find $PKG ! -type d -name "*.la" -exec rm -fv -- '{}' +
 	fi
+}
+check_build() {
+	local LIST
 	LIST="$(find $PKG ! -type d -name "*.la")"
 	if [ ! -z "$LIST" ]; then
 		warning "following files should be removed:"
-- 
2.43.0


From 3a8ddcc6a17ce6c0ab78593517843e96abf74cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 084/113] fix: pkgmk: a package of locales does not take the
 alias of the port

---
 scripts/pkgmk.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pkgmk.in b/scripts/pkgmk.in
index cf4e755..1b8c992 100755
--- a/scripts/pkgmk.in
+++ b/scripts/pkgmk.in
@@ -858,10 +858,10 @@ add_meta_to_archive() {
 	if [ ! -z "$alias" ]; then
 		info "Adding Alias to Archive $NAME"
 		for al in ${alias[@]}; do
-			if [ -z "$GROUP" ];then
+			if [ -z "$G" ];then
 				echo "A$al" >> .META
 			else
-				echo "A$al.$GROUP" >> .META
+				echo "A$al.${GROUP:-$NLS}" >> .META
 			fi
 		done
 	fi
-- 
2.43.0


From 2afd60aae3cb69de1d1c7c84506138da9127d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 085/113] fix: cards create: an error when the directory of the
 port cannot be entered

---
 src/pkgdbh.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 2b4f4e6..6a33694 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -67,6 +67,11 @@ void pkgdbh::treatErrors(const std::string& s) const
 			throw std::runtime_error(_("cannot find any depot, check your /etc/cards.conf file") + s);
 			break;
 		case ERROR_ENUM_CANNOT_CREATE_DIRECTORY:
+			throw RunTimeErrorWithErrno(_("could not create directory ") + s);
+			break;
+		case ERROR_ENUM_CANNOT_CHANGE_DIRECTORY:
+			throw RunTimeErrorWithErrno(_("could not change to directory ") + s);
+			break;
 		case ERROR_ENUM_CANNOT_GENERATE_LEVEL:
 			break;
 		case ERROR_ENUM_CANNOT_DOWNLOAD_FILE:
-- 
2.43.0


From 404b7e02a9d64d949d97a99398359b09978dbe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 086/113] fix: process: keep what a short-lived command writes

---
 src/process.cxx | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/process.cxx b/src/process.cxx
index ac099c9..b33002a 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -94,15 +94,15 @@ int process::execLog(const int argc, char** argv)
         char readbuf[1024];
         int bytes, wpval;
 
-        while ((wpval = waitpid(pid, &status, WNOHANG)) == 0) {
-            while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
-                readbuf[bytes] = 0;
-                printf("%s", readbuf);
-                fflush(stdout);
-                fflush(stderr);
-                write(m_fileDescriptorLog, readbuf, bytes);
-            }
+        // read until every writer has closed the pipe, then wait for the child
+        while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
+            readbuf[bytes] = 0;
+            printf("%s", readbuf);
+            fflush(stdout);
+            fflush(stderr);
+            write(m_fileDescriptorLog, readbuf, bytes);
         }
+        wpval = waitpid(pid, &status, 0);
         close(fdpipe[0]);
 
         if (wpval != pid) {
@@ -175,15 +175,15 @@ int process::execShellLog(const char* shell)
         char readbuf[1024];
         int bytes, wpval;
 
-        while ((wpval = waitpid(pid, &status, WNOHANG)) == 0) {
-            while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
-                readbuf[bytes] = 0;
-                printf("%s", readbuf);
-                fflush(stdout);
-                fflush(stderr);
-                write(m_fileDescriptorLog, readbuf, bytes);
-            }
+        // read until every writer has closed the pipe, then wait for the child
+        while ((bytes = read(fdpipe[0], readbuf, sizeof(readbuf) - 1)) > 0) {
+            readbuf[bytes] = 0;
+            printf("%s", readbuf);
+            fflush(stdout);
+            fflush(stderr);
+            write(m_fileDescriptorLog, readbuf, bytes);
         }
+        wpval = waitpid(pid, &status, 0);
         close(fdpipe[0]);
 
         if (wpval != pid) {
-- 
2.43.0


From dcf7cdff6bdfae52bb682069e963ec9cedd34cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 087/113] fix: process: a command ended by a signal did not
 succeed

---
 src/create.cxx  |  2 +-
 src/process.cxx | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/create.cxx b/src/create.cxx
index 7314221..ef4de00 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -628,7 +628,7 @@ void create::buildBinary(std::string packageName)
         break;
     }
 
-    if (result > 0) {
+    if (result != 0) {
         s += NORMAL;
         m_actualError = ERROR_ENUM_CANNOT_PARSE_FILE;
         treatErrors("Pkgfile: " + s);
diff --git a/src/process.cxx b/src/process.cxx
index b33002a..4535722 100644
--- a/src/process.cxx
+++ b/src/process.cxx
@@ -5,6 +5,20 @@
 
 #include "process.h"
 
+namespace {
+// The exit status of a command, as the shell gives it: a command which was
+// ended by a signal did not succeed.
+int exitStatus(int status)
+{
+    if (status == -1)
+        return -1;
+    if (WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+}
+
 process::process()
 {
 }
@@ -110,7 +124,7 @@ int process::execLog(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::exec(const int argc, char** argv)
@@ -132,7 +146,7 @@ int process::exec(const int argc, char** argv)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::executeShell()
@@ -191,7 +205,7 @@ int process::execShellLog(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
 
 int process::execShell(const char* shell)
@@ -213,5 +227,5 @@ int process::execShell(const char* shell)
                 status = -1;
         }
     }
-    return status / 256;
+    return exitStatus(status);
 }
-- 
2.43.0


From cbe500e1e463d4c9e2321f9a457161d276b4a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 088/113] fix: cards create: tell that a port does not exist

---
 src/pkgfile.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 5191c11..0bfd3d9 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -272,7 +272,11 @@ std::string pkgfile::pkgfile::getPortDir(const std::string& portName)
     if (m_listOfPackages.size() == 0)
         parse();
 
-    return m_listOfPackages[portName].collection() + "/" + portName;
+    auto port = m_listOfPackages.find(portName);
+    if (port == m_listOfPackages.end())
+        return "";
+
+    return port->second.collection() + "/" + portName;
 }
 unsigned short int pkgfile::pkgfile::getPortRelease(const std::string& portName)
 {
-- 
2.43.0


From 8f9e5d6eb0ed01e68ebdef26af48e70dcef42d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 089/113] fix: cards create: --dry builds and removes nothing
 for a port either

---
 src/create.cxx | 12 ++++++++++++
 src/create.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index ef4de00..f3eee68 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -32,6 +32,8 @@ create::create(CardsArgumentParser& argParser)
     }
     if (isACollection())
         buildCollection();
+    else if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
+        dryBuildBinary(m_argParser.otherArguments()[0]);
     else
         buildBinary(m_argParser.otherArguments()[0]);
 }
@@ -532,6 +534,16 @@ void create::buildCollection()
         }
     }
 }
+void create::dryBuildBinary(const std::string& packageName)
+{
+    if (m_pkgfile.getPortDir(packageName).empty()) {
+        m_actualError = ERROR_ENUM_PACKAGE_NOT_FOUND;
+        treatErrors(packageName);
+    }
+    std::cout << packageName
+        << " ===> SHOULD BE BUILD !"
+        << std::endl;
+}
 void create::buildBinary(std::string packageName)
 {
     if (m_config.logdir() != "") {
diff --git a/src/create.h b/src/create.h
index 6142b1b..9cdc993 100644
--- a/src/create.h
+++ b/src/create.h
@@ -31,6 +31,7 @@ class create : public pkgadd {
     void buildCollection();
     void base();
     void buildBinary(std::string packageName);
+    void dryBuildBinary(const std::string& packageName);
     void core();
     void getLocalePackagesList();
     void run();
-- 
2.43.0


From a70154d478e45e61c4c397f526283edb194f660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:15 +0000
Subject: [PATCH 090/113] fix: a read error does not make the programs loop for
 ever

---
 src/file_utils.cxx   |  4 ++--
 src/pkgdbh.cxx       | 13 ++++++++++---
 src/string_utils.cxx |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index b940bcc..5dd5652 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -118,7 +118,7 @@ bool checkFilesEqual(const std::string& file1, const std::string& file2)
     if (!f1 || !f2)
       return false;
 
-    while (!f1.eof()) {
+    while (f1.good()) {
       char buffer1[length];
       char buffer2[length];
       f1.read(buffer1, length);
@@ -129,7 +129,7 @@ bool checkFilesEqual(const std::string& file1, const std::string& file2)
         return false;
     }
 
-    return true;
+    return !f1.bad() && !f2.bad();
   }
   // Symlinks
   else if (S_ISLNK(buf1.st_mode) && S_ISLNK(buf2.st_mode)) {
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 6a33694..4f1d92f 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -438,7 +438,7 @@ pkgdbh::getSetOfFiles(const std::string& packageName)
 	if (!in)
 		throw RunTimeErrorWithErrno("could not read " + fileslist);
 
-	while (!in.eof()){
+	while (in.good()){
 	// read alls the files for alls the packages founds
 	for (;;) {
 			std::string file;
@@ -448,6 +448,9 @@ pkgdbh::getSetOfFiles(const std::string& packageName)
 			packageFiles.insert(file);
 		}
 	}
+	if (in.bad())
+		throw RunTimeErrorWithErrno("could not read " + fileslist);
+
 	return packageFiles;
 }
 /**
@@ -643,7 +646,7 @@ void pkgdbh::buildDatabase(const bool& files)
 			if (!in)
 				throw RunTimeErrorWithErrno("could not read " + filelist);
 
-			while (!in.eof()){
+			while (in.good()){
 			// read alls the files for alls the packages founds
 				for (;;) {
 					std::string file;
@@ -653,6 +656,8 @@ void pkgdbh::buildDatabase(const bool& files)
 					info.files.insert(info.files.end(), file);
 				}
 			}
+			if (in.bad())
+				throw RunTimeErrorWithErrno("could not read " + filelist);
 		}
 
 		m_listOfPackages[i] = info;
@@ -1382,9 +1387,11 @@ const void pkgdbh::readRulesFile()
 	std::ifstream in(filename);
 
 	if (in) {
-		while (!in.eof()) {
+		while (in.good()) {
 			std::string line;
 			getline(in, line);
+			if (in.bad())
+				throw RunTimeErrorWithErrno("could not read " + filename);
 			linecount++;
 			if (!line.empty() && line[0] != '#') {
 				if (line.length() >= PKGADD_CONF_MAXLINE) {
diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 10365cc..26bf9c9 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -51,7 +51,7 @@ std::set<std::string> getKeysList(std::string file, std::string delimiter)
   std::ifstream in(file.c_str());
   std::string line, property;
   if (in) {
-    while (!in.eof()) {
+    while (in.good()) {
       getline(in, line);
       if ((line[0] != '#' ) && ( line.find(delimiter) > 0) && ( line.size() > 0)) {
         property = line;
@@ -70,7 +70,7 @@ std::string getValueOfKey(std::string file, char delimiter,std::string parameter
   std::string line;
   keyValue pv;
   if (in) {
-    while (!in.eof()) {
+    while (in.good()) {
       getline(in, line);
 			if ((line[0] != '#' ) && ( line.find(delimiter) > 0) && ( line.size() > 0)) {
         pv = splitKeyValue(stripWhiteSpace(line),delimiter);
-- 
2.43.0


From 2f33a872252411e45fb44498b050972012e67f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 091/113] fix: createRecursiveDirs: no overflow with a long
 path

---
 src/file_utils.cxx | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 5dd5652..bbd9de7 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -261,27 +261,22 @@ int findDir(std::set<std::string>& filesList, const std::string& path)
 }
 bool createRecursiveDirs(const std::string& path)
 {
-  char opath[MAXPATHLEN];
-  char *p;
-  size_t len;
-  strcpy(opath, path.c_str());
-  len = strlen(opath);
-  if ( len > 1)
+  std::string opath(path);
+  if (opath.length() > 1)
   {
-    if(opath[len - 1] == '/')
-      opath[len - 1] = '\0';
-    for(p = opath; *p; p++)
+    if(opath[opath.length() - 1] == '/')
+      opath.erase(opath.length() - 1);
+    for(std::string::size_type p = 0; p < opath.length(); p++)
     {
-      if(*p == '/')
+      if(opath[p] == '/')
       {
-        *p='\0';
-        if(access(opath, 0))
-          mkdir(opath,S_CARDS_MODE);
-        *p = '/';
+        const std::string parent = opath.substr(0, p);
+        if(access(parent.c_str(), 0))
+          mkdir(parent.c_str(),S_CARDS_MODE);
       }
     }
-    if(access(opath, 0))
-      mkdir(opath,S_CARDS_MODE);
+    if(access(opath.c_str(), 0))
+      mkdir(opath.c_str(),S_CARDS_MODE);
     return true;
   }
   return false;
-- 
2.43.0


From eb55855ce731ce5d2ca28e297d1399965aad51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 092/113] fix: findRecursiveFile: no cut off path when it gets
 too long

---
 src/file_utils.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index bbd9de7..6596093 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -309,7 +309,12 @@ int findRecursiveFile(std::set<std::string>& filenameList, const char *filename,
 			continue;
 		if (!strcmp(dent->d_name, ".") || !strcmp(dent->d_name, ".."))
 			continue;
-		strncpy(fn + len, dent->d_name, FILENAME_MAX - len);
+		if (len + strlen(dent->d_name) >= FILENAME_MAX)
+		{
+			res = WALK_NAMETOOLONG;
+			continue;
+		}
+		strcpy(fn + len, dent->d_name);
 		if (lstat(fn, &st) == -1)
 		{
 			warn("Can't stat %s", fn);
-- 
2.43.0


From 5817668ddce41a0b420472bd370e2bd611e4afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:52 +0000
Subject: [PATCH 093/113] fix: copyFile tells when a file could not be copied

---
 src/file_utils.cxx | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 6596093..fefb755 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -223,22 +223,35 @@ void removeFile(const std::string& basedir, const std::string& filename)
 int copyFile( const char *  destFile, const char *  origFile)
 {
 	FILE * infile  = fopen(origFile,  "rb");
+	if (!infile)
+		return -1;
+
 	FILE * outfile = fopen(destFile, "wb");
+	if (!outfile) {
+		fclose(infile);
+		return -1;
+	}
 
 	char buffer[BUFSIZ];
+	bool done = true;
+	size_t n;
 
-	while (!feof(infile)) {
-		int n = fread(buffer, 1, BUFSIZ, infile);
-		fwrite(buffer, 1, n, outfile);
+	while ((n = fread(buffer, 1, BUFSIZ, infile)) > 0) {
+		if (fwrite(buffer, 1, n, outfile) != n) {
+			done = false;
+			break;
+		}
 	}
-
-	fflush(outfile);
+	if (ferror(infile))
+		done = false;
 
 	fclose(infile);
-	fclose(outfile);
-	return 0;
+	if (fclose(outfile) != 0)
+		done = false;
+
+	return done ? 0 : -1;
 }
-	
+
 int findDir(std::set<std::string>& filesList, const std::string& path)
 {
   DIR *d;
-- 
2.43.0


From 7f5ab2aab96f4a431f9ac296309b0097cf814671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:10 +0000
Subject: [PATCH 094/113] fix: compare device nodes by the device they stand
 for

checkFilesEqual compared the device holding the nodes, so two different
device nodes with the same permissions counted as equal, and the one of an
upgrade was dropped instead of being left under rejected.
---
 src/file_utils.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index fefb755..704685d 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -149,11 +149,11 @@ bool checkFilesEqual(const std::string& file1, const std::string& file2)
   }
   // Character devices
   else if (S_ISCHR(buf1.st_mode) && S_ISCHR(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
   // Block devices
   else if (S_ISBLK(buf1.st_mode) && S_ISBLK(buf2.st_mode)) {
-    return buf1.st_dev == buf2.st_dev;
+    return buf1.st_rdev == buf2.st_rdev;
   }
 
   return false;
-- 
2.43.0


From 935cf6585050b576a6bfb280296e89dcc67141e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 095/113] fix: sizes of packages of 4 GiB and more

The sizes of packages and of their archives were read with atoi and kept in an
unsigned int, so what cards info, cards diff and pkginfo -d show was wrong
from 2 GiB (archives) or 4 GiB on.
---
 src/db.cxx      |  4 ++--
 src/db.h        |  6 +++---
 src/pkgdbh.cxx  |  2 +-
 src/pkgrepo.cxx |  8 ++++----
 src/pkgrepo.h   | 10 +++++-----
 src/repo.cxx    |  2 +-
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/db.cxx b/src/db.cxx
index 5e27ea9..adf7756 100644
--- a/src/db.cxx
+++ b/src/db.cxx
@@ -14,11 +14,11 @@ db::~db()
 {
 	//nothing todo ATM
 }
-void db::space(unsigned int space)
+void db::space(unsigned long space)
 {
 	m_space = space;
 }
-unsigned int db::space()
+unsigned long db::space()
 {
 	return m_space;
 }
diff --git a/src/db.h b/src/db.h
index 57e7740..50734bb 100644
--- a/src/db.h
+++ b/src/db.h
@@ -8,7 +8,7 @@ namespace cards {
 
 class db : public pkg
 {
-	unsigned int			m_space;      // disk occupation onces installed
+	unsigned long			m_space;      // disk occupation onces installed
 	time_t					m_install;    // date of last installation
 	bool					m_dependency; // If TRUE it's automatically installed, it's a dep
 
@@ -20,14 +20,14 @@ public:
 	~db();
 	
 	time_t 					install();
-	unsigned int 			space();
+	unsigned long 			space();
 	bool 					dependency();
 	std::set<std::string>	files;
 	std::set<std::pair<std::string,time_t>>&
 							dependencies();
 
 	void					install(time_t time);
-	void					space(unsigned int space); 
+	void					space(unsigned long space); 
 	void					dependency(bool dependency);
 	void					dependencies(const std::set<std::pair<std::string,time_t>> dependencies);
 
diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index 4f1d92f..d3e4ee5 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -564,7 +564,7 @@ void pkgdbh::buildDatabase(const bool& files)
 					continue;
 
 				case SPACE:
-					info.space(atoi(s.substr(1).c_str()));
+					info.space(strtoul(s.substr(1).c_str(), nullptr, 10));
 					continue;
 
 				case ALIAS:
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index bc52757..d3a44f5 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -430,7 +430,7 @@ void pkgrepo::parse()
                     info.release(atoi(p.substr(1).c_str()));
                     continue;
                 case SPACE:
-                    info.space(atoi(p.substr(1).c_str()));
+                    info.space(strtoul(p.substr(1).c_str(), nullptr, 10));
                     continue;
                 case ARCHITECTURE:
                     info.arch(p.substr(1));
@@ -497,7 +497,7 @@ void pkgrepo::parse()
                     info.signature(p.substr(1));
                     continue;
                 case SIZE:
-                    info.size(atoi(p.substr(1).c_str()));
+                    info.size(strtoul(p.substr(1).c_str(), nullptr, 10));
                     continue;
                 }
             }
@@ -711,12 +711,12 @@ std::string& pkgrepo::dirName(const std::string& name)
 
     return m_packageDirName;
 }
-unsigned int pkgrepo::getSpace(const std::string& name)
+unsigned long pkgrepo::getSpace(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].space();
 }
-unsigned int pkgrepo::getSize(const std::string& name)
+unsigned long pkgrepo::getSize(const std::string& name)
 {
     parse();
     return m_listOfPackages[name].size();
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index 4fb5b90..f0711c6 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -23,9 +23,9 @@ struct m_package {
 	time_t available_build;
 	std::string installed_version;
 	std::string available_version;
-	unsigned int installed_space;
-	unsigned int available_space;
-	unsigned int available_size;
+	unsigned long installed_space;
+	unsigned long available_space;
+	unsigned long available_size;
 	StatusEnumUpgrade status;
 
 };
@@ -165,8 +165,8 @@ public:
     std::string&             fileSignature(const std::string& name);
     std::string&             fileHash(const std::string& name);
     std::string&             getBinaryPackageInfo(const std::string& name);
-    unsigned int             getSpace(const std::string& name);
-    unsigned int             getSize(const std::string& name);
+    unsigned long            getSpace(const std::string& name);
+    unsigned long            getSize(const std::string& name);
     std::string&             version(const std::string& name);
     unsigned short int       release(const std::string& name);
 
diff --git a/src/repo.cxx b/src/repo.cxx
index a118c36..5a8fc0d 100644
--- a/src/repo.cxx
+++ b/src/repo.cxx
@@ -108,7 +108,7 @@ repo::repo(const CardsArgumentParser& argParser,
                 fwrite(file.c_str(),1, file.size(),mp);
 
                 file = SIZE
-                    + itos(buf.st_size)
+                    + ultos(buf.st_size)
                     + "\n";
                 fwrite(file.c_str(),1, file.size(),mp);
 
-- 
2.43.0


From c9f7c8233ecf3277886dd9fff579f84c46a13af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 096/113] fix: cards diff counts the size of the obsolete
 packages it will remove

---
 src/diff.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diff.cxx b/src/diff.cxx
index 21f10d6..455c185 100644
--- a/src/diff.cxx
+++ b/src/diff.cxx
@@ -64,6 +64,7 @@ diff::diff(const CardsArgumentParser& argParser,
 			}
 		} else {
 			if(i.second.dependency()) {
+				packageNameToDeal.installed_space = i.second.space();
 				++m_packagesObsolet;
 				packageNameToDeal.status = STATUS_ENUM_UPG_OBSOLET;
 			} else {
-- 
2.43.0


From 9dbd82f32156b9036931d5bba0b284bf7f86839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 097/113] fix: ultos wrote behind its buffer for numbers of 20
 digits

---
 src/string_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils.cxx b/src/string_utils.cxx
index 26bf9c9..51edfa4 100644
--- a/src/string_utils.cxx
+++ b/src/string_utils.cxx
@@ -113,7 +113,7 @@ std::string itos(unsigned int value)
 
 std::string ultos(unsigned long int value)
 {
-	static char buf[20];
+	static char buf[24];
 	sprintf(buf, "%lu", value);
 	return buf;
 }
-- 
2.43.0


From ef720cf90324e8755c3ece788dbcd4c81207a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:56 +0000
Subject: [PATCH 098/113] fix: release numbers above 65535

---
 src/pkg.cxx     | 4 ++--
 src/pkg.h       | 6 +++---
 src/pkgfile.cxx | 2 +-
 src/pkgfile.h   | 2 +-
 src/pkgrepo.cxx | 2 +-
 src/pkgrepo.h   | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pkg.cxx b/src/pkg.cxx
index 6ee080e..4043073 100644
--- a/src/pkg.cxx
+++ b/src/pkg.cxx
@@ -68,11 +68,11 @@ void pkg::hash(const std::string& hash)
 {
 	m_hash = hash;
 }
-void pkg::release(unsigned short int release)
+void pkg::release(unsigned int release)
 {
 	m_release = release;
 }
-unsigned short int pkg::release()
+unsigned int pkg::release()
 {
 	return m_release;
 }
diff --git a/src/pkg.h b/src/pkg.h
index 7cb4fb5..a2b38e3 100644
--- a/src/pkg.h
+++ b/src/pkg.h
@@ -17,7 +17,7 @@ class pkg
 	std::string 			m_contributors;
 
 	std::string 			m_version;
-	unsigned short int		m_release;
+	unsigned int		m_release;
 
 	std::set<std::string>   m_libs;
 	std::set<std::string> 	m_alias;
@@ -50,7 +50,7 @@ public:
 	const std::string&		contributors();
 
 	const std::string& 		version();
-	unsigned short int 		release();
+	unsigned int 		release();
 
 	const std::string&		group();
 	const std::string&		nls();
@@ -77,7 +77,7 @@ public:
 	void					contributors(const std::string& contributors);
 
 	void					version(const std::string& version);
-	void					release(unsigned short int release);
+	void					release(unsigned int release);
 
 	void					libs(const std::set<std::string>& libs);
 	void					alias(const std::set<std::string>& alias);
diff --git a/src/pkgfile.cxx b/src/pkgfile.cxx
index 0bfd3d9..57d22a6 100644
--- a/src/pkgfile.cxx
+++ b/src/pkgfile.cxx
@@ -278,7 +278,7 @@ std::string pkgfile::pkgfile::getPortDir(const std::string& portName)
 
     return port->second.collection() + "/" + portName;
 }
-unsigned short int pkgfile::pkgfile::getPortRelease(const std::string& portName)
+unsigned int pkgfile::pkgfile::getPortRelease(const std::string& portName)
 {
     if (m_listOfPackages.size() == 0)
         parse();
diff --git a/src/pkgfile.h b/src/pkgfile.h
index 9db482b..3e46238 100644
--- a/src/pkgfile.h
+++ b/src/pkgfile.h
@@ -154,7 +154,7 @@ public:
      * return the release of the port name
      *
      */
-    unsigned short int          getPortRelease(const std::string& portName);
+    unsigned int          getPortRelease(const std::string& portName);
 
     /**
      * return true if port name exist
diff --git a/src/pkgrepo.cxx b/src/pkgrepo.cxx
index d3a44f5..fc0e735 100644
--- a/src/pkgrepo.cxx
+++ b/src/pkgrepo.cxx
@@ -763,7 +763,7 @@ std::string& pkgrepo::version(const std::string& name)
     m_packageVersion = m_listOfPackages[name].version();
     return m_packageVersion;
 }
-unsigned short int pkgrepo::release(const std::string& name)
+unsigned int pkgrepo::release(const std::string& name)
 {
     parse();
 
diff --git a/src/pkgrepo.h b/src/pkgrepo.h
index f0711c6..d9206ef 100644
--- a/src/pkgrepo.h
+++ b/src/pkgrepo.h
@@ -168,7 +168,7 @@ public:
     unsigned long            getSpace(const std::string& name);
     unsigned long            getSize(const std::string& name);
     std::string&             version(const std::string& name);
-    unsigned short int       release(const std::string& name);
+    unsigned int       release(const std::string& name);
 
     std::vector<std::string> getListOfGroups();
     std::set<std::string>&   getListOfFiles(const std::string& name);
-- 
2.43.0


From 149b0cdeb155fcae11346676071f704d01e6da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 099/113] fix: the name of a package goes before an alias of
 another one

---
 src/pkgdbh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgdbh.cxx b/src/pkgdbh.cxx
index d3e4ee5..a6d4456 100644
--- a/src/pkgdbh.cxx
+++ b/src/pkgdbh.cxx
@@ -569,7 +569,9 @@ void pkgdbh::buildDatabase(const bool& files)
 
 				case ALIAS:
 					alias.insert(s.substr(1));
-					m_listOfAlias[s.substr(1)] = i;
+					// the name of a package goes before the alias of another one
+					if (m_listOfPackagesNames.find(s.substr(1)) == m_listOfPackagesNames.end())
+						m_listOfAlias[s.substr(1)] = i;
 					continue;
 
 				case CATEGORIES:
-- 
2.43.0


From 4c822b03ad3fbfd5864933cdbde3ad6e52d5237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 100/113] fix: the remove scripts of an interrupted
 installation went to the next package

---
 src/file_utils.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/file_utils.cxx b/src/file_utils.cxx
index 704685d..7a25e30 100644
--- a/src/file_utils.cxx
+++ b/src/file_utils.cxx
@@ -199,6 +199,18 @@ void cleanupMetaFiles(const std::string& basedir)
 #endif
 		remove( (basedir + "/.POST").c_str() );
 	}
+	if ( checkFileExist ( basedir + "/.PRER" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.PRER removed" << std::endl;
+#endif
+		remove( (basedir + "/.PRER").c_str() );
+	}
+	if ( checkFileExist ( basedir + "/.POSTR" ) ) {
+#ifdef DEBUG
+		std::cerr << basedir << "/.POSTR removed" << std::endl;
+#endif
+		remove( (basedir + "/.POSTR").c_str() );
+	}
 	if ( checkFileExist ( basedir + "/.MTREE" ) ) {
 #ifdef DEBUG
 		std::cerr << basedir << "/.MTREE removed" << std::endl;
-- 
2.43.0


From 475fe0ca9f04ecd3566791d00c99d710a8aee6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:55 +0000
Subject: [PATCH 101/113] fix: the messages of cards took an option before the
 command for the command

---
 src/cards.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cards.cxx b/src/cards.cxx
index 8f79987..e60d049 100644
--- a/src/cards.cxx
+++ b/src/cards.cxx
@@ -28,7 +28,12 @@ using namespace std;
 
 int main(int argc, char** argv)
 {
-    string command = basename(argv[1]);
+    // The command is the first non-option argument
+    string command;
+    for (int i = 1; i < argc && command.empty(); ++i)
+        if (argv[i][0] != '-')
+            command = basename(argv[i]);
+
     setlocale(LC_ALL, "");
     bindtextdomain(GETTEXT_PACKAGE, PACKAGE_LOCALE_DIR);
     textdomain(GETTEXT_PACKAGE);
-- 
2.43.0


From eb5ae73328cf0a6fb27a1daefefc1c9d20a20feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:29 +0000
Subject: [PATCH 102/113] fix: cards create: the libraries of a .lib package
 were checked only up to the first one found

---
 src/create.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/create.cxx b/src/create.cxx
index f3eee68..b6dbac2 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -451,8 +451,8 @@ void create::buildCollection()
             if (m_pkgrepo.checkBinaryExist(iLib)) {
                 std::cout << "Checking: " << iLib << std::endl;
                 // and check if all libs of i-lib exists
-                found = false;
                 for (auto lib : m_pkgrepo.getLibs(iLib)) {
+                    found = false;
                     for (auto dep : m_pkgrepo.getDependenciesList(iLib)) {
                         for (auto file : m_pkgrepo.getListOfFiles(dep.first)) {
                             if (file.find('/' + lib) != std::string::npos) {
-- 
2.43.0


From cad959cff641c56d87c9e3f98faef012d75a4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:28 +0000
Subject: [PATCH 103/113] fix: cards create: after a build, the libraries of
 the ports that follow were said to be missing

---
 src/create.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/create.cxx b/src/create.cxx
index b6dbac2..95dd216 100644
--- a/src/create.cxx
+++ b/src/create.cxx
@@ -312,6 +312,7 @@ void create::buildCollection()
             if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
                 continue;
             buildBinary(i);
+            m_pkgrepo.parseFiles();
             continue;
         }
         ArchiveFile = m_pkgrepo.dirName(i)
@@ -325,6 +326,7 @@ void create::buildCollection()
             if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
                 continue;
             buildBinary(i);
+            m_pkgrepo.parseFiles();
             continue;
         }
         if (m_pkgrepo.version(i) != m_pkgfile.getPortVersion(i)) {
@@ -339,6 +341,7 @@ void create::buildCollection()
             if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
                 continue;
             buildBinary(i);
+            m_pkgrepo.parseFiles();
             continue;
         }
         if (m_pkgrepo.release(i) != m_pkgfile.getPortRelease(i)) {
@@ -357,6 +360,7 @@ void create::buildCollection()
             if (m_argParser.isSet(CardsArgumentParser::OPT_DRY))
                 continue;
             buildBinary(i);
+            m_pkgrepo.parseFiles();
             continue;
         }
         // Last chance for build the i package
-- 
2.43.0


From 6195d94498ec59eff5256154f4dcae7447f423a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:52 +0000
Subject: [PATCH 104/113] fix: show the progress of the graphical client with
 less than 100 packages

It divides by the number of installed packages divided by 100, so every
installation or removal ends the client (SIGFPE) on a system with less
than 100 packages; with more the percentages go past 100.
---
 fltk/cards_client.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fltk/cards_client.cxx b/fltk/cards_client.cxx
index 189e6fc..150f11b 100644
--- a/fltk/cards_client.cxx
+++ b/fltk/cards_client.cxx
@@ -102,13 +102,23 @@ namespace cards
 			int i;
 			switch ( m_actualAction )
 			{
+			case cards::ACTION_ENUM_DB_OPEN_START:
+			{
+				j = 0;
+				break;
+			}
 			case cards::ACTION_ENUM_DB_OPEN_RUN:
 			{
-				i = j / ( getNumberOfPackages() / 100);
+				i = j * 100 / std::max(1u, getNumberOfPackages());
 				Value = i;
 				j++;
 				break;
 			}
+			case cards::ACTION_ENUM_PKG_INSTALL_START:
+			{
+				j = 0;
+				break;
+			}
 			case cards::ACTION_ENUM_PKG_INSTALL_RUN:
 			{
 				if (getNumberOfFiles() > 100)
@@ -140,6 +150,9 @@ namespace cards
 					break;
 				}
 			}
+			// Neither the number of files of the last package
+			// nor a division rounded down may lead further
+			Value = std::min(Value, 100);
 			for (cards_clientEvents* it : m_arrCallback)
 			{
 				it->OnProgressInfo(Value);
-- 
2.43.0


From b1467aa526e54f576bae01ef0b7078b1d8310294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:52 +0000
Subject: [PATCH 105/113] fix: clear the packages marked to remove as well

An installed package marked to remove has two status bits set, so that
comparing the status with the mark alone never clears it: it is removed
with the next selection processed.
---
 fltk/cards_wrapper.cxx | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/fltk/cards_wrapper.cxx b/fltk/cards_wrapper.cxx
index fd91ac7..0d37ae2 100644
--- a/fltk/cards_wrapper.cxx
+++ b/fltk/cards_wrapper.cxx
@@ -118,14 +118,8 @@ namespace cards
             return;
         for (cards::cache* it:m_arrPackages)
         {
-            if (it->status() == cards::STATUS_ENUM_TO_INSTALL)
-            {
-                it->unsetStatus(cards::STATUS_ENUM_TO_INSTALL);
-            }
-            if (it->status() == cards::STATUS_ENUM_TO_REMOVE)
-            {
-                it->unsetStatus(cards::STATUS_ENUM_TO_REMOVE);
-            }
+            it->unsetStatus(cards::STATUS_ENUM_TO_INSTALL);
+            it->unsetStatus(cards::STATUS_ENUM_TO_REMOVE);
         }
         refreshJobList();
     }
-- 
2.43.0


From 3d80e4e1c1ee44bc9695db73cf61b724ae2343da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:52 +0000
Subject: [PATCH 106/113] fix: let a dependency the graphical client upgrades
 stay what it was

As cards install does: a package installed on purpose is not marked as
automatically installed because something needs a newer build of it.
---
 fltk/cards_client.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fltk/cards_client.cxx b/fltk/cards_client.cxx
index 150f11b..79d2e4a 100644
--- a/fltk/cards_client.cxx
+++ b/fltk/cards_client.cxx
@@ -49,7 +49,8 @@ namespace cards
             {
                 m_upgrade = false;
             }
-            if (i.second > 0)
+            // An upgraded package stays what it was
+            if (i.second > 0 && !m_upgrade)
                 setDependency();
 
             // We don't want to have trouble with conflict files,
-- 
2.43.0


From 3c1e2138647c4b4af528d66663f201425428a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:52 +0000
Subject: [PATCH 107/113] fix: report a failed synchronisation to the windows

It was logged and then reported as successful.
---
 fltk/cards_wrapper.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fltk/cards_wrapper.cxx b/fltk/cards_wrapper.cxx
index 0d37ae2..dac37c7 100644
--- a/fltk/cards_wrapper.cxx
+++ b/fltk/cards_wrapper.cxx
@@ -206,6 +206,7 @@ namespace cards
             catch (std::exception& e)
             {
                 m_log->log(_("Exception occured during Sync thread : ") + std::string(e.what()), LEVEL_ERROR);
+                rc= CEH_RC::EXCEPTION;
             }
         }
         else
-- 
2.43.0


From f1e729501c80050029f1adbc7983d1709e41767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:37 +0000
Subject: [PATCH 108/113] fix: run one job of the graphical client at a time

The end of the package list's refresh declared the job list finished
while it was not, and a job counted as running only some time after its
start, so that a second one could be started meanwhile.
---
 fltk/cards_wrapper.cxx | 17 +++++++++++------
 fltk/cards_wrapper.h   |  4 +++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/fltk/cards_wrapper.cxx b/fltk/cards_wrapper.cxx
index dac37c7..eb8b396 100644
--- a/fltk/cards_wrapper.cxx
+++ b/fltk/cards_wrapper.cxx
@@ -139,6 +139,7 @@ namespace cards
     {
         if (m_IsThreadFree())
         {
+            m_job_running = true;
             m_job = new std::thread(&cards_wrapper::m_Sync_Thread, cards_wrapper::m_ptcards_wrapper);
             m_job->detach();
 //            m_log->log(_("Synchronization started ..."));
@@ -150,6 +151,7 @@ namespace cards
     {
         if (m_IsThreadFree())
         {
+            m_job_running = true;
             m_job = new std::thread(&cards_wrapper::m_DoJobList_Thread, cards_wrapper::m_ptcards_wrapper);
             m_job->detach();
         }
@@ -160,6 +162,7 @@ namespace cards
     {
         if (m_IsThreadFree())
         {
+            m_job_running = true;
             m_job = new std::thread(&cards_wrapper::m_RefreshPackageList_Thread, cards_wrapper::m_ptcards_wrapper);
             m_job->detach();
         }
@@ -169,6 +172,7 @@ namespace cards
     {
         if (m_IsThreadFree())
         {
+            m_job_running = true;
             m_job = new std::thread(&cards_wrapper::m_GetPackageInfo_Thread, cards_wrapper::m_ptcards_wrapper,pName);
             m_job->detach();
         }
@@ -176,7 +180,6 @@ namespace cards
 
     void cards_wrapper::m_GetPackageInfo_Thread(std::string pName)
     {
-        m_job_running =true;
         cards::cache Package;
         cards::cache* Pack = getPackage(pName);
         if (Pack != nullptr) Package = *Pack;
@@ -194,7 +197,6 @@ namespace cards
     /** Launch a Cards Sync operation*/
     void cards_wrapper::m_Sync_Thread()
     {
-        m_job_running = true;
         CEH_RC rc=CEH_RC::OK;
         if (m_checkRootAccess())
         {
@@ -222,7 +224,6 @@ namespace cards
     /** Launch a Cards Sync operation*/
     void cards_wrapper::m_DoJobList_Thread()
     {
-        m_job_running =true;
         CEH_RC rc=CEH_RC::OK;
         if (m_checkRootAccess())
         {
@@ -257,7 +258,7 @@ namespace cards
                 m_log->log("Exception occured during processing job list Thread : " + std::string(e.what()), LEVEL_ERROR);
                 rc= CEH_RC::EXCEPTION;
             }
-            m_RefreshPackageList_Thread();
+            m_RefreshPackageList();
         }
         else
         {
@@ -274,7 +275,12 @@ namespace cards
     /** Threaded task to refresh the package image container*/
     void cards_wrapper::m_RefreshPackageList_Thread()
     {
-        m_job_running =true;
+        m_RefreshPackageList();
+        m_job_running =false;
+    }
+
+    void cards_wrapper::m_RefreshPackageList()
+    {
         pkgdbh Cards;
         cards::pkgrepo pkgrepo("/etc/cards.conf");
         // First pass get all package available
@@ -295,7 +301,6 @@ namespace cards
              m_arrSets.insert(Pack->collection());
         }
         m_OnRefreshPackageFinished_Callback(CEH_RC::OK);
-        m_job_running =false;
     }
 
 
diff --git a/fltk/cards_wrapper.h b/fltk/cards_wrapper.h
index 40b50a4..477dbee 100644
--- a/fltk/cards_wrapper.h
+++ b/fltk/cards_wrapper.h
@@ -10,6 +10,7 @@
 
 #include <libcards.h>
 
+#include <atomic>
 #include <thread>
 #include <algorithm>
 
@@ -133,6 +134,7 @@ namespace cards
         void m_Sync_Thread(); // Main Thread for Cards Sync Operation
         void m_DoJobList_Thread(); // Thread to install package
         void m_RefreshPackageList_Thread();
+        void m_RefreshPackageList();
         void m_GetPackageInfo_Thread(std::string pName);
 
         /// Utils
@@ -144,7 +146,7 @@ namespace cards
         void m_OnRefreshPackageFinished_Callback(const CEH_RC rc);
         void m_OnJobListChanged_Callback(const CEH_RC rc);
 
-        bool m_job_running; //Flag to know if a thread is currently running
+        std::atomic<bool> m_job_running; //Flag to know if a thread is currently running
         std::thread* m_job; // Thread handler pointer
 
         bool m_checkRootAccess(); // Just check if we have root accessing
-- 
2.43.0


From 55350fe02d1c5cb70e88bf18b583be2c73b91eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:37 +0000
Subject: [PATCH 109/113] fix: do not keep jobs of a package list which is gone

After a synchronisation the job list pointed to the deleted packages of
the old list, and processing it used them.
---
 fltk/cards_wrapper.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fltk/cards_wrapper.cxx b/fltk/cards_wrapper.cxx
index eb8b396..ece4487 100644
--- a/fltk/cards_wrapper.cxx
+++ b/fltk/cards_wrapper.cxx
@@ -276,6 +276,7 @@ namespace cards
     void cards_wrapper::m_RefreshPackageList_Thread()
     {
         m_RefreshPackageList();
+        refreshJobList();
         m_job_running =false;
     }
 
@@ -385,6 +386,8 @@ namespace cards
 
     void cards_wrapper::m_ClearPackagesList()
     {
+        // The jobs are packages of the list
+        m_arrJobList.clear();
         for (auto it : m_arrPackages)
         {
             if (it!=nullptr)
-- 
2.43.0


From d9540bcdb6a86621a0c9d6284358b82ed9319b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:37 +0000
Subject: [PATCH 110/113] fix: survive a package list which cannot be read

An exception in the thread that reads the configuration, the catalogue
and the database ended the graphical client; it is logged and reported
to the windows instead.
---
 fltk/cards_wrapper.cxx | 45 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/fltk/cards_wrapper.cxx b/fltk/cards_wrapper.cxx
index ece4487..4065cd4 100644
--- a/fltk/cards_wrapper.cxx
+++ b/fltk/cards_wrapper.cxx
@@ -282,26 +282,35 @@ namespace cards
 
     void cards_wrapper::m_RefreshPackageList()
     {
-        pkgdbh Cards;
-        cards::pkgrepo pkgrepo("/etc/cards.conf");
-        // First pass get all package available
-        m_ClearPackagesList();
-        std::set<std::string> InstalledPackages = Cards.getSetOfPackagesNames();
-        for (auto i : pkgrepo.getListOfPackages())
+        CEH_RC rc=CEH_RC::OK;
+        try
+        {
+            pkgdbh Cards;
+            cards::pkgrepo pkgrepo("/etc/cards.conf");
+            std::set<std::string> InstalledPackages = Cards.getSetOfPackagesNames();
+            // First pass get all package available
+            m_ClearPackagesList();
+            for (auto i : pkgrepo.getListOfPackages())
+            {
+               cards::cache* Pack = new cards::cache();
+               Pack->collection(i.second.collection());
+               Pack->name(i.first);
+               Pack->description(i.second.description());
+               Pack->version(i.second.version());
+               Pack->packager(i.second.packager());
+               if (InstalledPackages.find(Pack->name()) != InstalledPackages.end())
+               Pack->setStatus(STATUS_ENUM_INSTALLED);
+               m_arrPackages.push_back(Pack);
+               if (m_arrSets.find(Pack->collection()) == m_arrSets.end())
+                 m_arrSets.insert(Pack->collection());
+            }
+        }
+        catch (std::exception& e)
         {
-           cards::cache* Pack = new cards::cache();
-           Pack->collection(i.second.collection());
-           Pack->name(i.first);
-           Pack->description(i.second.description());
-           Pack->version(i.second.version());
-           Pack->packager(i.second.packager());
-           if (InstalledPackages.find(Pack->name()) != InstalledPackages.end())
-           Pack->setStatus(STATUS_ENUM_INSTALLED);
-           m_arrPackages.push_back(Pack);
-           if (m_arrSets.find(Pack->collection()) == m_arrSets.end())
-             m_arrSets.insert(Pack->collection());
+            m_log->log(_("Exception occured during refresh of the package list : ") + std::string(e.what()), LEVEL_ERROR);
+            rc= CEH_RC::EXCEPTION;
         }
-        m_OnRefreshPackageFinished_Callback(CEH_RC::OK);
+        m_OnRefreshPackageFinished_Callback(rc);
     }
 
 
-- 
2.43.0


From f883bfe1f968c4589e96ed12dc29bf0ea896f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:26 +0000
Subject: [PATCH 111/113] fix: install of several package files with relative
 names

The installation changes to the root directory, so every package file but
the first was not found (or another one was), with the first one installed.
A directory that has the name of an unknown package let it pass the check
of the names as well.
---
 src/install.cxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/install.cxx b/src/install.cxx
index e3b951c..12e6169 100644
--- a/src/install.cxx
+++ b/src/install.cxx
@@ -13,8 +13,15 @@ install::install(const CardsArgumentParser& argParser,
 {
 	m_progress = true;
 	parseArguments();
+	// The installation changes to the root directory,
+	// a relative file name would then point somewhere else
+	std::map<std::string, std::string> archiveFiles;
 	for(auto i : m_argParser.otherArguments()) {
-		if (checkFileExist(i)) {
+		if (checkRegularFile(i)) {
+			char buf[PATH_MAX];
+			archiveFiles[i] = i;
+			if ( (i[0] != '/') && (getcwd(buf, sizeof(buf)) != NULL) )
+				archiveFiles[i] = std::string(buf) + "/" + i;
 			continue;
 		}
 		if ( m_pkgrepo.getListOfPackagesFromCollection(i).empty() &&
@@ -39,9 +46,9 @@ install::install(const CardsArgumentParser& argParser,
 
 				m_pkgrepo.generateDependencies(i);
 			}
-		} else if (checkRegularFile(pkg)) {
+		} else if (archiveFiles.find(pkg) != archiveFiles.end()) {
 			 // It's a regular archive file
-			archive packageArchive(pkg);
+			archive packageArchive(archiveFiles[pkg]);
 			std::string p = "";
 			if (checkPackageNameExist(packageArchive.name())) {
 				p = "Upgrade ";
@@ -50,7 +57,7 @@ install::install(const CardsArgumentParser& argParser,
 				m_upgrade = false;
 			}
 
-			m_packageArchiveName = pkg;
+			m_packageArchiveName = archiveFiles[pkg];
 			run();
 
 			p += "("
-- 
2.43.0


From bed784571cd7d7cb5add39cd803fc1d94ef48fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:08 +0000
Subject: [PATCH 112/113] fix: a relative --root for cards

The installation changes to the root directory, where the relative root
was then looked for again: the files were installed and the record failed.
---
 src/argument_parser.cxx | 5 +++++
 src/argument_parser.h   | 5 +++++
 src/cards.cxx           | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/argument_parser.cxx b/src/argument_parser.cxx
index a1e0dad..3819f36 100644
--- a/src/argument_parser.cxx
+++ b/src/argument_parser.cxx
@@ -328,6 +328,11 @@ std::string ArgParser::getOptionValue(const APOpt& key) const
     return m_setOptions.find(key.id)->second;
 }
 
+void ArgParser::setOptionValue(const APOpt& key, const std::string& value)
+{
+    m_setOptions[key.id] = value;
+}
+
 std::string ArgParser::appName() const
 {
     return m_appName;
diff --git a/src/argument_parser.h b/src/argument_parser.h
index a1d5d74..6da30bd 100644
--- a/src/argument_parser.h
+++ b/src/argument_parser.h
@@ -258,6 +258,11 @@ public:
 	 */
 	std::string getOptionValue(const APOpt& key) const;
 
+	/**
+	 * replace the value of an option which is set
+	 */
+	void setOptionValue(const APOpt& key, const std::string& value);
+
 	/**
 	 * \return the CMD value of the command
 	 */
diff --git a/src/cards.cxx b/src/cards.cxx
index e60d049..c9c74a3 100644
--- a/src/cards.cxx
+++ b/src/cards.cxx
@@ -47,6 +47,14 @@ int main(int argc, char** argv)
         cout << cardsArgPars.getIdValue() << endl;
         cout << cardsArgPars.getCmdValue() << endl;
 #endif
+        // The installation changes to the root directory,
+        // a relative root would then point somewhere else
+        if (cardsArgPars.isSet(CardsArgumentParser::OPT_ROOT)) {
+            char buf[PATH_MAX];
+            if (cardsArgPars.getOptionValue(CardsArgumentParser::OPT_ROOT)[0] != '/' &&
+                realpath(cardsArgPars.getOptionValue(CardsArgumentParser::OPT_ROOT).c_str(), buf) != NULL)
+                cardsArgPars.setOptionValue(CardsArgumentParser::OPT_ROOT, buf);
+        }
         if (cardsArgPars.isSet(CardsArgumentParser::OPT_ROOT))
             root = cardsArgPars.getOptionValue(CardsArgumentParser::OPT_ROOT)
                 + root;
-- 
2.43.0


From 1981c40ce19fe96e9df995a3396f7d6e0f0f352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:43 +0000
Subject: [PATCH 113/113] fix: files of an installed package asked in a
 directory with its name

pkginfo -l and cards files took a directory that happens to have the name
of the package, as the port has in a tree of ports, for a package file.
---
 src/pkginfo.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkginfo.cxx b/src/pkginfo.cxx
index bd85ba9..a53b4fd 100644
--- a/src/pkginfo.cxx
+++ b/src/pkginfo.cxx
@@ -240,7 +240,7 @@ void pkginfo::run()
             /*
              *  List package or file contents
              */
-            if (checkFileExist(m_arg)) {
+            if (checkRegularFile(m_arg)) {
                 archive package(m_arg);
                 for (auto f : package.setofFiles())
                     std::cout << f << std::endl;
-- 
2.43.0

