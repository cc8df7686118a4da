From 1718bca5a9ce4918bede84e0daeeedde19f6fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 01/42] fix: only-qt: decide per translation unit whether it's
 Qt code

ClazyContext::isQt() cached the answer in a function-local static, so the
first translation unit of the process decided for all the others.
---
 src/ClazyContext.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..f2e1e6a 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -171,16 +171,13 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
+    // Not cached in a static: each translation unit has its own set of predefined macros
+    for (const auto &s : m_pp.Macros) {
+        if (s.first == "QT_CORE_LIB") {
+            return true;
         }
-        return false;
-    }();
-
-    return s_isQt;
+    }
+    return false;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From fe53f060ac6f8bf7031dd77f78715598e34c8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 02/42] fix: NOLINT without check names suppresses every
 warning of its line

The suppression was forgotten after having silenced one warning, so which
warning of the line was silenced depended on the order checks ran in.
---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..136ca40 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From 97cda36b658eaa082789f57ae7588f2edd71312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 03/42] fix: reserve-candidates: don't remember locations of
 other translation units

The caches of processed source locations were function-local statics, so raw
locations of one translation unit silenced warnings at the same offset of the
next one analysed by the process.
---
 src/checks/manuallevel/reserve-candidates.cpp | 12 +++++-------
 src/checks/manuallevel/reserve-candidates.h   |  2 ++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..ad9496c 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexOnesCache, rawLoc) || clazy::contains(m_complexOnesCache, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexOnesCache.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexOnesCache.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..49516db 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -48,6 +48,8 @@ private:
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    mutable std::vector<unsigned int> m_nonComplexOnesCache;
+    mutable std::vector<unsigned int> m_complexOnesCache;
 };
 
 #endif
-- 
2.43.0


From c345dc81308e59ce529213603b3bf2307fda07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 04/42] fix: old-style-connect: don't keep the last record
 across calls

lastRecordDecl was a static, so a connect() inherited the record left by a
previous, bailed out one, possibly a dangling pointer into the AST of another
translation unit.
---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..9210047 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,9 +331,9 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
-- 
2.43.0


From 926340826d22ff1ba2d8706f853705981f3d5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 05/42] fix: initialize the tables of detaching methods in a
 thread-safe way

They were filled on first use without any synchronisation, although the
plugin can be run by several threads of an IDE at the same time.
---
 src/QtUtils.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..f8796c3 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -88,8 +88,8 @@ const std::vector<StringRef> &clazy::qtCOWContainers()
 
 std::unordered_map<std::string, std::vector<StringRef>> clazy::detachingMethods()
 {
-    static std::unordered_map<std::string, std::vector<StringRef>> map;
-    if (map.empty()) {
+    static const std::unordered_map<std::string, std::vector<StringRef>> map = [] {
+        std::unordered_map<std::string, std::vector<StringRef>> map;
         const auto &withConst = detachingMethodsWithConstCounterParts();
         map.reserve(withConst.size());
         for (const auto &[qtClassname, methods] : withConst) {
@@ -100,16 +100,16 @@ std::unordered_map<std::string, std::vector<StringRef>> clazy::detachingMethods(
         }
 
         map["QVector"].emplace_back("fill");
-    }
+        return map;
+    }();
 
     return map;
 }
 
 std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>> clazy::detachingMethodsWithConstCounterParts()
 {
-    static std::unordered_map<std::string, std::vector<std::pair<StringRef, StringRef>>> map;
-
-    if (map.empty()) {
+    static const std::unordered_map<std::string, std::vector<std::pair<StringRef, StringRef>>> map = [] {
+        std::unordered_map<std::string, std::vector<std::pair<StringRef, StringRef>>> map;
         using Vec = std::vector<clazy::MemberConstcounterpartPair>;
         const Vec seqApi = {
             {"first", "constFirst"},
@@ -173,7 +173,8 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
         map.emplace("QImage", Vec{{"bits", "constBits"}, {"scanLine", "constScanLine"}});
 
         map.emplace("QJsonObject", Vec{{"begin", "cbegin"}, {"end", "cend"}, {"operator[]", "value"}, {"find", "constFind"}});
-    }
+        return map;
+    }();
 
     return map;
 }
-- 
2.43.0


From 6d0ca3761a1f1c78a3e5238a1a430442c9122454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 06/42] fix: clang-tidy: run the checks for every file, not
 just the first one

The list of registered checks was never cleared, so when clang-tidy was given
several files the checks created for the second one thought somebody else was
already running them.
---
 src/ClazyClangTidyModule.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..a7ce500 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -71,6 +71,7 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+        s_enabledChecks.clear(); // The next translation unit registers its checks again
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
-- 
2.43.0


From 2a34a822e508160382f22f2b77049730c51390c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 07/42] fix: clazy-standalone: fail when the vfsoverlay can't
 be used

Nothing is analysed in that case, so don't exit with success.
---
 src/ClazyStandaloneMain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 88c46b3..1f04a57 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -208,7 +208,7 @@ int main(int argc, const char **argv)
         llvm::ErrorOr<std::unique_ptr<llvm::MemoryBuffer>> buffer = fs->getBufferForFile(overlayFile);
         if (!buffer) {
             llvm::errs() << "Can't load virtual filesystem overlay file '" << overlayFile << "': " << buffer.getError().message() << ".\n";
-            return 0;
+            return 1;
         }
 
         IntrusiveRefCntPtr<vfs::FileSystem> vfso = vfs::getVFSFromYAML(std::move(buffer.get()),
@@ -216,7 +216,7 @@ int main(int argc, const char **argv)
                                                                        overlayFile);
         if (!vfso) {
             llvm::errs() << "Error: invalid virtual filesystem overlay file '" << overlayFile << "'.\n";
-            return 0;
+            return 1;
         }
         fs->pushOverlay(vfso);
     }
-- 
2.43.0


From 609ff4a15525a26520fefef869f10d7fc5805a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 08/42] fix: clazy-standalone: export the fixes whichever
 translation units succeed

The YAML file was written when the Nth context was destroyed, N being the
number of source files. With a missing file it was never written, and with
several compile commands per file it was written too early.
---
 src/ClazyContext.cpp        | 10 +++-------
 src/ClazyStandaloneMain.cpp | 10 +++++++++-
 src/FixItExporter.cpp       |  7 ++++++-
 src/FixItExporter.h         |  3 +++
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index f2e1e6a..0b9e61c 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -142,15 +142,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
+        // With clazy-standalone we use the same YAML file for all translation-units, which is written
+        // once all of them were processed. With clazy-plugin there's a YAML file per translation unit.
         const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
+        if (isClazyPlugin) {
             exporter->Export();
         }
         delete exporter;
diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 1f04a57..9112e85 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -8,6 +8,7 @@
 
 #include "Clazy.h"
 #include "ClazyContext.h"
+#include "FixItExporter.h"
 
 #include "checks.json.h"
 
@@ -223,5 +224,12 @@ int main(int argc, const char **argv)
 
     ClangTool tool(optionsParser.getCompilations(), optionsParser.getSourcePathList(), std::make_shared<PCHContainerOperations>(), fs);
 
-    return tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+    const int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+
+    if (!s_exportFixes.getValue().empty()) {
+        // Not tied to a particular translation unit: the last one might be missing, or have several compile commands
+        FixItExporter::ExportTo(s_exportFixes.getValue());
+    }
+
+    return result;
 }
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..b392589 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -176,11 +176,16 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
 }
 
 void FixItExporter::Export()
+{
+    ExportTo(exportFixes);
+}
+
+void FixItExporter::ExportTo(const std::string &fileName)
 {
     auto tuDiag = getTuDiag();
     if (!tuDiag.Diagnostics.empty()) {
         std::error_code EC;
-        llvm::raw_fd_ostream OS(exportFixes, EC, llvm::sys::fs::OF_None);
+        llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
         llvm::yaml::Output YAML(OS);
         YAML << getTuDiag();
     }
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 7ac084b..578059c 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -36,6 +36,9 @@ public:
 
     void Export();
 
+    /// Writes what was collected from all the translation units processed by clazy-standalone.
+    static void ExportTo(const std::string &fileName);
+
     /// Emit a diagnostic via the adapted diagnostic client.
     void Diag(clang::SourceLocation Loc, unsigned DiagID);
 
-- 
2.43.0


From 749676ea3258ea7d2eda1169fef22a148232d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 09/42] fix: plugin: don't share the fixes to export between
 translation units

The diagnostics to export were kept in a global which each new exporter
cleared, so contexts alive at the same time (threads of an IDE) lost or mixed
up each other's fixes, besides racing on it.
---
 src/ClazyStandaloneMain.cpp |  2 +-
 src/FixItExporter.cpp       | 35 ++++++++++++++++++-----------------
 src/FixItExporter.h         |  5 ++++-
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 9112e85..fca0a95 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -228,7 +228,7 @@ int main(int argc, const char **argv)
 
     if (!s_exportFixes.getValue().empty()) {
         // Not tied to a particular translation unit: the last one might be missing, or have several compile commands
-        FixItExporter::ExportTo(s_exportFixes.getValue());
+        FixItExporter::ExportStandalone(s_exportFixes.getValue());
     }
 
     return result;
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index b392589..daf8277 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -15,7 +15,8 @@
 
 using namespace clang;
 
-static clang::tooling::TranslationUnitDiagnostics &getTuDiag()
+// With clazy-standalone the fixes of all translation units end up in the same YAML file
+static clang::tooling::TranslationUnitDiagnostics &getStandaloneTuDiag()
 {
     static clang::tooling::TranslationUnitDiagnostics s_tudiag;
     return s_tudiag;
@@ -30,12 +31,8 @@ FixItExporter::FixItExporter(DiagnosticsEngine &DiagEngine,
     , SourceMgr(SourceMgr)
     , LangOpts(LangOpts)
     , exportFixes(exportFixes)
+    , m_tuDiag(isClazyStandalone ? getStandaloneTuDiag() : m_ownTuDiag)
 {
-    if (!isClazyStandalone) {
-        // When using clazy as plugin each translation unit fixes goes to a separate YAML file
-        getTuDiag().Diagnostics.clear();
-    }
-
     Owner = DiagEngine.takeClient();
     Client = DiagEngine.getClient();
     DiagEngine.setClient(this, false);
@@ -56,7 +53,7 @@ void FixItExporter::BeginSourceFile(const LangOptions &LangOpts, const Preproces
 
     const auto id = SourceMgr.getMainFileID();
     const auto entry = SourceMgr.getFileEntryRefForID(id);
-    getTuDiag().MainSourceFile = entry->getName().str();
+    m_tuDiag.MainSourceFile = entry->getName().str();
 }
 
 bool FixItExporter::IncludeInDiagnosticCounts() const
@@ -158,7 +155,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
                 Diag(Info.getLocation(), diag::note_fixit_failed);
             }
         }
-        getTuDiag().Diagnostics.push_back(ToolingDiag);
+        m_tuDiag.Diagnostics.push_back(ToolingDiag);
         m_recordNotes = true;
     }
     // FIXME: We do not receive notes.
@@ -167,7 +164,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         const auto FileName = SourceMgr.getFilename(Info.getLocation());
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
-        auto diags = getTuDiag().Diagnostics.back();
+        auto diags = m_tuDiag.Diagnostics.back();
         auto diag = ConvertDiagnostic(Info);
         diags.Notes.append(1, diag.Message);
     } else {
@@ -175,22 +172,26 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     }
 }
 
-void FixItExporter::Export()
+static void exportTuDiag(clang::tooling::TranslationUnitDiagnostics &tuDiag, const std::string &fileName)
 {
-    ExportTo(exportFixes);
-}
-
-void FixItExporter::ExportTo(const std::string &fileName)
-{
-    auto tuDiag = getTuDiag();
     if (!tuDiag.Diagnostics.empty()) {
         std::error_code EC;
         llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
         llvm::yaml::Output YAML(OS);
-        YAML << getTuDiag();
+        YAML << tuDiag;
     }
 }
 
+void FixItExporter::Export()
+{
+    exportTuDiag(m_tuDiag, exportFixes);
+}
+
+void FixItExporter::ExportStandalone(const std::string &fileName)
+{
+    exportTuDiag(getStandaloneTuDiag(), fileName);
+}
+
 void FixItExporter::Diag(SourceLocation Loc, unsigned DiagID)
 {
     // When producing this diagnostic, we temporarily bypass ourselves,
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 578059c..f8f2cd3 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -37,7 +37,7 @@ public:
     void Export();
 
     /// Writes what was collected from all the translation units processed by clazy-standalone.
-    static void ExportTo(const std::string &fileName);
+    static void ExportStandalone(const std::string &fileName);
 
     /// Emit a diagnostic via the adapted diagnostic client.
     void Diag(clang::SourceLocation Loc, unsigned DiagID);
@@ -50,6 +50,9 @@ private:
     DiagnosticConsumer *Client = nullptr;
     std::unique_ptr<DiagnosticConsumer> Owner;
     bool m_recordNotes = false;
+    // With clazy as plugin the fixes of each translation unit go to a separate YAML file
+    clang::tooling::TranslationUnitDiagnostics m_ownTuDiag;
+    clang::tooling::TranslationUnitDiagnostics &m_tuDiag;
     clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info);
     clang::tooling::Replacement ConvertFixIt(const clang::FixItHint &Hint);
 };
-- 
2.43.0


From e6e11abc807d32d4bb6f6e88a7fcbdc9abf5bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 10/42] fix: survive and report failures to write the exported
 fixes

An unwritable file or a full disk aborted the whole process from the
destructor of the stream, taking the compiler or the IDE hosting the plugin
down. Besides, a crash or another process writing the same file at the same
time left a mangled file behind, so write to a temporary file first.
---
 src/ClazyStandaloneMain.cpp |  6 ++-
 src/FixItExporter.cpp       | 79 ++++++++++++++++++++++++++++++++-----
 src/FixItExporter.h         |  5 ++-
 3 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index fca0a95..04a8180 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -224,11 +224,13 @@ int main(int argc, const char **argv)
 
     ClangTool tool(optionsParser.getCompilations(), optionsParser.getSourcePathList(), std::make_shared<PCHContainerOperations>(), fs);
 
-    const int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+    int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
 
     if (!s_exportFixes.getValue().empty()) {
         // Not tied to a particular translation unit: the last one might be missing, or have several compile commands
-        FixItExporter::ExportStandalone(s_exportFixes.getValue());
+        if (!FixItExporter::ExportStandalone(s_exportFixes.getValue()) && result == 0) {
+            result = 1;
+        }
     }
 
     return result;
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index daf8277..9af6155 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -10,6 +10,7 @@
 #include <clang/Frontend/FrontendDiagnostic.h>
 #include <clang/Rewrite/Frontend/FixItRewriter.h>
 #include <clang/Tooling/DiagnosticsYaml.h>
+#include <llvm/Support/FileSystem.h>
 
 // #define DEBUG_FIX_IT_EXPORTER
 
@@ -172,24 +173,82 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     }
 }
 
-static void exportTuDiag(clang::tooling::TranslationUnitDiagnostics &tuDiag, const std::string &fileName)
+static std::error_code writeAndClose(int fd, const std::string &contents)
 {
-    if (!tuDiag.Diagnostics.empty()) {
-        std::error_code EC;
-        llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
-        llvm::yaml::Output YAML(OS);
-        YAML << tuDiag;
+    llvm::raw_fd_ostream os(fd, /*shouldClose=*/true);
+    os << contents;
+    os.close();
+    const std::error_code ec = os.error();
+    os.clear_error(); // Otherwise the destructor aborts the whole process
+    return ec;
+}
+
+static std::error_code writeFile(const std::string &fileName, const std::string &contents)
+{
+    llvm::sys::fs::file_status status;
+    if (!llvm::sys::fs::status(fileName, status) && !llvm::sys::fs::is_regular_file(status)) {
+        // Something like /dev/stdout, we can't replace that
+        int fd = -1;
+        if (const std::error_code ec = llvm::sys::fs::openFileForWrite(fileName, fd, llvm::sys::fs::CD_OpenExisting)) {
+            return ec;
+        }
+        return writeAndClose(fd, contents);
+    }
+
+    // Write to a temporary file first, so nobody ever sees a partially written file
+    llvm::SmallString<256> target(fileName);
+    if (llvm::sys::fs::is_symlink_file(fileName)) {
+        llvm::sys::fs::real_path(fileName, target);
+    }
+
+    int fd = -1;
+    llvm::SmallString<256> tempFile;
+    std::error_code ec = llvm::sys::fs::createUniqueFile(target + ".tmp-%%%%%%%%", fd, tempFile);
+    if (ec == std::errc::permission_denied) {
+        // We might still be allowed to write to an existing file
+        ec = llvm::sys::fs::openFileForWrite(target, fd);
+        return ec ? ec : writeAndClose(fd, contents);
+    }
+    if (ec) {
+        return ec;
+    }
+
+    ec = writeAndClose(fd, contents);
+    if (!ec) {
+        ec = llvm::sys::fs::rename(tempFile, target);
+    }
+    if (ec) {
+        llvm::sys::fs::remove(tempFile);
+    }
+    return ec;
+}
+
+static bool exportTuDiag(clang::tooling::TranslationUnitDiagnostics &tuDiag, const std::string &fileName)
+{
+    if (tuDiag.Diagnostics.empty()) {
+        return true;
+    }
+
+    std::string contents;
+    llvm::raw_string_ostream OS(contents);
+    llvm::yaml::Output YAML(OS);
+    YAML << tuDiag;
+
+    if (const std::error_code ec = writeFile(fileName, OS.str())) {
+        llvm::errs() << "clazy: error: couldn't write fixes to '" << fileName << "': " << ec.message() << "\n";
+        return false;
     }
+    return true;
 }
 
-void FixItExporter::Export()
+bool FixItExporter::Export()
 {
-    exportTuDiag(m_tuDiag, exportFixes);
+    return exportTuDiag(m_tuDiag, exportFixes);
 }
 
-void FixItExporter::ExportStandalone(const std::string &fileName)
+bool FixItExporter::ExportStandalone(const std::string &fileName)
 {
-    exportTuDiag(getStandaloneTuDiag(), fileName);
+    return exportTuDiag(getStandaloneTuDiag(), fileName);
 }
 
 void FixItExporter::Diag(SourceLocation Loc, unsigned DiagID)
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index f8f2cd3..d0a3d79 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -34,10 +34,11 @@ public:
 
     void HandleDiagnostic(clang::DiagnosticsEngine::Level DiagLevel, const clang::Diagnostic &Info) override;
 
-    void Export();
+    /// Returns false if the file couldn't be written, which was reported to the user already.
+    bool Export();
 
     /// Writes what was collected from all the translation units processed by clazy-standalone.
-    static void ExportStandalone(const std::string &fileName);
+    static bool ExportStandalone(const std::string &fileName);
 
     /// Emit a diagnostic via the adapted diagnostic client.
     void Diag(clang::SourceLocation Loc, unsigned DiagID);
-- 
2.43.0


From b646f6708c79df47ac45f74937f7c3ae5bab469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 11/42] fix: look into declaration groups only when they hold a
 single declaration

DeclStmt::getSingleDecl() on 'int a, b;' gives a tagged pointer to the
group. Reading it as a Decl depended on the addresses of the declarations
(or aborts in builds with assertions).
---
 src/checks/level1/foreach.cpp                            | 2 +-
 src/checks/manuallevel/modernize-list-initialization.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..25876b7 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -126,7 +126,7 @@ void Foreach::checkBigTypeMissingRef()
     // Get the variable declaration (lhs of foreach)
     std::vector<DeclStmt *> varDecls;
     clazy::getChilds<DeclStmt>(forStatements.at(0), varDecls);
-    if (varDecls.empty()) {
+    if (varDecls.empty() || !varDecls.at(0)->isSingleDecl()) {
         return;
     }
 
diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..9098946 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -17,6 +17,9 @@ using namespace clang;
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt)) {
+        if (!expr->isSingleDecl()) {
+            return;
+        }
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
-- 
2.43.0


From 028d2f57f2fe2bab12864d1bc7fa30bd52638c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 12/42] fix: honour a suppression comment at the very end of a
 file

LexFromRawLexer() returns true with the last token when nothing follows it,
so a comment not terminated by a newline was never looked at.
---
 src/SuppressionManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 136ca40..c91b50c 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -145,7 +145,9 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool atEnd = false;
+    while (!atEnd) {
+        atEnd = lexer.LexFromRawLexer(token); // also true when the last token, perhaps a comment, is not followed by anything
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From 80af14b810336e916e77c11ee9d2a4547a996af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 13/42] fix: honour all the suppression comments that cover a
 line

Only the first check of NOLINT(clazy-a,clazy-b) was kept, a NOLINT with
checks hid the ranges around it, and only one of nested ranges counted.
---
 src/SuppressionManager.cpp | 14 ++++++++++----
 src/SuppressionManager.h   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index c91b50c..b305a96 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -109,16 +109,22 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    // A line can be covered by several of these: by a list of checks, and by nested ranges
+    const auto [first, last] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    for (auto it = first; it != last; ++it) {
+        if (it->second.match(checkName)) {
+            return true;
+        }
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
+            if (rangeSuppression.checksToSkipWildcard.empty()
                 || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
                        return regex.match(checkName);
-                   });
+                   })) {
+                return true;
+            }
         }
     }
 
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From a432b3ddb8c20befc3785e3f12ec55ed32a3055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 14/42] fix: don't dump AST nodes with their addresses from
 qstring-allocations

The dump of an unexpected ternary operator contains memory addresses, so
the output differs from run to run. The location is already printed.
---
 src/checks/level2/qstring-allocations.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 5f721aa..4f3cdeb 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -375,7 +375,6 @@ std::vector<FixItHint> QStringAllocations::fixItReplaceWordWithWordInTernary(cla
 
     if (constructExprs.size() != 2) {
         llvm::errs() << "Weird ternary operator with " << constructExprs.size() << " constructExprs at " << ternary->getBeginLoc().printToString(sm()) << "\n";
-        ternary->dump();
         assert(false);
         return {};
     }
-- 
2.43.0


From 4d4736e6260bf4323f1c06911228c1edf41555cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 15/42] fix: export all insertions of a fix-it at the same
 position

clang::tooling::Replacements refuses a second insertion at a position, so
only the first part of such fix-its ended in the YAML file, for example
Q_DISABLE_COPY without the default constructor that is needed then.
Append the text instead, like AtomicChange does.
---
 src/FixItExporter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 9af6155..8e6db33 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -125,6 +125,21 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
     return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
 }
 
+static llvm::Error addReplacement(tooling::Replacements &replacements, const tooling::Replacement &replacement)
+{
+    return llvm::handleErrors(replacements.add(replacement), [&](const tooling::ReplacementError &error) -> llvm::Error {
+        if (error.get() != tooling::replacement_error::insert_conflict) {
+            return llvm::make_error<tooling::ReplacementError>(error);
+        }
+
+        // Several insertions at the same position: the text of the later one comes after the text of the earlier one
+        const unsigned offset = replacements.getShiftedCodePosition(replacement.getOffset());
+        replacements = replacements.merge(
+            tooling::Replacements(tooling::Replacement(replacement.getFilePath(), offset, 0, replacement.getReplacementText())));
+        return llvm::Error::success();
+    });
+}
+
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
 void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
 {
@@ -151,8 +166,8 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
             llvm::errs() << "R: " << replacement.toString() << "\n";
 #endif
             clang::tooling::Replacements &Replacements = ToolingDiag.Message.Fix[replacement.getFilePath()];
-            llvm::Error error = Replacements.add(ConvertFixIt(Hint));
-            if (error) {
+            if (llvm::Error error = addReplacement(Replacements, replacement)) {
+                llvm::consumeError(std::move(error));
                 Diag(Info.getLocation(), diag::note_fixit_failed);
             }
         }
-- 
2.43.0


From 0a55cd3ba84f78cb1b1b7dcac5c01c9623b16a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 16/42] fix: export fixes through a dangling symlink

The path of the temporary file was made from the result of a failed
real_path(), so nothing could be written.
---
 src/FixItExporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 8e6db33..2048b33 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -212,8 +212,8 @@ static std::error_code writeFile(const std::string &fileName, const std::string
 
     // Write to a temporary file first, so nobody ever sees a partially written file
     llvm::SmallString<256> target(fileName);
-    if (llvm::sys::fs::is_symlink_file(fileName)) {
-        llvm::sys::fs::real_path(fileName, target);
+    if (llvm::SmallString<256> resolved; llvm::sys::fs::is_symlink_file(fileName) && !llvm::sys::fs::real_path(fileName, resolved)) {
+        target = resolved;
     }
 
     int fd = -1;
-- 
2.43.0


From 2a9519b8f3d24c417300e667962dcd20c55612e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 17/42] fix: don't stop at the first warning that is treated as
 an error

---
 src/ClazyContext.cpp     |  1 +
 src/ClazyContext.h       | 20 ++++++++++++++++++++
 src/ClazyVisitHelper.cpp |  2 +-
 src/checkbase.cpp        |  2 +-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 0b9e61c..e8a7c01 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -109,6 +109,7 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
             }
         }
     }))
+    , m_compilerErrors(manager.getDiagnostics())
     , m_isClangTidy(isClangTidy)
 {
     if (!headerFilter.empty()) {
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index d532e2a..5c186ab 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -94,6 +94,25 @@ public:
         return m_noWerror;
     }
 
+    // Warnings that clazy was told to treat as errors don't count, they don't harm the AST
+    bool compilationHasErrors() const
+    {
+        return m_compilerErrors.hasUnrecoverableErrorOccurred();
+    }
+
+    void reportWarning(const std::string &checkName,
+                       const clang::SourceLocation &loc,
+                       clang::DiagnosticIDs::Level severity,
+                       const std::string &error,
+                       const std::vector<clang::FixItHint> &fixits) const
+    {
+        const bool hadErrors = compilationHasErrors();
+        p_warningReporter(checkName, loc, severity, error, fixits);
+        if (!hadErrors) {
+            m_compilerErrors.reset();
+        }
+    }
+
     bool exportFixesEnabled() const
     {
         return options & ClazyOption_ExportFixes;
@@ -208,6 +227,7 @@ public:
     const std::vector<std::string> m_translationUnitPaths;
     const clang::PreprocessorOptions m_pp;
     const WarningReporter p_warningReporter;
+    mutable clang::DiagnosticErrorTrap m_compilerErrors; // Without those reported by clazy
 
     const bool m_isClangTidy;
 };
diff --git a/src/ClazyVisitHelper.cpp b/src/ClazyVisitHelper.cpp
index d263a27..9aedce9 100644
--- a/src/ClazyVisitHelper.cpp
+++ b/src/ClazyVisitHelper.cpp
@@ -57,7 +57,7 @@ bool VisitStmt(Stmt *stmt, ClazyContext *context, const Visitors &visitors)
     }
 
     if (!context->parentMap) {
-        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {
+        if (context->compilationHasErrors()) {
             return false; // ParentMap sometimes crashes when there were errors. Doesn't like a botched AST.
         }
 
diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..8b05475 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -272,7 +272,7 @@ void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &
         ? DiagnosticIDs::Error
         : DiagnosticIDs::Warning;
 
-    m_context->p_warningReporter(name(), loc, severity, error, fixits);
+    m_context->reportWarning(name(), loc, severity, error, fixits);
 }
 
 void CheckBase::queueManualFixitWarning(clang::SourceLocation loc, const std::string &message)
-- 
2.43.0


From a27d35d84afe4d3f81b1ad838aa62bb801a56cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 18/42] fix: drop the fix-it complaints of warnings that aren't
 shown

---
 src/checkbase.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 8b05475..f9ea184 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -26,6 +26,7 @@
 #include <llvm/Support/raw_ostream.h>
 
 #include <memory>
+#include <utility>
 #include <vector>
 
 namespace clang
@@ -223,15 +224,15 @@ std::string CheckBase::tag() const
 
 void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
 {
-    if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
-        return;
-    }
+    // The ones queued belong to this warning, they must not show up with the next one if this one isn't shown
+    const auto queuedManualInterventionWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
 
-    if (m_context->shouldIgnoreFile(loc)) {
-        return;
-    }
+    const auto isHidden = [this](clang::SourceLocation location) {
+        return m_context->suppressionManager.isSuppressed(m_name, location, sm(), lo()) || m_context->shouldIgnoreFile(location)
+            || !m_context->passesLineFilter(location);
+    };
 
-    if (!m_context->passesLineFilter(loc)) {
+    if (isHidden(loc)) {
         return;
     }
 
@@ -248,7 +249,11 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
     reallyEmitWarning(loc, error, fixits);
 
-    for (const auto &l : m_queuedManualInterventionWarnings) {
+    for (const auto &l : queuedManualInterventionWarnings) {
+        if (isHidden(l.first)) {
+            continue;
+        }
+
         std::string msg("FixIt failed, requires manual intervention: ");
         if (!l.second.empty()) {
             msg += ' ' + l.second;
@@ -256,8 +261,6 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
         reallyEmitWarning(l.first, msg + tag(), {});
     }
-
-    m_queuedManualInterventionWarnings.clear();
 }
 
 void CheckBase::emitInternalError(SourceLocation loc, std::string error)
-- 
2.43.0


From 12455908fe94ccb86952289f0cee9ff823008ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 19/42] fix: clazy-standalone fails if no valid check is
 requested

It said so, analyzed nothing and exited with success.
---
 src/Clazy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 04b9217..0365267 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -326,7 +326,8 @@ std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(Compile
     const RegisteredCheck::List requestedChecks = cm->requestedChecks(checks);
 
     if (requestedChecks.empty()) {
-        llvm::errs() << "No checks were requested!\n\n";
+        // As an error, nothing is going to be analyzed
+        ci.getDiagnostics().Report(ci.getDiagnostics().getCustomDiagID(DiagnosticsEngine::Error, "No checks were requested!"));
         return nullptr;
     }
 
-- 
2.43.0


From 0b83a216b2d34d64c5b43fd45093cc48ff04b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 20/42] fix: the text of a warning is not a format string

A '%' in it, from a type or a name in the source, was lost or interpreted, with arguments that don't exist.
---
 src/ClazyClangTidyModule.cpp | 3 ++-
 src/ClazyContext.cpp         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index a7ce500..b3a691d 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -139,7 +139,8 @@ public:
                clang::DiagnosticIDs::Level level,
                std::string error,
                const std::vector<clang::FixItHint> &fixits) {
-            clangTidyContext->diag("clazy-" + checkName, loc, error, level) << fixits;
+            // The text might contain source code: it's an argument of the format string, not the format string
+            clangTidyContext->diag("clazy-" + checkName, loc, "%0", level) << error << fixits;
         };
 };
 
diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index e8a7c01..3a6e2f3 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -101,8 +101,10 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, error.c_str());
+        // The text might contain source code: it's an argument of the format string, not the format string
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
         DiagnosticBuilder B = engine.Report(loc, id);
+        B << error;
         for (const FixItHint &fixit : fixits) {
             if (!fixit.isNull()) {
                 B.AddFixItHint(fixit);
-- 
2.43.0


From 3a3b577bb1547ee10d1893171b28589541aaa09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 21/42] fix: keep the names of the included files, not
 references to them

---
 src/PreProcessorVisitor.cpp | 2 +-
 src/PreProcessorVisitor.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 32bc1ec..7f111d5 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -186,6 +186,6 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              clang::SrcMgr::CharacteristicKind)
 {
     if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
-        m_includeInfo.push_back(IncludeInfo{FileName, IsAngled, FilenameRange});
+        m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
     }
 }
diff --git a/src/PreProcessorVisitor.h b/src/PreProcessorVisitor.h
index 0fb87ba..c770b1a 100644
--- a/src/PreProcessorVisitor.h
+++ b/src/PreProcessorVisitor.h
@@ -88,7 +88,7 @@ private:
     const clang::Preprocessor &m_pp;
 
     struct IncludeInfo {
-        clang::StringRef fileName;
+        std::string fileName; // the preprocessor's text is gone after the callback
         bool IsAngled;
         clang::CharSourceRange filenameRange;
     };
-- 
2.43.0


From aae53dddfb8c02697ebd6c3445b4783c07dcf2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 22/42] fix: use-chrono-in-qtimer: don't divide by zero

---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 28b00f5..813a479 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -35,7 +35,7 @@ static int unpackValue(clang::Expr *expr)
         return left * right;
     }
 
-    if (binaryOp->getOpcode() == BO_Div) {
+    if (binaryOp->getOpcode() == BO_Div && right != 0) {
         return left / right;
     }
 
-- 
2.43.0


From 7f63434552232edcd93050e22a6c6c7f2c98135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 23/42] fix: QT_NAMESPACE of the first translation unit decided
 what a reserve class is

The names were kept in a static list, made with the namespace of whichever
translation unit came first in the process.
---
 src/QtUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index f8796c3..8365c0e 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -314,7 +314,8 @@ bool clazy::isAReserveClass(CXXRecordDecl *recordDecl, const std::string &qtName
         return false;
     }
 
-    static const std::vector<std::string> classes = {
+    // Not static: each translation unit has its own QT_NAMESPACE
+    const std::vector<std::string> classes = {
         clazy::qtNamespaced("QVector", qtNamespace),
         "std::vector",
         clazy::qtNamespaced("QList", qtNamespace),
-- 
2.43.0


From c47ca472dd791b1e7cde4aebc94fb440bb6d662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 24/42] fix: the plugin argument export-fixes given twice ended
 the compilation

args.at(0) with nothing left threw, in code compiled without exceptions.
---
 src/Clazy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 0365267..a19c2b4 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -181,7 +181,7 @@ bool ClazyASTAction::ParseArgs(const CompilerInstance &ci, const std::vector<std
         m_options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;
     }
 
-    if (parseArgument("export-fixes", args)) {
+    if (parseArgument("export-fixes", args) && !args.empty()) {
         exportFixesFilename = args.at(0);
     }
 
-- 
2.43.0


From 61b02c524d50848fa7e53aa4834a0251737e0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 25/42] fix: don't crash if QT_NAMESPACE isn't defined as an
 identifier

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d61ca30 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -78,7 +78,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From 446065c99f01483df56db75c7f0e9b8504f7502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 26/42] fix: sanitize-inline-keyword: don't search for the
 keyword forever

---
 src/Utils.cpp                                      | 3 +++
 src/checks/manuallevel/sanitize-inline-keyword.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..c5515df 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -1003,6 +1003,9 @@ SourceLocation Utils::locForNextToken(SourceLocation loc, const clang::SourceMan
 
     Token Tok;
     lexer.LexFromRawLexer(Tok);
+    if (Tok.is(tok::eof)) {
+        return {}; // There's no next token
+    }
 
     SourceLocation TokenLoc = Tok.getLocation();
 
diff --git a/src/checks/manuallevel/sanitize-inline-keyword.cpp b/src/checks/manuallevel/sanitize-inline-keyword.cpp
index 18b3c11..fa5733e 100644
--- a/src/checks/manuallevel/sanitize-inline-keyword.cpp
+++ b/src/checks/manuallevel/sanitize-inline-keyword.cpp
@@ -84,9 +84,9 @@ void SanitizeInlineKeyword::VisitDecl(Decl *decl)
         std::vector<FixItHint> fixits{clazy::createInsertion(loc, "inline "s)};
 
         SourceLocation def = cxxDefinition->getBeginLoc();
-        SourceLocation defEnd = cxxDefinition->getEndLoc();
+        SourceLocation defEnd = sm().getFileLoc(cxxDefinition->getEndLoc());
         Token tok;
-        for (; def.isValid() && def != defEnd; def = Utils::locForNextToken(def, sm(), lo())) {
+        for (; def.isValid() && def < defEnd; def = Utils::locForNextToken(def, sm(), lo())) {
             if (!Lexer::getRawToken(def, tok, sm(), lo())) { // false means success!
                 if (tok.is(tok::raw_identifier) && tok.getRawIdentifier() == "inline"s) {
                     // Remove 'inline' from the definition
-- 
2.43.0


From 5b455c7f7af29c257e086e41659f0467e3401f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 27/42] fix: export fixes next to files with a % in their path

createUniqueFile() replaces each % in the name it is given, so the temporary file
ended up in a directory that doesn't exist, and nothing was exported.
---
 src/FixItExporter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2048b33..92a4568 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -10,7 +10,9 @@
 #include <clang/Frontend/FrontendDiagnostic.h>
 #include <clang/Rewrite/Frontend/FixItRewriter.h>
 #include <clang/Tooling/DiagnosticsYaml.h>
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/FileSystem.h>
+#include <llvm/Support/Process.h>
 
 // #define DEBUG_FIX_IT_EXPORTER
 
@@ -218,7 +220,13 @@ static std::error_code writeFile(const std::string &fileName, const std::string
 
     int fd = -1;
     llvm::SmallString<256> tempFile;
-    std::error_code ec = llvm::sys::fs::createUniqueFile(target + ".tmp-%%%%%%%%", fd, tempFile);
+    std::error_code ec;
+    int attempts = 0;
+    do { // Not createUniqueFile(), which also replaces any % of the target
+        tempFile = target;
+        tempFile += ".tmp-" + llvm::utohexstr(llvm::sys::Process::GetRandomNumber(), /*LowerCase=*/true, /*Width=*/8);
+        ec = llvm::sys::fs::openFileForWrite(tempFile, fd, llvm::sys::fs::CD_CreateNew);
+    } while (ec == std::errc::file_exists && ++attempts < 128);
     if (ec == std::errc::permission_denied) {
         // We might still be allowed to write to an existing file
         ec = llvm::sys::fs::openFileForWrite(target, fd);
-- 
2.43.0


From 90af9fcb6d6c4d906743373c2099fa4156332dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:40 +0000
Subject: [PATCH 28/42] fix: ctor-missing-parent-argument: don't crash on a
 class called QObject

---
 src/checks/level2/ctor-missing-parent-argument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level2/ctor-missing-parent-argument.cpp b/src/checks/level2/ctor-missing-parent-argument.cpp
index a7f8781..6eefa11 100644
--- a/src/checks/level2/ctor-missing-parent-argument.cpp
+++ b/src/checks/level2/ctor-missing-parent-argument.cpp
@@ -63,6 +63,10 @@ void CtorMissingParentArgument::VisitDecl(Decl *decl)
 
     if (numCtors > 0 && !hasQObjectParam) {
         clang::CXXRecordDecl *baseClass = clazy::getQObjectBaseClass(record, m_context->qtNamespace());
+        if (!baseClass) {
+            return; // It's called QObject itself
+        }
+
         const bool baseHasQObjectParam = clazy::recordHasCtorWithParam(baseClass, parentType, /*by-ref*/ ok, /*by-ref*/ numCtors);
         if (ok && !baseHasQObjectParam && sm().isInSystemHeader(baseClass->getBeginLoc())) {
             // If the base class ctors don't accept QObject, and it's declared in a system header don't warn
-- 
2.43.0


From c45dc066d2763afdede88747057ba95dd3154afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:40 +0000
Subject: [PATCH 29/42] fix: unneeded-cast: don't crash on functions that are
 merely called qobject_cast

---
 src/checks/manuallevel/unneeded-cast.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/unneeded-cast.cpp b/src/checks/manuallevel/unneeded-cast.cpp
index fe0bf35..41d3890 100644
--- a/src/checks/manuallevel/unneeded-cast.cpp
+++ b/src/checks/manuallevel/unneeded-cast.cpp
@@ -36,7 +36,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
             return false;
         }
 
-        if (castFrom) {
+        if (castFrom && callExpr->getNumArgs() > 0) {
             clang::Expr *expr = callExpr->getArg(0);
             if (auto *implicitCast = llvm::dyn_cast<clang::ImplicitCastExpr>(expr)) {
                 if (implicitCast->getCastKind() == clang::CK_DerivedToBase) {
@@ -52,7 +52,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 
         if (castTo) {
             const auto *templateArgs = func->getTemplateSpecializationArgs();
-            if (templateArgs->size() == 1) {
+            if (templateArgs && templateArgs->size() == 1 && templateArgs->get(0).getKind() == clang::TemplateArgument::Type) {
                 const clang::TemplateArgument &arg = templateArgs->get(0);
                 clang::QualType qt = clazy::pointeeQualType(arg.getAsType());
                 if (!qt.isNull()) {
@@ -129,7 +129,7 @@ bool UnneededCast::handleQObjectCast(Stmt *stm)
     CXXRecordDecl *castTo = nullptr;
     CXXRecordDecl *castFrom = nullptr;
 
-    if (!is_qobject_cast(stm, &castTo, &castFrom)) {
+    if (!is_qobject_cast(stm, &castTo, &castFrom) || !castTo || !castFrom) {
         return false;
     }
 
-- 
2.43.0


From 0da8dbfbdc9af8d1c301f361579dbe967c185a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 30/42] fix: compare-member-check: don't crash on operators
 that return nothing

---
 src/checks/manuallevel/compare-member-check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..533d445 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,6 +81,8 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
+                if (!returnExpr)
+                    return;
                 if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
-- 
2.43.0


From 2e0a5dc30bbea92ca5cea5ffd0c0c3c3f8b5a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 31/42] fix: modernize-overloaded-connects: don't look at
 arguments that aren't there

---
 src/QtUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 8365c0e..a7ff81f 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -372,7 +372,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
     }
 
     const int numArgs = funcCall->getNumArgs();
-    if (argIndex >= numArgs) {
+    if (argIndex < 0 || argIndex >= numArgs) {
         return nullptr;
     }
 
-- 
2.43.0


From a3cd66dae7956c9fefccee9134810a2b21cd3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 32/42] fix: connect-non-signal: don't crash on a connect()
 with one argument

---
 src/QtUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index a7ff81f..8dd74f8 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -181,6 +181,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
 
 bool clazy::isQMetaMethod(CallExpr *Call, unsigned int argIndex, const std::string &qtNamespace)
 {
+    if (argIndex >= Call->getNumArgs()) {
+        return false;
+    }
+
     Expr *arg = Call->getArg(argIndex);
     QualType type = arg->getType();
     if (!type->isRecordType()) {
-- 
2.43.0


From e570120e82aea4c40980331838f497fb6bf8332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:30 +0000
Subject: [PATCH 33/42] fix: old-style-connect: don't crash if the sender's
 class is unknown

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index c5515df..a18ce3a 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -675,7 +675,7 @@ std::vector<CXXMethodDecl *> Utils::methodsFromString(const CXXRecordDecl *recor
 const CXXRecordDecl *Utils::recordForMemberCall(CXXMemberCallExpr *call, std::string &implicitCallee)
 {
     implicitCallee.clear();
-    Expr *implicitArgument = call->getImplicitObjectArgument();
+    Expr *implicitArgument = call ? call->getImplicitObjectArgument() : nullptr;
     if (!implicitArgument) {
         return nullptr;
     }
-- 
2.43.0


From dc619f3a0338c1bcd5f0ba4e0d97c668b631af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:41 +0000
Subject: [PATCH 34/42] fix: qstring-arg: don't look at parameters that aren't
 there

---
 src/checks/level0/qstring-arg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index 3801f1d..f393840 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -72,7 +72,7 @@ static bool isArgFuncWithOnlyQString(CallExpr *callExpr)
     }
 
     CXXMethodDecl *method = isArgMethod(callExpr->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 2) {
         return false;
     }
 
@@ -211,7 +211,7 @@ void QStringArg::VisitStmt(clang::Stmt *stmt)
     }
 
     CXXMethodDecl *method = isArgMethod(memberCall->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 3) {
         return;
     }
 
-- 
2.43.0


From 7adf403a1140c7f678004410799b9e32b6b05331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 35/42] fix: don't crash on containers of users whose first
 template argument is no type

---
 src/checks/level0/mutable-container-key.cpp            | 2 +-
 src/checks/level0/qmap-with-pointer-key.cpp            | 2 +-
 src/checks/manuallevel/qhash-with-char-pointer-key.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/level0/mutable-container-key.cpp b/src/checks/level0/mutable-container-key.cpp
index 28b10cf..183ddbf 100644
--- a/src/checks/level0/mutable-container-key.cpp
+++ b/src/checks/level0/mutable-container-key.cpp
@@ -33,7 +33,7 @@ void MutableContainerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
diff --git a/src/checks/level0/qmap-with-pointer-key.cpp b/src/checks/level0/qmap-with-pointer-key.cpp
index 95f4aa3..2ec4301 100644
--- a/src/checks/level0/qmap-with-pointer-key.cpp
+++ b/src/checks/level0/qmap-with-pointer-key.cpp
@@ -27,7 +27,7 @@ void QMapWithPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
diff --git a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
index 10f543f..51a0f69 100644
--- a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
+++ b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
@@ -25,7 +25,7 @@ void QHashWithCharPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
-- 
2.43.0


From 4c36773b4163e7996a563efaa9d53b8c544f9135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 36/42] fix: fully-qualified-moc-types: don't crash on
 templates as template arguments

---
 src/checks/level0/fully-qualified-moc-types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..65038c7 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -203,8 +203,8 @@ std::string FullyQualifiedMocTypes::resolveTemplateType(const clang::TemplateSpe
             str += ", ";
         }
         firstArg = false;
-        if (arg.getKind() == TemplateArgument::Expression) {
-            // std::bitset<int(8)>, here int(8) is an expression!
+        if (arg.getKind() != TemplateArgument::Type) {
+            // std::bitset<int(8)>, here int(8) is an expression! It can be a template as well
             llvm::raw_string_ostream outputStream(str);
             arg.print(astContext()->getPrintingPolicy(), outputStream, true);
         } else {
-- 
2.43.0


From d01b61e1790911dfdb0c2cdadb3e10d0e33b12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 37/42] fix: don't take template arguments for types that are
 something else

---
 src/TemplateUtils.cpp                                      | 4 ++--
 src/checks/manuallevel/qvariant-template-instantiation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TemplateUtils.cpp b/src/TemplateUtils.cpp
index 5727631..5ebe6d1 100644
--- a/src/TemplateUtils.cpp
+++ b/src/TemplateUtils.cpp
@@ -94,7 +94,7 @@ std::string clazy::getTemplateArgumentTypeStr(ClassTemplateSpecializationDecl *s
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
@@ -116,7 +116,7 @@ clang::QualType clazy::getTemplateArgumentType(ClassTemplateSpecializationDecl *
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
diff --git a/src/checks/manuallevel/qvariant-template-instantiation.cpp b/src/checks/manuallevel/qvariant-template-instantiation.cpp
index 498295d..7165b6f 100644
--- a/src/checks/manuallevel/qvariant-template-instantiation.cpp
+++ b/src/checks/manuallevel/qvariant-template-instantiation.cpp
@@ -63,12 +63,12 @@ void QVariantTemplateInstantiation::VisitStmt(clang::Stmt *stm)
         if (const auto *templateDecl = specDecl->getSpecializedTemplate()) {
             if (templateDecl->getNameAsString() == "QHash" || templateDecl->getNameAsString() == "QMap") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 2) || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 2) || templateArgs.get(1).getKind() != TemplateArgument::Type || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             } else if (templateDecl->getNameAsString() == "QList") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 1) || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 1) || templateArgs.get(0).getKind() != TemplateArgument::Type || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             }
-- 
2.43.0


From 28b0b9a3a6bcb7afc198556e50c728d6c2c7cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 38/42] fix: readlock-detaching: don't crash on calls through
 pointers to members

---
 src/checks/level1/readlock-detaching.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 59359b7..cf4abd2 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -99,7 +99,11 @@ public:
         }
 
         const auto &methods = clazy::detachingMethods();
-        const auto methodName = clazy::name(call->getMethodDecl());
+        const auto *methodDecl = call->getMethodDecl();
+        if (!methodDecl) { // A call through a pointer to member
+            return true;
+        }
+        const auto methodName = clazy::name(methodDecl);
         if (isLocker && methodName == "unlock") {
             lockRange.setEnd(call->getEndLoc());
             return true;
-- 
2.43.0


From ee3e79fa8ab389d06740467831c32211229dd7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 39/42] fix: strict-iterators: don't crash on initializers
 outside of functions

---
 src/checks/level0/strict-iterators.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/level0/strict-iterators.cpp b/src/checks/level0/strict-iterators.cpp
index f4d57bd..540cddb 100644
--- a/src/checks/level0/strict-iterators.cpp
+++ b/src/checks/level0/strict-iterators.cpp
@@ -96,8 +96,8 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     // Allow conversions for mutating member functions of Qt container classes
     if (implicitCast->getCastKind() == CK_ConstructorConversion) {
         if (auto *memberCall = dyn_cast_or_null<CXXMemberCallExpr>(m_context->parentMap->getParent(implicitCast))) {
-            auto memberFunctionDecl = memberCall->getMethodDecl();
-            if (auto *parentClass = memberFunctionDecl->getParent()) {
+            auto memberFunctionDecl = memberCall->getMethodDecl(); // null for pointers to members
+            if (auto *parentClass = memberFunctionDecl ? memberFunctionDecl->getParent() : nullptr) {
                 static const std::vector<std::string> allow = {
                     "QMap<>::insert",
                     "QMap<>::erase",
@@ -139,7 +139,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     }
 
     auto *p = m_context->parentMap->getParent(implicitCast);
-    if (isa<CXXOperatorCallExpr>(p)) {
+    if (isa_and_nonnull<CXXOperatorCallExpr>(p)) {
         return false;
     }
 
-- 
2.43.0


From eefbee6148b668a6424dce256253d510d9d55782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 40/42] fix: isempty-vs-count: don't crash on initializers
 outside of functions

---
 src/checks/manuallevel/isempty-vs-count.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..2db215f 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -102,7 +102,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
     SourceRange fixitRange = memberCall->getSourceRange();
     std::string operatorPrefix = "!";
     auto *parent = m_context->parentMap->getParent(stmt);
-    if (auto unaryOp = dyn_cast<UnaryOperator>(parent)) {
+    if (auto unaryOp = dyn_cast_or_null<UnaryOperator>(parent)) {
         if (unaryOp->getOpcode() == UnaryOperator::Opcode::UO_LNot) {
             operatorPrefix = "";
             fixitRange = unaryOp->getSourceRange();
-- 
2.43.0


From 31bc23848cfc49e6428786ecf32929931018bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 41/42] fix: modernize-list-initialization: don't crash on
 operators outside of functions and on unary ones

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 9098946..b3f0655 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -53,7 +53,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
             return;
         }
         auto parent = m_context->parentMap->getParent(topLevelOperatorCall);
-        if (!isa<ImplicitCastExpr>(parent)) {
+        if (!isa_and_nonnull<ImplicitCastExpr>(parent)) {
             return;
         }
         checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
@@ -92,6 +92,9 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
             }
         }
         opCall = dyn_cast<CXXOperatorCallExpr>(opCall->getArg(0));
+        if (opCall && opCall->getOperator() != OverloadedOperatorKind::OO_LessLess) {
+            return; // abort since some other operator produced the initial list
+        }
     }
 
     if (replacementTexts.empty()) {
-- 
2.43.0


From dc0635946351c81a149a446dd1d8804ef286d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 42/42] fix: reserve-candidates: don't crash on append methods
 without parameters

---
 src/checks/manuallevel/reserve-candidates.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index ad9496c..b913121 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -68,6 +68,10 @@ bool ReserveCandidates::isCandidateMethod(CXXMethodDecl *methodDecl)
         return false;
     }
 
+    if (methodDecl->getNumParams() == 0) { // A method of a derived class
+        return false;
+    }
+
     // Catch cases like: QList<T>::append(const QList<T> &), which don't make sense to reserve.
     // In this case, the parameter has the same type of the class
     ParmVarDecl *param = methodDecl->getParamDecl(0);
-- 
2.43.0

