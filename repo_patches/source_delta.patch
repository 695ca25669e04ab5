From c8f203c82fc038b04a42cd1146a62a2ac5fdd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:25 +0000
Subject: [PATCH 01/39] fix: recompile objects when all precompiled headers are
 removed from a target

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..378282c 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,10 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
+      // NOTE, When all pchs are removed the PCH task is not run, but the
+      // objects still need to be compiled without it
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From 79d71a2940d370adf0e6baffdcf0980fe4180da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:54 +0000
Subject: [PATCH 02/39] fix: recompile the precompiled header when a target
 switches between C and C++

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 6 +++++-
 buildcc/schema/include/schema/target_schema.h        | 5 +++++
 buildcc/schema/src/target_serialization.cpp          | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..0ed3abe 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -64,7 +64,8 @@ namespace buildcc::internal {
 // PUBLIC
 
 void CompilePch::CacheCompileCommand() {
-  source_path_ = ConstructSourcePath(target_.GetState().ContainsCpp());
+  target_.user_.pch_cpp = target_.GetState().ContainsCpp();
+  source_path_ = ConstructSourcePath(target_.user_.pch_cpp);
   command_ = ConstructCompileCommand();
 }
 
@@ -100,6 +101,9 @@ void CompilePch::BuildCompile() {
                !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
+    } else if (load_target_schema.pch_cpp != user_target_schema.pch_cpp) {
+      // C <-> C++, the pch is compiled by a different compiler
+      target_.dirty_ = true;
     } else if (!load_target_schema.pch_compiled) {
       // TODO, Replace this with fs::exists to check if compiled pch file is
       // present or no
diff --git a/buildcc/schema/include/schema/target_schema.h b/buildcc/schema/include/schema/target_schema.h
index 474bcb8..995f4fa 100644
--- a/buildcc/schema/include/schema/target_schema.h
+++ b/buildcc/schema/include/schema/target_schema.h
@@ -53,6 +53,8 @@ struct TargetSchema {
 
   // TODO, Verify this using fs::exists
   bool pch_compiled{false};
+  // true when the pch is compiled as C++, false when compiled as C
+  bool pch_cpp{false};
   bool target_linked{false};
 
 private:
@@ -83,6 +85,7 @@ private:
   static constexpr const char *const kLinkDependencies = "link_dependencies";
 
   static constexpr const char *const kPchCompiled = "pch_compiled";
+  static constexpr const char *const kPchCpp = "pch_cpp";
   static constexpr const char *const kTargetLinked = "target_linked";
 
 public:
@@ -109,6 +112,7 @@ public:
     j[kCompileDependencies] = schema.compile_dependencies;
     j[kLinkDependencies] = schema.link_dependencies;
     j[kPchCompiled] = schema.pch_compiled;
+    j[kPchCpp] = schema.pch_cpp;
     j[kTargetLinked] = schema.target_linked;
   }
 
@@ -135,6 +139,7 @@ public:
     j.at(kCompileDependencies).get_to(schema.compile_dependencies);
     j.at(kLinkDependencies).get_to(schema.link_dependencies);
     j.at(kPchCompiled).get_to(schema.pch_compiled);
+    j.at(kPchCpp).get_to(schema.pch_cpp);
     j.at(kTargetLinked).get_to(schema.target_linked);
   }
 };
diff --git a/buildcc/schema/src/target_serialization.cpp b/buildcc/schema/src/target_serialization.cpp
index 5582606..8951320 100644
--- a/buildcc/schema/src/target_serialization.cpp
+++ b/buildcc/schema/src/target_serialization.cpp
@@ -22,6 +22,7 @@ namespace buildcc::internal {
 void TargetSerialization::UpdatePchCompiled(const TargetSchema &store) {
   store_.pchs = store.pchs;
   store_.pch_compiled = true;
+  store_.pch_cpp = store.pch_cpp;
 }
 
 // TODO, When you add source here you need to add it with the hash
@@ -39,6 +40,7 @@ void TargetSerialization::UpdateStore(const TargetSchema &store) {
   TargetSchema temp = store;
   temp.pchs = store_.pchs;
   temp.pch_compiled = store_.pch_compiled;
+  temp.pch_cpp = store_.pch_cpp;
   temp.sources = store_.sources;
   temp.target_linked = store_.target_linked;
   store_ = std::move(temp);
-- 
2.43.0


From 2c0c9bf51bde7500f19baedcff4f2e09cac094ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 03/39] fix: data race on the task state between get_task_state
 and set_task_state

---
 buildcc/lib/env/src/task_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..270ed4f 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -36,6 +36,9 @@ void set_task_state(TaskState state) {
   current_state = state;
 }
 
-TaskState get_task_state() { return current_state; }
+TaskState get_task_state() {
+  std::lock_guard<std::mutex> guard(current_state_mutex);
+  return current_state;
+}
 
 } // namespace buildcc::env
-- 
2.43.0


From d4a70e863aa51d3a091d0fe430f285b0349fe5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 04/39] fix: refuse a dependency of a builder on itself

---
 buildcc/lib/args/src/register.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..8e3b3ce 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -157,6 +157,10 @@ void Reg::Instance::Dep(const internal::BuilderInterface &target,
                     "dependency before Instance::Dep API");
 
   const std::string &dep_unique_id = dependency.GetUniqueId();
+  env::assert_fatal(
+      target.GetUniqueId() != dep_unique_id,
+      fmt::format("Cyclic dependency detected when adding '{}'",
+                  dep_unique_id));
   DepDetectDuplicate(target_iter->second, dep_unique_id);
   DepDetectCyclicDependency(target_iter->second, dep_unique_id);
 
-- 
2.43.0


From 5ecc4337e6db3655e540267ee5f3906430479545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 05/39] fix: visit every builder once when detecting cyclic
 dependencies

---
 buildcc/lib/args/src/register.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index 8e3b3ce..b62213f 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -18,6 +18,7 @@
 
 #include <filesystem>
 #include <queue>
+#include <unordered_set>
 
 #include "fmt/format.h"
 
@@ -46,6 +47,7 @@ void DepDetectDuplicate(const tf::Task &target_task, const std::string &match) {
 void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
   std::queue<tf::Task> taskqueue;
+  std::unordered_set<std::string> visited;
   taskqueue.push(target_task);
 
   while (!taskqueue.empty()) {
@@ -54,7 +56,9 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
 
     current_task.for_each_successor([&](const tf::Task &t) {
       buildcc::env::log_trace("for_each_successor", t.name());
-      taskqueue.push(t);
+      if (visited.insert(t.name()).second) {
+        taskqueue.push(t);
+      }
       buildcc::env::assert_fatal(
           !(t.name() == match),
           fmt::format("Cyclic dependency detected when adding '{}'", t.name()));
-- 
2.43.0


From e02c483d8e169c2b03339c34377765422054db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 06/39] fix: a failing registered test fails the run

---
 buildcc/lib/args/src/tasks.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..2e4c99f 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -42,13 +42,20 @@ void Reg::Instance::RunBuild() {
 
 void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
-  test_tf.for_each(
-      tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+  test_tf.for_each(tests_.begin(), tests_.end(),
+                   [](const std::pair<std::string, TestInfo> &p) {
+                     try {
+                       p.second.TestRunner();
+                     } catch (...) {
+                       env::set_task_state(env::TaskState::FAILURE);
+                     }
+                   });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From 5515db79ded1afa703fe6c6bd5d833c3462a3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 07/39] fix: save_file reports failure when the data could not
 be flushed

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..efcc755 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  (void)ofs.write(buf, len);
+  // Data is buffered, it is only written for sure once closed
+  ofs.close();
+  return ofs.good();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From 1d74a8ab697c0acd5c043b2bef585653447d8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 08/39] fix: load_file reports read errors and never returns
 short or padded data

---
 buildcc/lib/env/include/env/util.h | 34 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index efcc755..1e9ef43 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -70,10 +70,8 @@ inline bool save_file(const char *name, const std::string &buf, bool binary) {
 
 /**
  * Condition under which code throws and should terminate
- * 1: fs::file_size -> filesystem_error, bad_alloc error
- * 2: resize -> length_error, bad_alloc error
- * 3: ifs.read -> badbit
- * 4:
+ * 1: append -> length_error, bad_alloc error
+ * 2: ifs.read -> badbit
  */
 inline bool load_file(const char *name, bool binary, std::string *buf) {
   if (name == nullptr || buf == nullptr) {
@@ -90,24 +88,22 @@ inline bool load_file(const char *name, bool binary, std::string *buf) {
   if (!ifs.is_open()) {
     return false;
   }
-  if (binary) {
-    // The fastest way to read a file into a string.
-    // If we cannot get the file size we should terminate
-    // * 1
-    auto size = static_cast<size_t>(fs::file_size(name));
+  // Read till the end instead of trusting the file size, the size does not
+  // match what can be read for text (Windows), special or changing files
+  std::string data;
+  std::vector<char> chunk(64 * 1024);
+  do {
     // * 2
-    buf->resize(size);
-    // * 3
     // flawfinder: ignore
-    ifs.read(buf->data(), buf->size());
-  } else {
-    // This is slower, but works correctly on all platforms for text files.
-    // * 4
-    std::ostringstream oss;
-    oss << ifs.rdbuf();
-    *buf = oss.str();
+    ifs.read(chunk.data(), static_cast<std::streamsize>(chunk.size()));
+    // * 1
+    data.append(chunk.data(), static_cast<size_t>(ifs.gcount()));
+  } while (ifs.good());
+  if (ifs.bad()) {
+    return false;
   }
-  return !ifs.bad();
+  *buf = std::move(data);
+  return true;
 }
 
 // TODO, Shift this to a common apis folder or something
-- 
2.43.0


From 1b952f529268ebaafab2a2fce6455930f86c80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 09/39] fix: set_log_pattern reads past the end of a view that
 is not null terminated

---
 buildcc/lib/env/src/logging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/env/src/logging.cpp b/buildcc/lib/env/src/logging.cpp
index a532f7b..3d324aa 100644
--- a/buildcc/lib/env/src/logging.cpp
+++ b/buildcc/lib/env/src/logging.cpp
@@ -21,7 +21,7 @@
 namespace buildcc::env {
 
 void set_log_pattern(std::string_view pattern) {
-  spdlog::set_pattern(pattern.data());
+  spdlog::set_pattern(std::string(pattern));
 }
 
 void set_log_level(LogLevel level) {
-- 
2.43.0


From d4583cfb69fc8e25b6e342fce0d73f497f72559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:42 +0000
Subject: [PATCH 10/39] fix: storage leaks an object added under an identifier
 that is taken

---
 buildcc/lib/env/include/env/storage.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..db107e5 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -22,6 +22,7 @@
 #include <string>
 #include <typeinfo>
 #include <unordered_map>
+#include <vector>
 
 #include "env/assert_fatal.h"
 
@@ -48,7 +49,10 @@ public:
       env::log_trace("Cleaning", identifier);
       Remove<T>(ptr);
     };
-    ptrs_.emplace(identifier, metadata);
+    if (!ptrs_.emplace(identifier, metadata).second) {
+      // identifier is taken, ptr is still owned (and cleared) by the storage
+      unnamed_ptrs_.push_back(metadata);
+    }
     return *ptr;
   }
 
@@ -57,6 +61,10 @@ public:
       ptr_iter.second.destructor();
     }
     ptrs_.clear();
+    for (const auto &metadata : unnamed_ptrs_) {
+      metadata.destructor();
+    }
+    unnamed_ptrs_.clear();
   }
 
   template <typename T> const T &ConstRef(const std::string &identifier) const {
@@ -110,6 +118,7 @@ private:
 
 private:
   std::unordered_map<std::string, PtrMetadata> ptrs_;
+  std::vector<PtrMetadata> unnamed_ptrs_;
 };
 
 class Storage {
-- 
2.43.0


From 11c0e9aa69fe08155db740dc1f6ef1a5e9fabace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 11/39] fix: compile_commands.json is not valid JSON when
 commands or paths need escaping

---
 .../plugins/src/clang_compile_commands.cpp    | 34 +++++--------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..a3cd541 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -23,21 +23,7 @@
 #include "env/util.h"
 
 // third party
-#include "fmt/format.h"
-#include "fmt/ranges.h"
-
-namespace {
-
-// clang-format off
-constexpr const char *const clang_compile_command_format =
-R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
-}})";
-// clang-format on
-
-} // namespace
+#include "nlohmann/json.hpp"
 
 namespace buildcc::plugin {
 
@@ -57,7 +43,7 @@ void ClangCompileCommands::Generate() {
   }
   env::log_trace("ClangCompileCommands", "Generate -> true");
 
-  std::vector<std::string> compile_command_list;
+  json compile_command_list = json::array();
 
   for (const auto *t : targets_) {
     const auto &source_files = t->GetSourceFiles();
@@ -65,19 +51,15 @@ void ClangCompileCommands::Generate() {
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
-
-      std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
-      compile_command_list.push_back(temp);
+      compile_command_list.push_back({
+          {"directory", path_as_string(Project::GetBuildDir())},
+          {"command", t->GetCompileCommand(source)},
+          {"file", source},
+      });
     }
   }
 
-  std::string compile_commands =
-      fmt::format("[\n{}\n]", fmt::join(compile_command_list, ",\n"));
+  std::string compile_commands = compile_command_list.dump(2);
 
   // DONE, Convert to json
   // DONE, Save file
-- 
2.43.0


From 1940960d711ef135140a7edb1d2b00f1c3492212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 12/39] fix: regenerate template outputs when a substituted
 value changes

---
 buildcc/lib/env/include/env/command.h                   | 5 +++++
 buildcc/lib/target/src/generator/template_generator.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/command.h b/buildcc/lib/env/include/env/command.h
index c054e6b..69bee0b 100644
--- a/buildcc/lib/env/include/env/command.h
+++ b/buildcc/lib/env/include/env/command.h
@@ -86,6 +86,11 @@ public:
    */
   const std::string &GetDefaultValueByKey(const std::string &key) const;
 
+  const std::unordered_map<std::string, std::string> &
+  GetDefaultValues() const {
+    return default_values_;
+  }
+
 private:
   std::unordered_map<std::string, std::string> default_values_;
 };
diff --git a/buildcc/lib/target/src/generator/template_generator.cpp b/buildcc/lib/target/src/generator/template_generator.cpp
index 45cab89..ccf5c46 100644
--- a/buildcc/lib/target/src/generator/template_generator.cpp
+++ b/buildcc/lib/target/src/generator/template_generator.cpp
@@ -62,12 +62,16 @@ std::string TemplateGenerator::Parse(const std::string &pattern) const {
  * Use `GetTaskflow` for the registered tasks
  */
 void TemplateGenerator::Build() {
+  // The outputs depend on the substituted values as much as on the inputs
+  using Values = std::unordered_map<std::string, std::string>;
+  auto values_blob_handler = std::make_shared<TypedCustomBlobHandler<Values>>(
+      ConstCommand().GetDefaultValues());
   for (const auto &info : template_infos_) {
     std::string name = string_as_path(ParsePattern(info.input_pattern))
                            .lexically_relative(Project::GetRootDir())
                            .string();
     AddIdInfo(name, {info.input_pattern}, {info.output_pattern},
-              template_generate_cb);
+              template_generate_cb, values_blob_handler);
   }
   this->CustomGenerator::Build();
 }
-- 
2.43.0


From 108d6d28860ed5a4d7cea92371a7adc198503b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 13/39] fix: a stored blob that cannot be verified is out of
 date instead of a permanent failure

---
 .../custom_generator/custom_blob_handler.h       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
index 3b64d23..489bcfd 100644
--- a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
+++ b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
@@ -36,9 +36,10 @@ public:
 
   bool CheckChanged(const std::vector<uint8_t> &previous,
                     const std::vector<uint8_t> &current) const {
-    env::assert_fatal(
-        Verify(previous),
-        "Stored blob is corrupted or User verification is incorrect");
+    // Stored blob could be corrupted, absent or of a different type
+    if (!Verify(previous)) {
+      return true;
+    }
     env::assert_fatal(
         Verify(current),
         "Current blob is corrupted or User verification is incorrect");
@@ -87,8 +88,13 @@ private:
   const Type &data_;
 
   bool Verify(const std::vector<uint8_t> &serialized_data) const override {
-    json j = json::from_msgpack(serialized_data, true, false);
-    return !j.is_discarded();
+    bool verified = true;
+    try {
+      (void)Deserialize(serialized_data);
+    } catch (const std::exception &) {
+      verified = false;
+    }
+    return verified;
   }
 
   bool IsEqual(const std::vector<uint8_t> &previous,
-- 
2.43.0


From c7c1aa42511852fcac92fad6e6df8e7e1eca15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 14/39] fix: rerun a generator id when its user blob is removed

---
 buildcc/lib/target/src/custom_generator/custom_generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..b278f23 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -80,6 +80,9 @@ struct Comparator {
       // to run only when changed == false
       changed = current_id_info.blob_handler->CheckChanged(
           previous_id_info.userblob, current_id_info.userblob);
+    } else if (!changed) {
+      // Blob handler could have been removed
+      changed = !previous_id_info.userblob.empty();
     }
     return changed;
   }
-- 
2.43.0


From 223be980c68844ced6c7a26ae4c98508c5809f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:47 +0000
Subject: [PATCH 15/39] fix: an input edited while its generator runs is lost
 to the next build

---
 buildcc/lib/target/include/target/custom_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..3e13029 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -50,8 +50,9 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
   };
 
   void ConvertToInternal() {
+    // NOTE, Every id_info has already been converted before its callback was
+    // run. Do not recompute it here, inputs might have changed since then
     for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
-- 
2.43.0


From f98c132f485e41824f4f491eace695b0a06edd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 16/39] fix: quote source, include dir, lib dir and library
 paths with spaces

---
 buildcc/lib/target/src/target/build.cpp            | 14 ++++++++++----
 .../target/src/target/friend/compile_object.cpp    |  3 ++-
 .../lib/target/src/target/friend/link_target.cpp   |  4 +++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 18ae8fa..bc7cd3b 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -69,13 +69,19 @@ void Target::Build() {
     compile_object_.AddObjectData(source_info.path);
   }
 
+  // NOTE, fs::path is formatted for the command line (see fmt::formatter)
+  const auto &include_dirs = GetIncludeDirs();
+  const auto &lib_dirs = GetLibDirs();
+
   // Target default arguments
   command_.AddDefaultArguments({
       {kIncludeDirs,
-       internal::aggregate_with_prefix<std::vector<std::string>>(
-           toolchain_.GetConfig().prefix_include_dir, GetIncludeDirs())},
-      {kLibDirs, internal::aggregate_with_prefix<std::vector<std::string>>(
-                     toolchain_.GetConfig().prefix_lib_dir, GetLibDirs())},
+       internal::aggregate_with_prefix<std::vector<fs::path>>(
+           toolchain_.GetConfig().prefix_include_dir,
+           {include_dirs.begin(), include_dirs.end()})},
+      {kLibDirs, internal::aggregate_with_prefix<std::vector<fs::path>>(
+                     toolchain_.GetConfig().prefix_lib_dir,
+                     {lib_dirs.begin(), lib_dirs.end()})},
       {kPreprocessorFlags, internal::aggregate(GetPreprocessorFlags())},
       {kCommonCompileFlags, internal::aggregate(GetCommonCompileFlags())},
       //  TODO, Cache more flags here
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 378282c..7adfdb5 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..2808ffc 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -35,6 +35,7 @@ void LinkTarget::CacheLinkCommand() {
 
   const std::string output_target = fmt::format("{}", output_);
   const auto &target_user_schema = target_.user_;
+  const auto lib_paths = target_user_schema.libs.GetPaths();
   command_ = target_.command_.Construct(
       target_.GetConfig().link_command,
       {
@@ -42,7 +43,8 @@ void LinkTarget::CacheLinkCommand() {
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
            fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+                       internal::aggregate(std::vector<fs::path>(
+                           lib_paths.begin(), lib_paths.end())),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 48d4286c28241d94a0aa0f44f5857a3b91438514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 17/39] fix: pch source file cannot be created when the build
 directory has spaces

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index 0ed3abe..390ef77 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -114,7 +114,7 @@ void CompilePch::BuildCompile() {
   if (target_.dirty_) {
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From 741e18857ddc80828b95615fb305d74ec30e5972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:55 +0000
Subject: [PATCH 18/39] fix: different sources never share an object file or
 the target's output path

---
 .../src/target/friend/compile_object.cpp      | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 7adfdb5..a3a9f80 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -124,7 +124,7 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // - Convert .. to __
   // NOTE, Similar to how CMake handles out of root files
   std::string relstr = relative.string();
-  if (relstr.find("..") != std::string::npos) {
+  if (!relative.empty() && *relative.begin() == "..") {
     env::log_warning(
         __FUNCTION__,
         fmt::format("Out of Root Source detected '{}' -> '{}'. Use "
@@ -132,11 +132,6 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
                     "path -> absolute target build path. By "
                     "default converts '..' to '__'",
                     absolute_source_file.string(), relstr));
-    std::replace(relstr.begin(), relstr.end(), '.', '_');
-    // Converts above
-    // .. / file.cpp -> __ / file.cpp
-    // .. / folder / file.cpp -> __ / folder / file.cpp
-    relative = relstr;
 
     // TODO, path replacement found
     // * API
@@ -156,8 +151,29 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
     //     replacement_strategy.second);
   }
 
+  // Converts above
+  // .. / file.cpp -> __ / file.cpp
+  // .. / folder / file.cpp -> __ / folder / file.cpp
+  // NOTE, Different sources must always have different objects. Folders with
+  // names that are used by `..` (or by the target output) move out of the way
+  const std::string target_filename = target_.GetTargetPath().filename().string();
+  fs::path relative_object;
+  for (const auto &component : relative) {
+    std::string folder = component.string();
+    const bool is_first = relative_object.empty();
+    const auto base_len = folder.find_last_not_of('_') + 1;
+    if (folder == "..") {
+      folder = "__";
+    } else if ((base_len == 0 && folder.size() > 1) ||
+               (is_first && folder.substr(0, base_len) == target_filename)) {
+      folder += "_";
+    }
+    relative_object /= folder;
+  }
+
   // Compute relative object path
-  fs::path absolute_compiled_source = target_.GetTargetBuildDir() / relative;
+  fs::path absolute_compiled_source =
+      target_.GetTargetBuildDir() / relative_object;
   absolute_compiled_source.replace_filename(
       fmt::format("{}{}", absolute_source_file.filename().string(),
                   target_.toolchain_.GetConfig().obj_ext));
-- 
2.43.0


From ea0680fc222ed9b43285cbea644cbe25788512e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:34 +0000
Subject: [PATCH 19/39] fix: a build that is killed midway leaves a state that
 describes older artifacts

---
 .../src/custom_generator/custom_generator.cpp       | 13 ++++++++++---
 .../lib/target/src/target/friend/compile_object.cpp |  7 +++++++
 .../lib/target/src/target/friend/compile_pch.cpp    |  4 ++++
 .../lib/target/src/target/friend/link_target.cpp    |  4 ++++
 .../schema/interface/serialization_interface.h      | 12 ++++++++++++
 5 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index b278f23..5e19846 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -122,9 +122,10 @@ struct TaskFunctor {
   TaskFunctor(const std::string &id,
               UserCustomGeneratorSchema::UserIdInfo &id_info,
               const Comparator &comparator, const env::Command &command,
+              const internal::CustomGeneratorSerialization &serialization,
               TaskState &state)
       : id_(id), id_info_(id_info), comparator(comparator), command_(command),
-        state_(state) {}
+        serialization_(serialization), state_(state) {}
 
   void operator()() {
     if (env::get_task_state() != env::TaskState::SUCCESS) {
@@ -143,6 +144,9 @@ struct TaskFunctor {
                                    id_info_.outputs.GetPaths(),
                                    id_info_.userblob);
 
+        env::assert_fatal(serialization_.RemoveFile(),
+                          fmt::format("Could not update {}",
+                                      serialization_.GetSerializedFile()));
         bool success = id_info_.generate_cb(ctx);
         env::assert_fatal(success,
                           fmt::format("Generate Cb failed for id {}", id_));
@@ -159,6 +163,7 @@ private:
 
   const Comparator &comparator;
   const env::Command &command_;
+  const internal::CustomGeneratorSerialization &serialization_;
 
   TaskState &state_;
 };
@@ -280,14 +285,16 @@ void CustomGenerator::GenerateTask() {
       for (const auto &id : comparator.GetAddedIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
       for (const auto &id : comparator.GetCheckLaterIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index a3a9f80..1b9c405 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -229,6 +229,13 @@ void CompileObject::BuildObjectCompile(
   } else {
     RecompileSources(source_files, dummy_source_files);
   }
+
+  if (!source_files.empty()) {
+    env::assert_fatal(
+        target_.serialization_.RemoveFile(),
+        fmt::format("Could not update {}",
+                    target_.serialization_.GetSerializedFile()));
+  }
 }
 
 void CompileObject::PreObjectCompile() {
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index 390ef77..7a3244c 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -112,6 +112,10 @@ void CompilePch::BuildCompile() {
   }
 
   if (target_.dirty_) {
+    env::assert_fatal(
+        target_.serialization_.RemoveFile(),
+        fmt::format("Could not update {}",
+                    target_.serialization_.GetSerializedFile()));
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
       const std::string p = path_as_string(source_path_);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index 2808ffc..ab88caa 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -103,6 +103,10 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    env::assert_fatal(
+        target_.serialization_.RemoveFile(),
+        fmt::format("Could not update {}",
+                    target_.serialization_.GetSerializedFile()));
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index c09bdde..ed54b05 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -56,6 +56,18 @@ public:
 
   bool StoreToFile() { return Store(serialized_file_); }
 
+  // Call before the artifacts described by the serialized file are modified
+  // NOTE, If we are stopped midway (before `StoreToFile`) the artifacts are
+  // not what the serialized file says they are
+  bool RemoveFile() const {
+    std::error_code ec;
+    if (!fs::is_regular_file(serialized_file_, ec)) {
+      return true;
+    }
+    fs::remove(serialized_file_, ec);
+    return !ec;
+  }
+
   const fs::path &GetSerializedFile() const noexcept {
     return serialized_file_;
   }
-- 
2.43.0


From 14829d54548a83007896bf8f51204b92c89fccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:52 +0000
Subject: [PATCH 20/39] fix: a source added twice is compiled once

---
 buildcc/lib/target/src/target/build.cpp |  3 +++
 buildcc/schema/include/schema/path.h    | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index bc7cd3b..e1e04a2 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -59,6 +59,9 @@ void Target::Build() {
     state_.PchDetected();
   }
 
+  // A source could have been added multiple times, compile it once
+  user_.sources.RemoveDuplicates();
+
   // Source - Object relation
   // Source state
   for (const auto &source_info : user_.sources.GetPathInfos()) {
diff --git a/buildcc/schema/include/schema/path.h b/buildcc/schema/include/schema/path.h
index 7509173..cb1aa03 100644
--- a/buildcc/schema/include/schema/path.h
+++ b/buildcc/schema/include/schema/path.h
@@ -173,6 +173,20 @@ public:
 
   // TODO, Create a move version of Insert(PathInfoList &&other)
 
+  /**
+   * @brief Keeps the first of every path
+   */
+  void RemoveDuplicates() {
+    std::unordered_set<std::string> unique_paths;
+    std::vector<PathInfo> unique_infos;
+    for (auto &info : infos_) {
+      if (unique_paths.insert(info.path).second) {
+        unique_infos.emplace_back(std::move(info));
+      }
+    }
+    infos_ = std::move(unique_infos);
+  }
+
   void ComputeHashForAll() {
     for (auto &info : infos_) {
       info.hash = ComputeHash(info.path);
-- 
2.43.0


From 2c80aff7af582b9fc669336e59b096a5a40a45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:52 +0000
Subject: [PATCH 21/39] fix: a header edited while the precompiled header is
 compiled is lost to the next build

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 1b9c405..a4ab59c 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -245,7 +245,11 @@ void CompileObject::PreObjectCompile() {
   target_user_schema.sources.ComputeHashForAll();
 
   // Convert user_header_files to current_header_files
-  target_user_schema.headers.ComputeHashForAll();
+  // NOTE, The PCH task has already done this. Do not recompute it here, headers
+  // might have changed since the PCH was compiled
+  if (!target_.GetState().ContainsPch()) {
+    target_user_schema.headers.ComputeHashForAll();
+  }
 
   // Convert user_compile_dependencies to current_compile_dependencies
   target_user_schema.compile_dependencies.ComputeHashForAll();
-- 
2.43.0


From ddac39a53face3abe42d5252019501e1b448633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:22 +0000
Subject: [PATCH 22/39] fix: toolchain lookup matches entire tool names and
 skips search paths that cannot be read

---
 buildcc/lib/toolchain/src/api/toolchain_find.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..45c541f 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -45,15 +45,21 @@ bool ContainsToolchainExecutables(
   std::unordered_set<std::string> exes(
       {executables.assembler, executables.c_compiler, executables.cpp_compiler,
        executables.archiver, executables.linker});
+  constexpr const char *os_executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<os_executable_ext != nullptr>("OS not supported");
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    // The executable extension of the OS is optional
+    exes.erase(dir_iter.path().filename().string());
+    if (dir_iter.path().extension() == os_executable_ext) {
+      exes.erase(dir_iter.path().stem().string());
+    }
   }
   return exes.empty();
 }
@@ -83,11 +89,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec) || ec) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From 22a6f0a687ad793ffd059697df078523524f9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:43 +0000
Subject: [PATCH 23/39] fix: a field without a name takes an arbitrary value

---
 buildcc/lib/env/src/command.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/buildcc/lib/env/src/command.cpp b/buildcc/lib/env/src/command.cpp
index 2962aa2..bdbd678 100644
--- a/buildcc/lib/env/src/command.cpp
+++ b/buildcc/lib/env/src/command.cpp
@@ -24,6 +24,29 @@
 #include "env/assert_fatal.h"
 #include "env/logging.h"
 
+namespace {
+
+// `{}`, `{:spec}` and `{0}` are fields without a name
+bool ContainsPositionalField(const std::string &pattern) {
+  bool inside_field = false;
+  for (size_t i = 0; i < pattern.size(); i++) {
+    const char next = (i + 1) < pattern.size() ? pattern[i + 1] : '\0';
+    if (pattern[i] == '{' && next == '{' && !inside_field) {
+      i++;
+    } else if (pattern[i] == '{') {
+      if (next == '}' || next == ':' || (next >= '0' && next <= '9')) {
+        return true;
+      }
+      inside_field = true;
+    } else if (pattern[i] == '}') {
+      inside_field = false;
+    }
+  }
+  return false;
+}
+
+} // namespace
+
 namespace buildcc::env {
 
 void Command::AddDefaultArgument(const std::string &key,
@@ -60,6 +83,11 @@ std::string Command::Construct(
                   store.push_back(fmt::arg(p.first, p.second));
                 });
 
+  // NOTE, Our values do not have an order
+  const bool single_value = (default_values_.size() + arguments.size()) == 1;
+  env::assert_fatal(single_value || !ContainsPositionalField(pattern),
+                    "Construct command failed: fields must be named");
+
   // Construct your command
   std::string ret;
   try {
-- 
2.43.0


From f5a8469df15287ca050bc7736197ea47e6826e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:07 +0000
Subject: [PATCH 24/39] fix: a failure elsewhere makes a generator forget ids
 that are still current

---
 buildcc/lib/target/src/custom_generator/custom_generator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 5e19846..9414d1c 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -306,6 +306,11 @@ void CustomGenerator::GenerateTask() {
         dirty_ = dirty_ || state.should_run;
         if (state.run_success) {
           user_final_schema.ids.try_emplace(id, user_.ids.at(id));
+        } else if (!state.should_run && !comparator.IsIdAdded(id)) {
+          // NOTE, Not run because of some other failure. What we know about it
+          // is still correct
+          user_final_schema.internal_ids.try_emplace(
+              id, serialization_.GetLoad().internal_ids.at(id));
         }
       }
 
-- 
2.43.0


From 850355fe951ecbb3d7abe918e7a63d4a4ef3eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 25/39] fix: a target with the .bin extension is overwritten by
 its own recorded state

---
 buildcc/lib/target/include/target/target.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/include/target/target.h b/buildcc/lib/target/include/target/target.h
index 1e0ab02..68af12f 100644
--- a/buildcc/lib/target/include/target/target.h
+++ b/buildcc/lib/target/include/target/target.h
@@ -72,7 +72,11 @@ public:
                                         env.GetTargetBuildDir() /
                                             toolchain.GetName() / name)),
         name_(name), type_(type), config_(config),
-        serialization_(env_.GetTargetBuildDir() / fmt::format("{}.bin", name)),
+        // NOTE, Targets can use the .bin extension for their output
+        serialization_(env_.GetTargetBuildDir() /
+                       fmt::format(config.target_ext == ".bin" ? "{}.state.bin"
+                                                               : "{}.bin",
+                                   name)),
         compile_pch_(*this), compile_object_(*this), link_target_(*this) {
     Initialize();
   }
-- 
2.43.0


From a2b9781eb9390001b84ff6ac9396f9e0d2ede861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 26/39] fix: folders named like an object or a generated file
 of the target take that file's path

---
 .../src/target/friend/compile_object.cpp      | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index a4ab59c..90bebe9 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -16,6 +16,8 @@
 
 #include "target/friend/compile_object.h"
 
+#include <algorithm>
+
 #include "target/target.h"
 
 namespace {
@@ -155,17 +157,34 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // .. / file.cpp -> __ / file.cpp
   // .. / folder / file.cpp -> __ / folder / file.cpp
   // NOTE, Different sources must always have different objects. Folders with
-  // names that are used by `..` (or by the target output) move out of the way
-  const std::string target_filename = target_.GetTargetPath().filename().string();
+  // names that are used by `..`, by objects or by the other files of the target
+  // move out of the way
+  const fs::path pch_header_path = target_.GetPchHeaderPath();
+  const auto target_files = {
+      target_.GetTargetPath(),
+      target_.GetBinaryPath(),
+      pch_header_path,
+      target_.GetPchCompilePath(),
+      fs::path(pch_header_path).replace_extension(".c"),
+      fs::path(pch_header_path).replace_extension(".cpp"),
+  };
   fs::path relative_object;
   for (const auto &component : relative) {
     std::string folder = component.string();
     const bool is_first = relative_object.empty();
-    const auto base_len = folder.find_last_not_of('_') + 1;
+    const std::string base = folder.substr(0, folder.find_last_not_of('_') + 1);
+    const bool is_target_file = std::any_of(
+        target_files.begin(), target_files.end(), [&](const fs::path &file) {
+          const std::string name = file.filename().string();
+          return base.size() <= name.size() && name.size() <= folder.size() &&
+                 folder.compare(0, name.size(), name) == 0;
+        });
     if (folder == "..") {
       folder = "__";
-    } else if ((base_len == 0 && folder.size() > 1) ||
-               (is_first && folder.substr(0, base_len) == target_filename)) {
+    } else if ((base.empty() && folder.size() > 1) ||
+               (is_first && is_target_file) ||
+               fs::path(base).extension() ==
+                   target_.toolchain_.GetConfig().obj_ext) {
       folder += "_";
     }
     relative_object /= folder;
-- 
2.43.0


From eabf544c61c67cb8105856b2a9a3b8802156926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 27/39] fix: a second field without a name reads past the only
 value

---
 buildcc/lib/env/src/command.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/env/src/command.cpp b/buildcc/lib/env/src/command.cpp
index bdbd678..f95f4a2 100644
--- a/buildcc/lib/env/src/command.cpp
+++ b/buildcc/lib/env/src/command.cpp
@@ -27,16 +27,25 @@
 namespace {
 
 // `{}`, `{:spec}` and `{0}` are fields without a name
-bool ContainsPositionalField(const std::string &pattern) {
+// NOTE, `{0}` is never valid since our values do not have an order
+bool ContainsInvalidField(const std::string &pattern, bool is_single_value) {
   bool inside_field = false;
+  bool unnamed_field = false;
   for (size_t i = 0; i < pattern.size(); i++) {
     const char next = (i + 1) < pattern.size() ? pattern[i + 1] : '\0';
     if (pattern[i] == '{' && next == '{' && !inside_field) {
       i++;
     } else if (pattern[i] == '{') {
-      if (next == '}' || next == ':' || (next >= '0' && next <= '9')) {
+      if (next >= '0' && next <= '9') {
         return true;
       }
+      if (next == '}' || next == ':') {
+        // A single value can be used once without its name
+        if (!is_single_value || unnamed_field) {
+          return true;
+        }
+        unnamed_field = true;
+      }
       inside_field = true;
     } else if (pattern[i] == '}') {
       inside_field = false;
@@ -85,7 +94,7 @@ std::string Command::Construct(
 
   // NOTE, Our values do not have an order
   const bool single_value = (default_values_.size() + arguments.size()) == 1;
-  env::assert_fatal(single_value || !ContainsPositionalField(pattern),
+  env::assert_fatal(!ContainsInvalidField(pattern, single_value),
                     "Construct command failed: fields must be named");
 
   // Construct your command
-- 
2.43.0


From a37745e422771f0b99b111efa748d2ee7a9d8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:29 +0000
Subject: [PATCH 28/39] fix: static storage uses the logger after its
 destruction

---
 buildcc/lib/env/include/env/storage.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index db107e5..20f8b56 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -32,7 +32,9 @@ namespace buildcc {
 
 class ScopedStorage {
 public:
-  ScopedStorage() {}
+  // Clear logs, so the logger must be created before (and outlive) the storage,
+  // also when the storage is a static object
+  ScopedStorage() { env::log_trace("Storage", "Created"); }
   ~ScopedStorage() { Clear(); }
 
   ScopedStorage(const ScopedStorage &) = delete;
-- 
2.43.0


From 2f4d6438dc52547f39390bbf2cc331f28ad4aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:53 +0000
Subject: [PATCH 29/39] fix: a failing run exits while its worker threads are
 still running

---
 buildcc/lib/args/src/tasks.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 2e4c99f..c44d406 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -31,11 +31,14 @@ tf::Task Reg::Instance::BuildTask(CustomGenerator &generator) {
 }
 
 void Reg::Instance::RunBuild() {
-  tf::Executor executor;
-  env::log_info(__FUNCTION__,
-                fmt::format("Running with {} workers", executor.num_workers()));
-  executor.run(build_tf_);
-  executor.wait_for_all();
+  // A failure exits the process: join the workers before
+  {
+    tf::Executor executor;
+    env::log_info(__FUNCTION__, fmt::format("Running with {} workers",
+                                            executor.num_workers()));
+    executor.run(build_tf_);
+    executor.wait_for_all();
+  }
   env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
                     "Task state is not successful!");
 }
@@ -51,9 +54,11 @@ void Reg::Instance::RunTest() {
                      }
                    });
 
-  tf::Executor executor;
-  executor.run(test_tf);
-  executor.wait_for_all();
+  {
+    tf::Executor executor;
+    executor.run(test_tf);
+    executor.wait_for_all();
+  }
   env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
                     "Tests are not successful!");
 }
-- 
2.43.0


From 0e703e143c0b827d0d75f6c6f8a09d1cea8fbe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:50 +0000
Subject: [PATCH 30/39] fix: use the complete answer of the compiler when it
 arrives in several parts

---
 buildcc/toolchains/src/toolchain_infos.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..c2e1a01 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -16,6 +16,8 @@
 
 #include "toolchains/toolchain_infos.h"
 
+#include <numeric>
+
 #include "env/assert_fatal.h"
 #include "env/command.h"
 #include "env/logging.h"
@@ -46,7 +48,9 @@ GetGccCompilerVersion(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  // NOTE, Output can arrive in several parts
+  return std::accumulate(stdout_data.begin(), stdout_data.end(),
+                         std::string());
 }
 
 buildcc::env::optional<std::string>
@@ -57,7 +61,9 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  // NOTE, Output can arrive in several parts
+  return std::accumulate(stdout_data.begin(), stdout_data.end(),
+                         std::string());
 }
 
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
-- 
2.43.0


From f86fbd07f191e41eceea638755bd81806c5c47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 31/39] fix: forget a generator step whose output another step
 has overwritten in a failed build

---
 .../src/custom_generator/custom_generator.cpp | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 9414d1c..95fdd37 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -16,6 +16,8 @@
 
 #include "target/custom_generator.h"
 
+#include <algorithm>
+
 namespace {
 
 constexpr const char *const kGenerateTaskName = "Generate";
@@ -301,6 +303,14 @@ void CustomGenerator::GenerateTask() {
       // NOTE, Do not call detach otherwise this will fail
       subflow.join();
 
+      std::unordered_set<std::string> written_outputs;
+      for (const auto &[id, state] : states) {
+        if (state.should_run) {
+          const auto outputs = user_.ids.at(id).outputs.GetPaths();
+          written_outputs.insert(outputs.begin(), outputs.end());
+        }
+      }
+
       UserCustomGeneratorSchema user_final_schema;
       for (const auto &[id, state] : states) {
         dirty_ = dirty_ || state.should_run;
@@ -308,9 +318,15 @@ void CustomGenerator::GenerateTask() {
           user_final_schema.ids.try_emplace(id, user_.ids.at(id));
         } else if (!state.should_run && !comparator.IsIdAdded(id)) {
           // NOTE, Not run because of some other failure. What we know about it
-          // is still correct
-          user_final_schema.internal_ids.try_emplace(
-              id, serialization_.GetLoad().internal_ids.at(id));
+          // is still correct unless its output now belongs to another id
+          const auto &id_info = serialization_.GetLoad().internal_ids.at(id);
+          const auto outputs = id_info.outputs.GetPaths();
+          if (std::none_of(outputs.begin(), outputs.end(),
+                           [&](const std::string &output) {
+                             return written_outputs.count(output) == 1;
+                           })) {
+            user_final_schema.internal_ids.try_emplace(id, id_info);
+          }
         }
       }
 
-- 
2.43.0


From 83ab370c6e680b900142423e9365b9009ef7f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 32/39] fix: run the toolchain verification program when its
 path contains spaces

---
 buildexe/src/toolchain_setup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..a2dc231 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,8 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}", fmt::arg("executable",
+                                 fmt::format("{}", target.GetTargetPath()))));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From 0da64472a16f5cb89db80255cffaf6894526dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 33/39] fix: buildexe reports the failure of the script it runs

---
 buildexe/buildexe.cpp            | 6 +++---
 buildexe/src/build_env_setup.cpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/buildexe/buildexe.cpp b/buildexe/buildexe.cpp
index a93d554..2a6afcf 100644
--- a/buildexe/buildexe.cpp
+++ b/buildexe/buildexe.cpp
@@ -63,14 +63,14 @@ int main(int argc, char **argv) {
   Reg::Toolchain(ArgToolchainState(true)).BuildPackage(build_setup);
   Reg::Run();
 
+  // - Clang Compile Commands
+  plugin::ClangCompileCommands({&build_setup.GetUserTarget()}).Generate();
+
   // Run Target if script mode
   if (buildexe_args.GetBuildMode() == BuildExeMode::Script) {
     build_setup.RunUserTarget(buildexe_args.GetScriptInfo());
   }
 
-  // - Clang Compile Commands
-  plugin::ClangCompileCommands({&build_setup.GetUserTarget()}).Generate();
-
   return 0;
 }
 
diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..48a96c1 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -52,7 +52,9 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  bool execute = env::Command::Execute(command_str);
+  env::assert_fatal(execute, fmt::format("Could not execute '{}'",
+                                         buildexe_args_.GetTargetInfo().name));
 }
 
 // Private
-- 
2.43.0


From 17f363031c8398ab04c66d3be1b91bbfad14e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 34/39] fix: hand config files with spaces in their path to the
 script

---
 buildexe/src/build_env_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index 48a96c1..8e8d95a 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config {}", fs::path(c));
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
-- 
2.43.0


From c5dc3e5923c3d8ac11835a4e9bef47768ae4209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 35/39] fix: do not quote library paths with spaces twice in
 buildexe_lib_dirs.h

---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..6ef969d 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = path_as_string(lib_path);
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From bc04566c6fc36038340bffddcd37b63730c187e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 36/39] fix: do not rebuild the script at every run of buildexe

---
 buildexe/src/build_env_setup.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index 8e8d95a..c84ebf5 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -190,7 +190,13 @@ struct BuildExeLibDir {{
         user_target.GetTargetBuildDir() / "buildexe_lib_dirs.h";
     std::string data = fmt::format(
         kLibDirsFormat, fmt::arg("lib_dirs", fmt::join(lib_constants, "\r\n")));
-    env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    // NOTE, The file is an input of the user target: Only write it when changed
+    std::string current_data;
+    if (!env::load_file(lib_dirs_filename.string().c_str(), false,
+                        &current_data) ||
+        current_data != data) {
+      env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    }
 
     user_target.AddIncludeDirAbsolute(user_target.GetTargetBuildDir(), true);
   }
-- 
2.43.0


From fb1f495214778c46920f51085f733862014d66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 37/39] fix: rebuild the bootstrap library when any of its
 headers changes

---
 bootstrap/src/build_buildcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bootstrap/src/build_buildcc.cpp b/bootstrap/src/build_buildcc.cpp
index fa75c46..4183db3 100644
--- a/bootstrap/src/build_buildcc.cpp
+++ b/bootstrap/src/build_buildcc.cpp
@@ -58,6 +58,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobHeaders("lib/target/include/target");
   target.GlobHeaders("lib/target/include/target/api");
   target.GlobHeaders("lib/target/include/target/common");
+  target.GlobHeaders("lib/target/include/target/custom_generator");
   target.GlobHeaders("lib/target/include/target/friend");
   target.GlobHeaders("lib/target/include/target/interface");
 
@@ -65,6 +66,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobSources("lib/args/src");
   target.AddIncludeDir("lib/args/include");
   target.GlobHeaders("lib/args/include/args");
+  target.GlobHeaders("lib/args/include/args/register");
 
   // Specialized Toolchains
   target.GlobSources("toolchains/src");
-- 
2.43.0


From dcaebe7cb952e735d9ed98d51a6a63e396d90352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:27 +0000
Subject: [PATCH 38/39] fix: quote paths with characters the shell would
 interpret

A path that contains ; & | < > ( ) ' * ? [ ] # or a tab but no space was
pasted unquoted into command lines, so the shell split it, expanded it or
ran parts of it as another command.
---
 buildcc/schema/include/schema/path.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildcc/schema/include/schema/path.h b/buildcc/schema/include/schema/path.h
index cb1aa03..2758caf 100644
--- a/buildcc/schema/include/schema/path.h
+++ b/buildcc/schema/include/schema/path.h
@@ -75,8 +75,9 @@ public:
    */
   static std::string ToPathDisplayString(const fs::path &p) {
     auto path_str = ToPathString(p);
-    // if spaces are present in the path string, surround this with brackets
-    if (path_str.find(' ') != std::string::npos) {
+    // if spaces or other characters that the shell would interpret are present
+    // in the path string, surround this with quotes
+    if (path_str.find_first_of(" \t\n&;|<>()'*?[]#") != std::string::npos) {
       path_str = fmt::format("\"{}\"", path_str);
     }
     return path_str;
-- 
2.43.0


From 438c3369d8ea47b0b76c14979028f46d60b9b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 39/39] fix: verify toolchains in directories that need quoting

The compiler was found, and is quoted when it compiles, but its path was
pasted unquoted when it was asked for its version and architecture.
---
 buildcc/toolchains/src/toolchain_infos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index c2e1a01..b933d33 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -22,6 +22,8 @@
 #include "env/command.h"
 #include "env/logging.h"
 
+#include "schema/path.h"
+
 namespace {
 
 // GCC
@@ -69,7 +71,8 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0

