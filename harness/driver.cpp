// Driver: interprets a JSON script the way a user's build script would use the public API of buildcc, and records
// what it can see (observations in $BCC_OBS, callback events in $BCC_TRACE). All judging is done in Python.
#include "driver.h"
#include <grp.h>
#include <sys/resource.h>

namespace {

template <typename T> bool flag_op(T &t, const std::string &k, const std::string &v) {
  if (k == "f_pre") t.AddPreprocessorFlag(v);
  else if (k == "f_common") t.AddCommonCompileFlag(v);
  else if (k == "f_pchc") t.AddPchCompileFlag(v);
  else if (k == "f_pcho") t.AddPchObjectFlag(v);
  else if (k == "f_asm") t.AddAsmCompileFlag(v);
  else if (k == "f_c") t.AddCCompileFlag(v);
  else if (k == "f_cpp") t.AddCppCompileFlag(v);
  else if (k == "f_link") t.AddLinkFlag(v);
  else return false;
  return true;
}
template <typename T> J flags_json(const T &t) {
  return {{"f_pre", t.GetPreprocessorFlags()}, {"f_common", t.GetCommonCompileFlags()},
          {"f_pchc", t.GetPchCompileFlags()},  {"f_pcho", t.GetPchObjectFlags()},
          {"f_asm", t.GetAsmCompileFlags()},   {"f_c", t.GetCCompileFlags()},
          {"f_cpp", t.GetCppCompileFlags()},   {"f_link", t.GetLinkFlags()}};
}

// A toolchain of the plain class with a user supplied configuration (extensions etc.).
class PlainToolchain : public Toolchain {
public:
  PlainToolchain(ToolchainId id, const std::string &n, const ToolchainExecutables &e, const ToolchainConfig &c)
      : Toolchain(id, n, e, c) {}
};

struct World {
  std::map<std::string, ArgToolchain> arg_tc;
  std::map<std::string, ArgTarget> arg_target;
  std::map<std::string, std::unique_ptr<Toolchain>> tc_own;
  std::map<std::string, Toolchain *> tc;
  std::map<std::string, std::unique_ptr<TargetInfo>> info;
  std::map<std::string, std::unique_ptr<BaseTarget>> target;
  std::map<std::string, std::unique_ptr<CustomGenerator>> gen;
  std::map<std::string, FileGenerator *> fgen;
  std::map<std::string, TemplateGenerator *> tgen;
  struct Redirect { std::string key; std::vector<std::string> out, err; bool use_out, use_err; };
  std::deque<Redirect> redirects;
  std::deque<std::string> blob_str;
  std::deque<std::vector<std::string>> blob_vec;
  std::deque<int64_t> blob_int;
  std::deque<std::map<std::string, std::string>> blob_map;
};
World *W = nullptr;
int g_actions_done = 0;

// "direct" scripts do what example/gcc/* do: no Args, no Reg; builders are composed into a taskflow of the script's own
struct Direct { bool on = false; std::vector<std::string> built; std::vector<std::pair<std::string, std::string>> deps; };
Direct g_direct;

TargetInfo &info_of(const std::string &k) {
  auto i = W->info.find(k);
  if (i != W->info.end()) return *i->second;
  return *W->target.at(k);
}

void info_op(TargetInfo &t, const J &op) {
  const std::string k = op.at(0).get<std::string>();
  auto A = [&](size_t i) { return op.size() > i ? op.at(i).get<std::string>() : std::string(); };
  auto B = [&](size_t i) { return op.size() > i && op.at(i).is_boolean() && op.at(i).get<bool>(); };
  if (flag_op(t, k, op.size() > 1 && op.at(1).is_string() ? A(1) : "")) return;
  if (k == "src") { if (op.size() > 2) t.AddSource(A(1), A(2)); else t.AddSource(A(1)); }
  else if (k == "src_abs") t.AddSourceAbsolute(A(1));
  else if (k == "glob_src") t.GlobSources(A(1));
  else if (k == "glob_src_abs") t.GlobSourcesAbsolute(A(1));
  else if (k == "hdr") { if (op.size() > 2) t.AddHeader(A(1), A(2)); else t.AddHeader(A(1)); }
  else if (k == "hdr_abs") t.AddHeaderAbsolute(A(1));
  else if (k == "glob_hdr") t.GlobHeaders(A(1));
  else if (k == "glob_hdr_abs") t.GlobHeadersAbsolute(A(1));
  else if (k == "inc") t.AddIncludeDir(A(1), B(2));
  else if (k == "inc_abs") t.AddIncludeDirAbsolute(A(1), B(2));
  else if (k == "pch") { if (op.size() > 2) t.AddPch(A(1), A(2)); else t.AddPch(A(1)); }
  else if (k == "pch_abs") t.AddPchAbsolute(A(1));
  else if (k == "libdir") t.AddLibDir(A(1));
  else if (k == "libdir_abs") t.AddLibDirAbsolute(A(1));
  else if (k == "extlib") t.AddLibDep(A(1));
  else if (k == "lib") t.AddLibDep(*W->target.at(A(1)));
  else if (k == "cdep") t.AddCompileDependency(A(1));
  else if (k == "cdep_abs") t.AddCompileDependencyAbsolute(A(1));
  else if (k == "ldep") t.AddLinkDependency(A(1));
  else if (k == "ldep_abs") t.AddLinkDependencyAbsolute(A(1));
  else throw std::runtime_error("driver: unknown op " + k);
}

std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

// Writes a file and keeps its modification times distinct even within one tick of the file system clock.
void distinct_write(const std::string &p, const std::string &text, bool append, bool &ok) {
  struct stat a, b;
  bool had = stat(p.c_str(), &a) == 0;
  { std::ofstream f(p, std::ios::binary | (append ? std::ios::app : std::ios::trunc)); f << text; if (!f.flush()) ok = false; }
  if (had && stat(p.c_str(), &b) == 0 && a.st_mtim.tv_sec == b.st_mtim.tv_sec && b.st_mtim.tv_nsec <= a.st_mtim.tv_nsec) {
    struct timespec ts[2] = {b.st_atim, a.st_mtim};
    if (++ts[1].tv_nsec > 999999999) { ts[1].tv_nsec = 0; ts[1].tv_sec++; }
    utimensat(AT_FDCWD, p.c_str(), ts, 0);
  }
}

class RawBlob : public CustomBlobHandler {
public:
  explicit RawBlob(std::vector<uint8_t> d) : d_(std::move(d)) {}
private:
  std::vector<uint8_t> d_;
  bool Verify(const std::vector<uint8_t> &s) const override { return !s.empty(); }
  bool IsEqual(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) const override { return a == b; }
  std::vector<uint8_t> Serialize() const override { return d_; }
};

std::shared_ptr<CustomBlobHandler> make_blob(const J &b) {
  if (b.is_null()) return nullptr;
  const std::string k = b.at(0).get<std::string>();
  if (k == "str") { W->blob_str.push_back(b.at(1).get<std::string>()); return std::make_shared<TypedCustomBlobHandler<std::string>>(W->blob_str.back()); }
  if (k == "vec") { W->blob_vec.push_back(b.at(1).get<std::vector<std::string>>()); return std::make_shared<TypedCustomBlobHandler<std::vector<std::string>>>(W->blob_vec.back()); }
  if (k == "int") { W->blob_int.push_back(b.at(1).get<int64_t>()); return std::make_shared<TypedCustomBlobHandler<int64_t>>(W->blob_int.back()); }
  if (k == "map") { W->blob_map.push_back(b.at(1).get<std::map<std::string, std::string>>()); return std::make_shared<TypedCustomBlobHandler<std::map<std::string, std::string>>>(W->blob_map.back()); }
  if (k == "raw") { return std::make_shared<RawBlob>(b.at(1).get<std::vector<uint8_t>>()); }
  throw std::runtime_error("driver: blob");
}
J blob_value(const J &b, const std::vector<uint8_t> &u) {
  if (b.is_null()) return J(u);
  const std::string k = b.at(0).get<std::string>();
  if (k == "str") return TypedCustomBlobHandler<std::string>::Deserialize(u);
  if (k == "vec") return TypedCustomBlobHandler<std::vector<std::string>>::Deserialize(u);
  if (k == "int") return TypedCustomBlobHandler<int64_t>::Deserialize(u);
  if (k == "map") return TypedCustomBlobHandler<std::map<std::string, std::string>>::Deserialize(u);
  return J(u);
}

// Generic callback: outputs = fingerprint of (inputs with contents, value)
GenerateCb make_cb(const std::string &genkey, const std::string &id, const J &cb, const J &blob) {
  return [genkey, id, cb, blob](const CustomGeneratorContext &ctx) -> bool {
    ev({{"ev", "gstart"}, {"gen", genkey}, {"id", id}, {"inputs", ctx.inputs}, {"outputs", ctx.outputs},
        {"blob", blob_value(blob, ctx.userblob)}, {"tid", (long long)gettid()}});
    if (cb.contains("sleep")) usleep(script_int(cb, "sleep") * 1000);
    if (cb.contains("kill")) kill(getpid(), SIGKILL);
    std::string body = "GEN " + id + "\n";
    std::vector<std::string> ins(ctx.inputs);
    std::sort(ins.begin(), ins.end());
    for (auto &i : ins) body += "in " + i + "\n" + slurp(i) + "\n";
    body += "blob " + blob_value(blob, ctx.userblob).dump() + "\n";
    if (cb.contains("touch")) { bool x = true; distinct_write(cb.at("touch").get<std::string>(), "touched\n", true, x); }
    const std::string ret = S(cb, "ret", "ok");
    bool ok = true;
    if (cb.contains("cmd")) ok = env::Command::Execute(ctx.command.Construct(cb.at("cmd").get<std::string>()));
    if (ret == "ok" || ret == "false_after" || ret == "throw_after") {
      std::vector<std::string> outs(ctx.outputs);
      for (auto &o : outs) distinct_write(o, body + "out " + o + "\n", false, ok);
    }
    if (cb.contains("killa")) kill(getpid(), SIGKILL);
    ev({{"ev", "gend"}, {"gen", genkey}, {"id", id}, {"ret", ret}});
    if (ret == "throw" || ret == "throw_after") throw std::runtime_error("user failure");
    if (ret == "throwint") throw 42;
    if (ret == "fatal") env::assert_fatal(false, "user fatal");
    if (ret == "false" || ret == "false_after") return false;
    return ok;
  };
}

void gen_op(const std::string &key, const J &op) {
  CustomGenerator &g = *W->gen.at(key);
  const std::string k = op.at(0).get<std::string>();
  auto A = [&](size_t i) { return op.at(i).get<std::string>(); };
  if (k == "pattern") g.AddPattern(A(1), A(2));
  else if (k == "patterns") g.AddPatterns(op.at(1).get<std::unordered_map<std::string, std::string>>());
  else if (k == "id") {
    const J cb = op.size() > 4 ? op.at(4) : J::object();
    const J blob = op.size() > 5 ? op.at(5) : J();
    g.AddIdInfo(A(1), op.at(2).get<std::unordered_set<std::string>>(), op.at(3).get<std::unordered_set<std::string>>(),
                make_cb(key, A(1), cb, blob), make_blob(blob));
  } else if (k == "id_nocb") {
    g.AddIdInfo(A(1), {}, {}, GenerateCb(), nullptr);
  } else if (k == "input") W->fgen.at(key)->AddInput(A(1));
  else if (k == "output") W->fgen.at(key)->AddOutput(A(1));
  else if (k == "command") W->fgen.at(key)->AddCommand(A(1), op.size() > 2 ? argmap(op.at(2)) : std::unordered_map<const char *, std::string>{});
  else if (k == "template") W->tgen.at(key)->AddTemplate(A(1), A(2));
  else throw std::runtime_error("driver: unknown gen op " + k);
}

TargetEnv tenv(const J &j) {
  if (j.is_null()) return TargetEnv("");
  if (j.contains("rel")) return TargetEnv(S(j, "rel").c_str());
  return TargetEnv(fs::path(S(j, "root")), fs::path(S(j, "build")));
}
TargetConfig tgtconfig(const J &j) {
  TargetConfig c;
  c.target_ext = S(j, "ext");
  if (j.contains("pch")) c.pch_command = S(j, "pch");
  if (j.contains("compile")) c.compile_command = S(j, "compile");
  if (j.contains("link")) c.link_command = S(j, "link");
  return c;
}
TargetType ttype(const std::string &s) {
  return s == "static" ? TargetType::StaticLibrary : s == "dynamic" ? TargetType::DynamicLibrary : s == "exe" ? TargetType::Executable : TargetType::Undefined;
}

std::unique_ptr<BaseTarget> make_target(const J &a) {
  const std::string c = S(a, "cls"), n = S(a, "name");
  Toolchain &t = *W->tc.at(S(a, "tc"));
  TargetEnv e = tenv(a.contains("env") ? a.at("env") : J());
#define MK(s, C) if (c == s) return std::make_unique<C>(n, t, e)
  MK("exe_gcc", ExecutableTarget_gcc); MK("static_gcc", StaticTarget_gcc); MK("dyn_gcc", DynamicTarget_gcc);
  MK("exe_msvc", ExecutableTarget_msvc); MK("static_msvc", StaticTarget_msvc); MK("dyn_msvc", DynamicTarget_msvc);
  MK("exe_mingw", ExecutableTarget_mingw); MK("static_mingw", StaticTarget_mingw); MK("dyn_mingw", DynamicTarget_mingw);
  MK("exe_generic", ExecutableTarget_generic); MK("static_generic", StaticTarget_generic); MK("dyn_generic", DynamicTarget_generic);
#undef MK
  if (c == "generic") return std::make_unique<Target_generic>(n, ttype(S(a, "type")), t, e);
  if (c == "custom") return std::make_unique<Target_custom>(n, ttype(S(a, "type")), t, e, tgtconfig(a.at("config")));
  throw std::runtime_error("driver: cls " + c);
}

J info_dump(const TargetInfo &t) {
  J j = flags_json(t);
  j["sources"] = t.GetSourceFiles();
  j["headers"] = t.GetHeaderFiles();
  j["pchs"] = t.GetPchFiles();
  j["libs"] = t.GetLibDeps();
  j["extlibs"] = t.GetExternalLibDeps();
  j["incs"] = t.GetIncludeDirs();
  j["libdirs"] = t.GetLibDirs();
  j["cdeps"] = t.GetCompileDependencies();
  j["ldeps"] = t.GetLinkDependencies();
  return j;
}
J target_dump(const std::string &key) {
  const BaseTarget &t = *W->target.at(key);
  J j = info_dump(t);
  j["built"] = t.IsBuilt();
  j["path"] = t.GetTargetPath().string();
  j["state_file"] = t.GetBinaryPath().string();
  j["pch_header"] = t.GetPchHeaderPath().string();
  j["pch_compile"] = t.GetPchCompilePath().string();
  j["link_command"] = t.GetLinkCommand();
  j["uid"] = t.GetUniqueId();
  j["name"] = t.GetName();
  j["type"] = (int)t.GetType();
  const Toolchain &tc = t.GetToolchain();
  j["tc"] = {{"name", tc.GetName()}, {"id", tc_id_name(tc.GetId())}, {"as", tc.GetAssembler()}, {"cc", tc.GetCCompiler()}, {"cxx", tc.GetCppCompiler()}, {"ar", tc.GetArchiver()}, {"ld", tc.GetLinker()}};
  j["root_dir"] = t.GetTargetRootDir().string();
  j["build_dir"] = t.GetTargetBuildDir().string();
  J cc = J::object();
  for (auto &s : t.GetSourceFiles()) cc[s] = t.GetCompileCommand(s);
  j["compile_commands"] = cc;
  return j;
}

SyncOption sync_opt(const std::string &s) {
  static const std::map<std::string, SyncOption> m{
      {"sources", SyncOption::SourceFiles}, {"headers", SyncOption::HeaderFiles}, {"pchs", SyncOption::PchFiles},
      {"libs", SyncOption::LibDeps}, {"incs", SyncOption::IncludeDirs}, {"libdirs", SyncOption::LibDirs},
      {"extlibs", SyncOption::ExternalLibDeps}, {"f_pre", SyncOption::PreprocessorFlags},
      {"f_common", SyncOption::CommonCompileFlags}, {"f_pchc", SyncOption::PchCompileFlags},
      {"f_pcho", SyncOption::PchObjectFlags}, {"f_asm", SyncOption::AsmCompileFlags},
      {"f_c", SyncOption::CCompileFlags}, {"f_cpp", SyncOption::CppCompileFlags}, {"f_link", SyncOption::LinkFlags},
      {"cdeps", SyncOption::CompileDependencies}, {"ldeps", SyncOption::LinkDependencies}};
  return m.at(s);
}
// initializer_list of runtime length (up to 6 at a time, applied in sequence)
void sync(TargetInfo &d, TargetInfo &s, bool copy, bool move, const std::vector<SyncOption> &o) {
  auto call = [&](std::initializer_list<SyncOption> l) {
    if (copy) { if (move) d.Copy(std::move(s), l); else d.Copy(const_cast<const TargetInfo &>(s), l); }
    else { if (move) d.Insert(std::move(s), l); else d.Insert(const_cast<const TargetInfo &>(s), l); }
  };
  switch (o.size()) {
  case 0: call({}); break;
  case 1: call({o[0]}); break;
  case 2: call({o[0], o[1]}); break;
  case 3: call({o[0], o[1], o[2]}); break;
  case 4: call({o[0], o[1], o[2], o[3]}); break;
  case 5: call({o[0], o[1], o[2], o[3], o[4]}); break;
  case 6: call({o[0], o[1], o[2], o[3], o[4], o[5]}); break;
  case 17: call({o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13], o[14], o[15], o[16]}); break;
  default: throw std::runtime_error("driver: sync size");
  }
}

ArgToolchainState via_state(const J &a) {
  const J &v = a.at("via");
  if (v.is_string()) return W->arg_tc.at(v.get<std::string>()).state;
  return ArgToolchainState(v.at(0).get<bool>(), v.at(1).get<bool>());
}

void actions(const J &list);

std::deque<plugin::ClangCompileCommands> g_cc;

struct Pkg { std::string key; void Setup(const ArgToolchainState &s) { obs({{"o", "package"}, {"key", key}, {"build", s.build}, {"test", s.test}}); } };

ToolchainFindConfig find_config(const J &a) {
  std::vector<std::string> envs;
  std::vector<fs::path> paths;
  for (auto &e : a.at("envs")) envs.push_back(e.get<std::string>());
  for (auto &p : a.at("paths")) paths.push_back(p.get<std::string>());
  return ToolchainFindConfig(envs, paths);
}

void action(const J &a) {
  const std::string k = S(a, "do");
  if (k == "toolchain") {
    const std::string key = S(a, "key"), kind = S(a, "kind");
    Toolchain *t = nullptr;
    env::optional<ToolchainExecutables> e;
    if (a.contains("exes")) e = exes(a.at("exes"));
    if (kind == "arg") t = &W->arg_tc.at(S(a, "arg")).ConstructToolchain();
    else if (kind == "generic") t = &Toolchain_generic::New(tc_id(S(a, "id")), S(a, "name"), e, a.contains("config") ? env::optional<ToolchainConfig>(tconfig(a.at("config"))) : env::optional<ToolchainConfig>());
    else {
      std::unique_ptr<Toolchain> p;
      if (kind == "gcc") p = std::make_unique<Toolchain_gcc>(S(a, "name"), e);
      else if (kind == "msvc") p = std::make_unique<Toolchain_msvc>(S(a, "name"), e);
      else if (kind == "mingw") p = std::make_unique<Toolchain_mingw>(S(a, "name"), e);
      else p = std::make_unique<PlainToolchain>(tc_id(S(a, "id", "gcc")), S(a, "name"), e.value(), tconfig(sub(a, "config", J())));
      t = p.get();
      W->tc_own[key] = std::move(p);
    }
    W->tc[key] = t;
    if (a.contains("flags")) for (auto &f : a.at("flags")) flag_op(*t, f.at(0).get<std::string>(), f.at(1).get<std::string>());
  } else if (k == "tc_flags") {
    for (auto &f : a.at("flags")) flag_op(*W->tc.at(S(a, "tc")), f.at(0).get<std::string>(), f.at(1).get<std::string>());
  } else if (k == "tc_dump") {
    Toolchain &t = *W->tc.at(S(a, "tc"));
    J j = flags_json(t);
    j["exes"] = exes_json(t.GetToolchainExecutables());
    j["name"] = t.GetName();
    j["id"] = tc_id_name(t.GetId());
    obs({{"o", "tc_dump"}, {"tc", S(a, "tc")}, {"v", j}});
  } else if (k == "find") {
    std::vector<std::string> r;
    for (auto &p : W->tc.at(S(a, "tc"))->Find(find_config(a))) r.push_back(p.string());
    obs({{"o", "find"}, {"n", script_int(a, "n", 0)}, {"v", r}});
  } else if (k == "verify") {
    Toolchain &t = *W->tc.at(S(a, "tc"));
    obs({{"o", "verify_begin"}, {"n", script_int(a, "n", 0)}});
    auto i = t.Verify(find_config(a));
    obs({{"o", "verify"}, {"n", script_int(a, "n", 0)}, {"path", i.path.string()}, {"version", i.compiler_version}, {"arch", i.target_arch}, {"exes", exes_json(t.GetToolchainExecutables())}});
  } else if (k == "host_find") {
    plugin::BuildccFind f(S(a, "name"), plugin::BuildccFind::Type::HostExecutable);
    for (auto &e : a.at("envs")) f.AddHostEnvVar(e.get<std::string>());
    bool r = f.Search();
    std::vector<std::string> m;
    for (auto &p : f.GetPathMatches()) m.push_back(p.string());
    obs({{"o", "host_find"}, {"n", script_int(a, "n", 0)}, {"r", r}, {"v", m}});
  } else if (k == "info") {
    W->info[S(a, "key")] = std::make_unique<TargetInfo>(*W->tc.at(S(a, "tc")), tenv(sub(a, "env", J())));
    if (a.contains("ops")) for (auto &o : a.at("ops")) info_op(*W->info[S(a, "key")], o);
  } else if (k == "target") {
    auto t = make_target(a);
    auto &r = *t;
    W->target[S(a, "key")] = std::move(t);
    if (a.contains("ops")) for (auto &o : a.at("ops")) info_op(r, o);
  } else if (k == "gen") {
    const std::string c = S(a, "cls"), key = S(a, "key");
    TargetEnv e = tenv(sub(a, "env", J()));
    if (c == "file") { auto p = std::make_unique<FileGenerator>(S(a, "name"), e); W->fgen[key] = p.get(); W->gen[key] = std::move(p); }
    else if (c == "template") { auto p = std::make_unique<TemplateGenerator>(S(a, "name"), e); W->tgen[key] = p.get(); W->gen[key] = std::move(p); }
    else W->gen[key] = std::make_unique<CustomGenerator>(S(a, "name"), e);
    if (a.contains("ops")) for (auto &o : a.at("ops")) gen_op(key, o);
  } else if (k == "ops") {
    for (auto &o : a.at("ops")) { if (W->gen.count(S(a, "b"))) gen_op(S(a, "b"), o); else info_op(info_of(S(a, "b")), o); }
  } else if (k == "build") {
    const std::string key = S(a, "b");
    const J ops = sub(a, "ops", J::array());
    auto tcb = [key, ops](auto &t) { obs({{"o", "build_cb"}, {"b", key}}); for (auto &o : ops) info_op(t, o); t.Build(); };
    auto gcb = [key, ops](auto &g) { obs({{"o", "build_cb"}, {"b", key}}); for (auto &o : ops) gen_op(key, o); g.Build(); };
    const bool call = a.contains("call");
    if (g_direct.on) {
      if (W->target.count(key)) tcb(*W->target.at(key));
      else if (W->fgen.count(key)) gcb(*W->fgen.at(key));
      else if (W->tgen.count(key)) gcb(*W->tgen.at(key));
      else gcb(*W->gen.at(key));
      g_direct.built.push_back(key);
    } else if (W->target.count(key)) {
      auto &t = *W->target.at(key);
      if (call) Reg::Call(a.at("call").get<bool>()).Build(tcb, t); else Reg::Toolchain(via_state(a)).Build(tcb, t);
    } else if (W->fgen.count(key)) {
      auto &g = *W->fgen.at(key);
      if (call) Reg::Call(a.at("call").get<bool>()).Build(gcb, g); else Reg::Toolchain(via_state(a)).Build(gcb, g);
    } else if (W->tgen.count(key)) {
      auto &g = *W->tgen.at(key);
      if (call) Reg::Call(a.at("call").get<bool>()).Build(gcb, g); else Reg::Toolchain(via_state(a)).Build(gcb, g);
    } else {
      auto &g = *W->gen.at(key);
      if (call) Reg::Call(a.at("call").get<bool>()).Build(gcb, g); else Reg::Toolchain(via_state(a)).Build(gcb, g);
    }
  } else if (k == "func") {
    const std::string key = S(a, "key");
    auto f = [key](int x) { obs({{"o", "func"}, {"key", key}, {"x", x}}); };
    if (a.contains("call")) Reg::Call(a.at("call").get<bool>()).Func(f, 7); else Reg::Toolchain(via_state(a)).Func(f, 7);
  } else if (k == "package") {
    Pkg p{S(a, "key")};
    Reg::Toolchain(via_state(a)).BuildPackage(p);
  } else if (k == "dep") {
    auto B = [](const std::string &n) -> internal::BuilderInterface & {
      auto i = W->target.find(n);
      if (i != W->target.end()) return *i->second;
      return *W->gen.at(n);
    };
    if (g_direct.on) g_direct.deps.emplace_back(S(a, "a"), S(a, "b"));
    else Reg::Toolchain(via_state(a)).Dep(B(S(a, "a")), B(S(a, "b")));
    obs({{"o", "dep_ok"}, {"a", S(a, "a")}, {"b", S(a, "b")}});
  } else if (k == "test") {
    TestOutput::Type ty = TestOutput::Type::TestPrintOnStderrAndStdout;
    const std::string os = S(a, "output", "both");
    if (os == "default") ty = TestOutput::Type::DefaultBehaviour;
    if (os == "stderr") ty = TestOutput::Type::TestPrintOnStderr;
    if (os == "stdout") ty = TestOutput::Type::TestPrintOnStdout;
    std::vector<std::string> *po = nullptr, *pe = nullptr;
    if (os == "user") {
      ty = TestOutput::Type::UserRedirect;
      W->redirects.push_back({S(a, "b"), {}, {}, script_bool(a, "user_out", true), script_bool(a, "user_err", true)});
      auto &r = W->redirects.back();
      if (r.use_out) po = &r.out;
      if (r.use_err) pe = &r.err;
    }
    env::optional<fs::path> wd;
    if (a.contains("cwd")) wd = fs::path(S(a, "cwd"));
    Reg::Toolchain(via_state(a)).Test(S(a, "command"), *W->target.at(S(a, "b")), TestConfig(argmap(sub(a, "args", J())), wd, TestOutput(ty, po, pe)));
    obs({{"o", "test_ok"}, {"b", S(a, "b")}});
  } else if (k == "run") {
    const J post = sub(a, "post", J());
    ev({{"ev", "run_begin"}});
    if (g_direct.on) {
      tf::Executor executor;
      tf::Taskflow taskflow;
      std::map<std::string, tf::Task> task;
      for (auto &key : g_direct.built)
        task[key] = taskflow.composed_of(W->target.count(key) ? W->target.at(key)->GetTaskflow() : W->gen.at(key)->GetTaskflow());
      for (auto &[d, on] : g_direct.deps) task.at(d).succeed(task.at(on));
      executor.run(taskflow);
      executor.wait_for_all();
      if (env::get_task_state() != env::TaskState::SUCCESS) { std::cout.flush(); std::exit(1); }
      if (!post.is_null()) { ev({{"ev", "post"}}); actions(post); }
    } else if (post.is_null()) Reg::Run();
    else Reg::Run([post]() {
      ev({{"ev", "post"}});
      actions(post);
    });
    ev({{"ev", "run_end"}});
  } else if (k == "dump") {
    obs({{"o", "dump"}, {"b", S(a, "b")}, {"v", target_dump(S(a, "b"))}});
  } else if (k == "graph") {
    obs({{"o", "graph"}, {"n", script_int(a, "n", 0)}, {"v", Reg::GetTaskflow().dump()}});
  } else if (k == "gen_values") {
    // what a generator says about its own patterns
    J v = J::object();
    auto &g = *W->gen.at(S(a, "b"));
    for (auto &key : a.at("get")) {
      const std::string n = key.get<std::string>();
      try { v[n] = g.Get(n); } catch (const std::exception &e) { v[n] = nullptr; }
    }
    J p = J::array();
    for (auto &x : a.at("parse")) {
      const std::string n = x.get<std::string>();
      auto *t = dynamic_cast<TemplateGenerator *>(&g);
      try { p.push_back(t ? t->Parse(n) : g.ParsePattern(n)); } catch (const std::exception &e) { p.push_back(nullptr); }
    }
    obs({{"o", "gen_values"}, {"b", S(a, "b")}, {"get", v}, {"parse", p}});
  } else if (k == "info_dump") {
    obs({{"o", "info_dump"}, {"b", S(a, "b")}, {"n", script_int(a, "n", 0)}, {"v", info_dump(info_of(S(a, "b")))}});
  } else if (k == "sync") {
    std::vector<SyncOption> o;
    for (auto &x : a.at("options")) o.push_back(sync_opt(x.get<std::string>()));
    sync(info_of(S(a, "dst")), info_of(S(a, "src")), S(a, "op") == "copy", script_bool(a, "move", false), o);
  } else if (k == "cc") {
    g_cc.emplace_back(std::vector<const BaseTarget *>{});
    for (auto &t : a.at("targets")) g_cc.back().AddTarget(W->target.at(t.get<std::string>()).get());
    g_cc.back().Generate();
    obs({{"o", "cc_done"}});
  } else if (k == "args_dump") {
    J j{{"root", Args::GetProjectRootDir().string()}, {"build", Args::GetProjectBuildDir().string()},
        {"clean", Args::Clean()}, {"loglevel", (int)Args::GetLogLevel()},
        {"proot", Project::GetRootDir().string()}, {"pbuild", Project::GetBuildDir().string()}};
    for (auto &[n, t] : W->arg_tc)
      j["tc"][n] = {{"build", t.state.build}, {"test", t.state.test}, {"id", tc_id_name(t.id)}, {"name", t.name}, {"exes", exes_json(t.executables)}};
    for (auto &[n, t] : W->arg_target) j["target"][n] = {{"compile", t.compile_command}, {"link", t.link_command},
        {"ccompile", t.GetTargetConfig().compile_command}, {"clink", t.GetTargetConfig().link_command}};
    obs({{"o", "args"}, {"v", j}});
  } else if (k == "mark") {
    ev({{"ev", "mark"}, {"key", S(a, "key")}});
  } else if (k == "log") {
    env::log((env::LogLevel)script_int(a, "level"), S(a, "tag"), S(a, "msg"));
  } else if (k == "execute") {
    std::vector<std::string> o, e;
    env::optional<fs::path> wd;
    if (a.contains("cwd")) wd = fs::path(S(a, "cwd"));
    bool r = env::Command::Execute(S(a, "command"), wd, script_bool(a, "out", false) ? &o : nullptr, script_bool(a, "err", false) ? &e : nullptr);
    std::string so, se;
    for (auto &x : o) so += x;
    for (auto &x : e) se += x;
    obs({{"o", "execute"}, {"n", script_int(a, "n", 0)}, {"r", r}, {"out", so}, {"err", se}});
  } else if (k == "parallel_execute") {
    std::vector<std::thread> ts;
    std::vector<J> rs(a.at("items").size());
    size_t i = 0;
    for (auto &it : a.at("items")) {
      ts.emplace_back([&rs, i, it]() {
        try {
          std::vector<std::string> o, e;
          env::optional<fs::path> wd;
          if (it.contains("cwd")) wd = fs::path(S(it, "cwd"));
          bool r = env::Command::Execute(S(it, "command"), wd, script_bool(it, "out", false) ? &o : nullptr, script_bool(it, "err", false) ? &e : nullptr);
          std::string so, se;
          for (auto &x : o) so += x;
          for (auto &x : e) se += x;
          rs[i] = J{{"n", script_int(it, "n", 0)}, {"r", r}, {"out", so}, {"err", se}};
        } catch (const std::exception &x) { rs[i] = J{{"n", script_int(it, "n", 0)}, {"exc", x.what()}}; }
      });
      i++;
    }
    for (auto &t : ts) t.join();
    for (auto &r : rs) { J j{{"o", "execute"}}; j.update(r); obs(j); }
  } else {
    throw std::runtime_error("driver: unknown action " + k);
  }
  g_actions_done++;
}

void actions(const J &list) {
  for (auto &a : list) action(a);
}

struct ArgExtra : public ArgCustom {
  std::map<std::string, std::string> vals;
  void Add(CLI::App &app) override {
    for (auto &[k, v] : vals) app.add_option(k, v);
  }
};

} // namespace

int main(int argc, char **argv) {
  if (argc < 2) return 64;
  if (const char *l = getenv("BCC_AS_LIMIT")) { // a runaway build must not take the machine down
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = (rlim_t)atoll(l);
    setrlimit(RLIMIT_AS, &rl);
  }
  if (const char *u = getenv("BCC_UID")) { // permissions do not bind root
    int id = atoi(u);
    bool ok = setgroups(0, nullptr) == 0 && setgid(id) == 0 && setuid(id) == 0;
    obs({{"o", "uid"}, {"ok", ok}, {"uid", (int)getuid()}});
  }
  setenv("BCC_DRIVER_PID", std::to_string(getpid()).c_str(), 1);
  std::ifstream in(argv[1]);
  J script = J::parse(in);
  W = new World();

  if (script.contains("probes")) {
    env::set_log_level(env::LogLevel::Critical);
    // assert_fatal throws off the main thread, so every case reports instead of ending the process
    std::thread th([&]() {
      size_t n = 0;
      for (auto &c : script.at("probes")) {
        J r;
        try {
          r = probe(c);
        } catch (const std::exception &e) { r = {{"exc", type_name(e)}}; }
        obs({{"o", "probe"}, {"n", n++}, {"r", r}});
      }
    });
    th.join();
    if (script_bool(script, "clear", false)) Storage::Clear();
    obs({{"o", "exit"}, {"rc", 0}});
    return 0;
  }

  std::atexit([]() {
    // user redirections, also on the failing exit path
    if (!W) return;
    for (auto &r : W->redirects) {
      std::string so, se;
      for (auto &x : r.out) so += x;
      for (auto &x : r.err) se += x;
      obs({{"o", "redirect"}, {"b", r.key}, {"out", so}, {"err", se}});
    }
    obs({{"o", "atexit"}, {"done", g_actions_done}});
    ev({{"ev", "atexit"}});
  });

  if (script.contains("direct")) {
    const J &d = script.at("direct");
    g_direct.on = true;
    Project::Init(S(d, "root"), S(d, "build"));
    obs({{"o", "init"}});
    actions(script.at("actions"));
    obs({{"o", "exit"}, {"rc", 0}});
    if (script_bool(script, "teardown", false)) {
      W->target.clear(); W->gen.clear(); W->fgen.clear(); W->tgen.clear(); W->info.clear();
      g_cc.clear();
      delete W;
      W = nullptr;
    }
    return 0;
  }

  const J args = sub(script, "args", J::object());
  auto &inst = Args::Init();
  for (auto &t : sub(args, "toolchains", J::array())) {
    auto &out = W->arg_tc[S(t, "key")];
    if (t.contains("initial")) {
      const J &i = t.at("initial");
      inst.AddToolchain(S(t, "key"), S(t, "desc"), out, ArgToolchain(tc_id(S(i, "id")), S(i, "name"), exes(i.at("exes")), ToolchainConfig()));
    } else inst.AddToolchain(S(t, "key"), S(t, "desc"), out);
  }
  for (auto &t : sub(args, "targets", J::array())) {
    ArgTarget i;
    i.compile_command = S(t, "compile");
    i.link_command = S(t, "link");
    inst.AddTarget(S(t, "key"), S(t, "desc"), W->arg_target[S(t, "key")], i);
  }
  static ArgExtra extra;
  for (auto &e : sub(args, "extra", J::array())) extra.vals[e.get<std::string>()] = "";
  if (!extra.vals.empty()) inst.AddCustomData(extra);
  static std::string cbval;
  if (args.contains("cb_opt")) inst.AddCustomCallback([&](CLI::App &app) { app.add_option(S(args, "cb_opt"), cbval); });
  std::vector<std::string> av = script.value("argv", std::vector<std::string>{"driver"});
  std::vector<const char *> ap;
  for (auto &s : av) ap.push_back(s.c_str());
  obs({{"o", "parse_begin"}});
  inst.Parse((int)ap.size(), ap.data());
  obs({{"o", "parsed"}, {"extra", extra.vals}, {"cb", cbval}});
  if (!script_bool(script, "no_reg_init", false)) Reg::Init();
  if (script.contains("pattern_log")) env::set_log_pattern(S(script, "pattern_log"));
  obs({{"o", "init"}});
  actions(script.at("actions"));
  obs({{"o", "exit"}, {"rc", 0}});
  if (script_bool(script, "teardown", false)) { // orderly teardown: what a script with objects on main's stack does
    W->target.clear(); W->gen.clear(); W->fgen.clear(); W->tgen.clear(); W->info.clear();
    g_cc.clear();
    delete W;
    W = nullptr;
  }
  return 0;
}
