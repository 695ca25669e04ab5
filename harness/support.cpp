#include "driver.h"

// Worker count of the executor under observation: tf::Executor defaults to hardware_concurrency().
namespace std {
unsigned int thread::hardware_concurrency() noexcept {
  const char *w = getenv("BCC_WORKERS");
  int n = w ? atoi(w) : 0;
  return n > 0 ? n : 4;
}
} // namespace std

static long long now_ns() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}

static void append_line(const char *envvar, const J &j) {
  const char *f = getenv(envvar);
  if (!f) return;
  std::string s = j.dump(-1, ' ', false, J::error_handler_t::replace) + "\n";
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  if (fd < 0) return;
  ssize_t r = write(fd, s.data(), s.size());
  (void)r;
  close(fd);
}
void obs(const J &j) { append_line("BCC_OBS", j); }
void ev(J j) {
  j["t"] = now_ns();
  j["src"] = "drv";
  append_line("BCC_TRACE", j);
}

static std::deque<std::string> g_strings;
const char *intern(const std::string &s) {
  g_strings.push_back(s);
  return g_strings.back().c_str();
}
std::string S(const J &j, const char *k, const std::string &d) {
  return j.contains(k) && !j.at(k).is_null() ? j.at(k).get<std::string>() : d;
}
std::unordered_map<const char *, std::string> argmap(const J &j) {
  std::unordered_map<const char *, std::string> m;
  if (j.is_object())
    for (auto it = j.begin(); it != j.end(); ++it) m.emplace(intern(it.key()), it.value().get<std::string>());
  return m;
}

ToolchainId tc_id(const std::string &s) {
  if (s == "gcc") return ToolchainId::Gcc;
  if (s == "msvc") return ToolchainId::Msvc;
  if (s == "mingw") return ToolchainId::MinGW;
  if (s == "clang") return ToolchainId::Clang;
  if (s == "custom") return ToolchainId::Custom;
  return ToolchainId::Undefined;
}
const char *tc_id_name(ToolchainId id) {
  switch (id) {
  case ToolchainId::Gcc: return "gcc";
  case ToolchainId::Msvc: return "msvc";
  case ToolchainId::MinGW: return "mingw";
  case ToolchainId::Clang: return "clang";
  case ToolchainId::Custom: return "custom";
  default: return "undefined";
  }
}
ToolchainExecutables exes(const J &j) {
  return ToolchainExecutables(S(j, "as"), S(j, "cc"), S(j, "cxx"), S(j, "ar"), S(j, "ld"));
}
J exes_json(const ToolchainExecutables &e) {
  return {{"as", e.assembler}, {"cc", e.c_compiler}, {"cxx", e.cpp_compiler}, {"ar", e.archiver}, {"ld", e.linker}};
}
ToolchainConfig tconfig(const J &j) {
  ToolchainConfig c;
  if (!j.is_object()) return c;
  auto st = [&](const char *k, std::unordered_set<std::string> &o) {
    if (j.contains(k)) { o.clear(); for (auto &x : j.at(k)) o.insert(x.get<std::string>()); }
  };
  st("c", c.valid_c_ext);
  st("cpp", c.valid_cpp_ext);
  st("asm", c.valid_asm_ext);
  st("h", c.valid_header_ext);
  if (j.contains("obj_ext")) c.obj_ext = S(j, "obj_ext");
  if (j.contains("pch_header_ext")) c.pch_header_ext = S(j, "pch_header_ext");
  if (j.contains("pch_compile_ext")) c.pch_compile_ext = S(j, "pch_compile_ext");
  if (j.contains("inc")) c.prefix_include_dir = S(j, "inc");
  if (j.contains("lib")) c.prefix_lib_dir = S(j, "lib");
  return c;
}


bool script_bool(const J &j, const char *k, bool d) { return j.contains(k) ? j.at(k).get<bool>() : d; }
int script_int(const J &j, const char *k, int d) { return j.contains(k) ? j.at(k).get<int>() : d; }
J sub(const J &j, const char *k, const J &d) { return j.contains(k) ? j.at(k) : d; }
