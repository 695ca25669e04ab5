#include "driver.h"

// ---- helper-function probes ----
namespace {
struct Tracked {

  int v;
  std::string s;
  explicit Tracked(int x) : v(x), s(std::to_string(x) + " some text beyond the small string size") { if (x < 0) throw std::runtime_error("ctor"); obs({{"o", "ctor"}, {"p", (uint64_t)this}, {"v", v}}); }
  ~Tracked() { obs({{"o", "dtor"}, {"p", (uint64_t)this}, {"v", v}}); }
};
struct TrackedB : Tracked { std::vector<int> big; explicit TrackedB(int x) : Tracked(x), big(100, x) {} };
// types that are easily confused: names of the same length, the same name in two namespaces, the object at an offset
struct TrackedC : Tracked { using Tracked::Tracked; };
namespace s1 { struct TrackedN : Tracked { using Tracked::Tracked; }; }
namespace s2 { struct TrackedN : Tracked { using Tracked::Tracked; }; }
struct Pad { long pad[3] = {1, 2, 3}; };
struct TrackedQ : Pad, Tracked { using Tracked::Tracked; };
template <typename T> struct TrackedX : Tracked { using Tracked::Tracked; };

J stored(const Tracked &x) { return {{"p", (uint64_t)&x}, {"v", x.v}}; }
J stored(const std::string &x) { return {{"p", (uint64_t)&x}, {"s", x}}; }
template <typename X, typename = std::enable_if_t<std::is_arithmetic_v<X>>> J stored(const X &x) { return {{"p", (uint64_t)&x}, {"v", (long)x}}; }

struct Global {
  template <typename X, typename... A> X &Add(const std::string &id, A &&... a) { return Storage::Add<X>(id, std::forward<A>(a)...); }
  template <typename X> X &Ref(const std::string &id) { return Storage::Ref<X>(id); }
  template <typename X> const X &ConstRef(const std::string &id) { return Storage::ConstRef<X>(id); }
  template <typename X> bool Valid(const std::string &id) { return Storage::Valid<X>(id); }
  bool Contains(const std::string &id) { return Storage::Contains(id); }
  void Clear() { Storage::Clear(); }
};

template <typename X, typename S> J storage_typed(S &st, const std::string &o, const std::string &id, int v) {
  if (o == "add") {
    if constexpr (std::is_same_v<X, std::string>) return stored(st.template Add<X>(id, std::to_string(v)));
    else return stored(st.template Add<X>(id, static_cast<std::conditional_t<std::is_arithmetic_v<X>, X, int>>(v)));
  }
  if (o == "ref") return stored(st.template Ref<X>(id));
  if (o == "cref") return stored(st.template ConstRef<X>(id));
  return {{"v", st.template Valid<X>(id)}};
}

template <typename S> J storage_op(S &st, const J &op) {
  const std::string o = op.at(0).get<std::string>(), id = op.size() > 1 ? op.at(1).get<std::string>() : "", ty = op.size() > 2 ? op.at(2).get<std::string>() : "";
  const int v = op.size() > 3 ? op.at(3).get<int>() : 0;
  if (o == "has") return {{"v", st.Contains(id)}};
  if (o == "clear") { st.Clear(); return {{"v", true}}; }
  if (ty == "T") return storage_typed<Tracked>(st, o, id, v);
  if (ty == "B") return storage_typed<TrackedB>(st, o, id, v);
  if (ty == "C") return storage_typed<TrackedC>(st, o, id, v);
  if (ty == "N") return storage_typed<s1::TrackedN>(st, o, id, v);
  if (ty == "M") return storage_typed<s2::TrackedN>(st, o, id, v);
  if (ty == "Q") return storage_typed<TrackedQ>(st, o, id, v);
  if (ty == "X") return storage_typed<TrackedX<int>>(st, o, id, v);
  if (ty == "Y") return storage_typed<TrackedX<long>>(st, o, id, v);
  if (ty == "S") return storage_typed<std::string>(st, o, id, v);
  if (ty == "U") return storage_typed<unsigned>(st, o, id, v);
  if (ty == "D") return storage_typed<double>(st, o, id, v);
  return storage_typed<int>(st, o, id, v);
}

} // namespace

std::string type_name(const std::exception &e) {
  int st;
  char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string s = n ? n : "?";
  free(n);
  return s;
}

J probe(const J &c) {
  const std::string f = S(c, "f");
  if (f == "construct") {
    env::Command cmd;
    for (auto &d : c.at("defs")) cmd.AddDefaultArgument(d.at(0).get<std::string>(), d.at(1).get<std::string>());
    if (c.contains("defmap")) cmd.AddDefaultArguments(c.at("defmap").get<std::unordered_map<std::string, std::string>>());
    if (c.contains("defs2")) for (auto &d : c.at("defs2")) cmd.AddDefaultArgument(d.at(0).get<std::string>(), d.at(1).get<std::string>());
    J r = J::object();
    r["v"] = cmd.Construct(S(c, "pattern"), argmap(sub(c, "args", J())));
    return r;
  }
  if (f == "getdef") {
    env::Command cmd;
    for (auto &d : c.at("defs")) cmd.AddDefaultArgument(d.at(0).get<std::string>(), d.at(1).get<std::string>());
    return {{"v", cmd.GetDefaultValueByKey(S(c, "key"))}};
  }
  if (f == "nullarg") {
    env::Command cmd;
    std::unordered_map<const char *, std::string> m{{nullptr, "x"}};
    return {{"v", cmd.Construct(S(c, "pattern"), m)}};
  }
  if (f == "save") {
    std::string data = c.at("data").is_array() ? std::string() : S(c, "data");
    if (c.at("data").is_array()) for (auto &b : c.at("data")) data.push_back((char)b.get<int>());
    if (c.contains("repeat")) { std::string u = data; data.clear(); for (int i = 0; i < script_int(c, "repeat"); i++) data += u; }
    if (script_bool(c, "raw", false)) return {{"v", env::save_file(S(c, "path").c_str(), data.data(), data.size(), script_bool(c, "binary", false))}};
    return {{"v", env::save_file(S(c, "path").c_str(), data, script_bool(c, "binary", false))}};
  }
  if (f == "load") {
    std::string s = S(c, "pre", "");
    bool r = env::load_file(S(c, "path").c_str(), script_bool(c, "binary", false), &s);
    std::vector<int> b;
    uint32_t h = 0xffffffffu; // crc32, as in zlib
    for (unsigned char ch : s) { h ^= ch; for (int k = 0; k < 8; k++) h = (h >> 1) ^ (0xedb88320u & (0u - (h & 1u))); }
    h = ~h;
    if (s.size() < 4096) for (unsigned char ch : s) b.push_back(ch);
    return {{"v", r}, {"n", s.size()}, {"h", h}, {"b", b}};
  }
  if (f == "save_null") return {{"v", env::save_file(nullptr, "x", 1, false)}, {"v2", env::save_file(S(c, "path").c_str(), nullptr, 1, false)}, {"v3", env::load_file(nullptr, false, nullptr)}};
  if (f == "split") return {{"v", env::split(S(c, "s"), S(c, "d").at(0))}};
  if (f == "trim") return {{"v", env::trim(S(c, "s"))}};
  if (f == "pathstr") return {{"v", path_as_string(S(c, "s"))}, {"d", path_as_display_string(S(c, "s"))}};
  if (f == "pattern_view") { // non NUL terminated view
    std::string s = S(c, "s");
    std::vector<char> v(s.begin(), s.end());
    env::set_log_pattern(std::string_view(v.data(), v.size()));
    env::log_info("tag", "message");
    env::set_log_pattern("%v");
    return J::object();
  }
  if (f == "ext") {
    ToolchainConfig tc = tconfig(sub(c, "config", J()));
    J r = J::array();
    for (auto &p : c.at("paths")) {
      std::string s = p.get<std::string>();
      FileExt e = tc.GetFileExt(s);
      const char *n = e == FileExt::Asm ? "asm" : e == FileExt::C ? "c" : e == FileExt::Cpp ? "cpp" : e == FileExt::Header ? "h" : "none";
      r.push_back({n, tc.IsValidSource(s), tc.IsValidHeader(s)});
    }
    return {{"v", r}};
  }
  if (f == "storage" || f == "gstorage") { // a storage object, or the global storage
    J res = J::array();
    {
      auto st = std::make_unique<ScopedStorage>();
      Global global;
      for (auto &op : c.at("ops")) {
        J r;
        try {
          if (op.at(0) == "destroy") { st = std::make_unique<ScopedStorage>(); r = {{"v", true}}; }
          else if (f == "gstorage") r = storage_op(global, op);
          else r = storage_op(*st, op);
        } catch (const std::exception &e) { r = {{"exc", type_name(e)}}; }
        obs({{"o", "op"}, {"case", script_int(c, "n", 0)}, {"op", op}, {"r", r}});
        res.push_back(r);
      }
    }
    if (f == "storage") obs({{"o", "case_end"}, {"case", script_int(c, "n", 0)}});
    return {{"v", res}};
  }
  if (f == "tstate") return {{"v", env::get_task_state() == env::TaskState::SUCCESS}};
  throw std::runtime_error("driver: unknown probe " + f);
}

