// helpers of the demonstration programs
#pragma once
#include "buildcc.h"
#include <iostream>
using namespace buildcc;
static std::string E(const char *n, const char *d = "") { const char *v = getenv(n); return v ? v : d; }
static const std::string &tdir() { static std::string t = E("T"); return t; }
static void init(std::vector<const char *> extra = {}) {
  static std::string r = tdir() + "/proj", b = tdir() + "/out";
  static std::vector<const char *> a{"demo", "--root_dir", r.c_str(), "--build_dir", b.c_str(), "--loglevel", "warning"};
  a.insert(a.end(), extra.begin(), extra.end());
  Args::Init().Parse((int)a.size(), a.data());
  Reg::Init();
}
static Toolchain_gcc &tc() {
  static std::string b = tdir() + "/bin/";
  static Toolchain_gcc t("gcc", ToolchainExecutables(b + "as", b + "gcc", b + "g++", b + "ar", b + "g++"));
  return t;
}
static const ArgToolchainState ON(true, true);
template <typename T> static void build(T &t) { Reg::Toolchain(ON).Build([](auto &x) { x.Build(); }, t); }
static bool has(const std::string &s) { return E("F").find(s) != std::string::npos; }
