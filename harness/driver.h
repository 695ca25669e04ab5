// Shared declarations of the driver (see driver.cpp).
#pragma once
#include "buildcc.h"

#include <atomic>
#include <cxxabi.h>
#include <deque>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

using namespace buildcc;
using J = nlohmann::ordered_json;

void obs(const J &j);
void ev(J j);
const char *intern(const std::string &s);
std::string S(const J &j, const char *k, const std::string &d = "");
std::unordered_map<const char *, std::string> argmap(const J &j);
ToolchainId tc_id(const std::string &s);
const char *tc_id_name(ToolchainId id);
ToolchainExecutables exes(const J &j);
J exes_json(const ToolchainExecutables &e);
ToolchainConfig tconfig(const J &j);
std::string type_name(const std::exception &e);
J probe(const J &c);
bool script_bool(const J &j, const char *k, bool d = false);
int script_int(const J &j, const char *k, int d = 0);
J sub(const J &j, const char *k, const J &d = J());
