// runs the output functions as an unprivileged user inside a scratch directory, with failing writes and crashes
#include "h.hpp"
#include "Aux_json.hpp"
#include "Input_output.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <nlohmann/json.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
namespace fs = std::filesystem;
using Tree = std::map<std::string, std::string>;
static std::string dir;
static std::string slurp(fs::path const &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static Tree tree(fs::path const &top) {
  Tree t;
  for (auto &e : fs::recursive_directory_iterator(top)) {
    auto r = e.path().lexically_relative(top).string();
    if (e.is_symlink()) t[r] = "link " + fs::read_symlink(e.path()).string();
    else if (e.is_directory()) t[r] = "directory";
    else t[r] = "file " + slurp(e.path());
  }
  return t;
}
static std::string brief(Tree const &t) { std::string s; for (auto &[k, v] : t) s += k + "=" + v.substr(0, 24) + (v.size() > 24 ? "...(" + std::to_string(v.size()) + ")" : "") + "; "; return s; }
static void put(std::string const &name, std::string const &content) { std::ofstream(dir + "/" + name, std::ios::binary) << content; }
static void fresh_dir() {
  static int k = 0;
  static std::string base = dir;
  dir = base + "/t" + std::to_string(k++);
  fs::create_directory(dir);
}
// a child owned by nobody, in the scratch directory; 0 returned, 1 threw, 2 died; report gets what f returned
template <class F> int child(F f, std::string &report, long limit = -1, bool crash = false, bool readonly = false) {
  int fd[2];
  if (pipe(fd)) return 3;
  for (auto &e : fs::recursive_directory_iterator(dir)) if (lchown(e.path().c_str(), 65534, 65534)) return 3;
  if (chown(dir.c_str(), 65534, 65534)) return 3;
  chmod(dir.c_str(), readonly ? 0555 : 0755);
  std::fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    if (chdir(dir.c_str()) or setgid(65534) or setuid(65534)) _exit(3);
    signal(SIGXFSZ, crash ? SIG_DFL : SIG_IGN);
    struct rlimit none{0, 0};
    setrlimit(RLIMIT_CORE, &none);
    if (limit >= 0) { struct rlimit r{(rlim_t)limit, (rlim_t)limit}; setrlimit(RLIMIT_FSIZE, &r); }
    try { std::string s = f(); if (write(fd[1], s.data(), s.size()) < 0) _exit(3); } catch (...) { _exit(1); }
    _exit(0);
  }
  close(fd[1]);
  char b[4096];
  report.clear();
  for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) report.append(b, k);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  chmod(dir.c_str(), 0755);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
}
static bool kept(Tree const &a, Tree const &b, std::string const &except, std::string const &in) {
  bool ok = true;
  for (auto &[k, v] : a) if (k != except) ok = check(b.count(k) and b.at(k) == v, "what existed before is unchanged", in + " lost or changed: " + k + " now " + brief(b)) and ok;
  return ok;
}
static std::string const spares[] = {"tmp_backup", "tmp_backup_", "tmp_backup__", "results.json.bak", "tmp_backup2", "results.json.tmp", "results.json~"};
static void overwrite() {
  fresh_dir();
  std::string name = ri(0, 9) ? "results.json" : "tmp_backup";
  bool existed = ri(0, 4) > 0;
  int size = ri(0, 2) ? ri(0, 300) : ri(5000, 60000);
  nlohmann::ordered_json j, o;
  j["z"] = std::string(size, 'n'); j["a"] = {1, 2.5, uni(0, 1)};
  bool unprintable = ri(0, 7) == 0;
  if (unprintable) j["bad"] = std::string("\xff\xfe");
  o["old"] = std::string(ri(0, 2) ? ri(0, 300) : 20000, 'o');
  if (existed) put(name, o.dump());
  for (auto &s : spares) if (s != name and ri(0, 2) == 0) put(s, "precious " + s);
  int mode = ri(0, 5);        // 0-2 no fault, 3 short write, 4 crash, 5 read-only directory
  long need = unprintable ? 0 : (long)j.dump(1, '\t').size();
  long limit = mode == 3 or mode == 4 ? (need ? ri(0, (int)need - 1) : 0) : -1;
  auto before = tree(dir);
  bool relative = ri(0, 1);
  std::string r, in = str("overwrite_json", name, existed ? "existing" : "new", "size", size, "mode", mode, "limit", limit, unprintable ? "unprintable" : "", relative ? "relative" : "absolute", "before:") + brief(before);
  auto f = [&]() -> std::string { aux_json::overwrite_json(relative ? fs::path(name) : fs::path(dir) / name, j); return "x"; };
  int rc = child(f, r, limit, mode == 4, mode == 5);
  auto after = tree(dir);
  kept(before, after, name, in);
  std::string old = existed ? before[name] : "", fin = "file " + (unprintable ? "" : j.dump(1, '\t'));
  bool somewhere = false, there = after.count(name) and ((existed and after[name] == old) or (not unprintable and after[name] == fin));
  for (auto &[k, v] : after) if (existed and v == old and (k == name or not before.count(k))) somewhere = true;
  if (existed) check(there or somewhere, "the complete old or new content is in a file", in + " after: " + brief(after));
  if (rc == 0) {
    if (existed) check(there, "the file has its complete old or new content", in + " after: " + brief(after));
    for (auto &[k, v] : after) check(k == name or before.count(k), "nothing is left behind", in + " left: " + k);
    if (mode <= 2 and not unprintable) check(after.count(name) and after[name].substr(0, 5) == "file " and nlohmann::ordered_json::parse(after[name].substr(5), nullptr, false) == j, "without a failure the file has the new content", in + " after: " + brief(after));
  }
}
static char **names;
static int calls;
static std::vector<std::string> proposals;
static std::string propose() { return proposals[calls++ % proposals.size()]; }
static fs::path propose_file(fs::path const &f) { return f.parent_path() / propose(); }
static void populate(std::string const &sub, std::vector<std::string> const &ns) {
  for (auto &n : ns) {
    auto p = sub.empty() ? n : sub + "/" + n;
    switch (ri(0, 5)) {
    case 0: put(p, "precious " + n); break;
    case 1: fs::create_directory(dir + "/" + p); break;
    case 2: fs::create_symlink("nowhere", dir + "/" + p); break;
    case 3: fs::create_directory(dir + "/" + p); put(p + "/inner", "precious"); break;
    case 4: put(p, ""); break;
    }
  }
}
static void created(Tree const &before, Tree const &after, int rc, std::string const &result, std::string const &kind, std::string const &in) {
  kept(before, after, "", in);
  check(rc == 0 or rc == 1, "the call returns or throws", in);
  for (auto &[k, v] : after) if (not before.count(k)) check(rc == 0 and k == result, "nothing else is created", in + " created " + k);
  if (rc == 0) check(not before.count(result) and after.count(result) and after.at(result) == kind, "the result is new and exists", in + " result " + result + " after " + brief(after));
}
static void unique() {
  fresh_dir();
  std::vector<std::string> ns{"a", "b", "c", "d", "e"};
  populate("", ns);
  proposals.clear(); calls = 0;
  int k = ri(0, 3) ? ri(1, 6) : ri(8, 25);
  for (int i = 0; i < k; ++i) proposals.push_back(ns[ri(0, ri(0, 2) ? 4 : 1)]);
  auto before = tree(dir);
  std::string r, in = "taken: " + brief(before) + " proposed:";
  for (auto &p : proposals) in += " " + p;
  if (ri(0, 1)) {
    int rc = child([&] { return io::create_new_output_file(fs::path(dir) / "x", propose_file).filename().string(); }, r);
    created(before, tree(dir), rc, r, "file ", "create_new_output_file " + in);
  } else {
    int rc = child([&] { return io::unique_output_directory(dir, propose).filename().string(); }, r);
    created(before, tree(dir), rc, r, "directory", "unique_output_directory " + in);
  }
}
static void prepared() {
  fresh_dir();
  bool there = ri(0, 2), file = ri(0, 5) == 0;
  if (file) put("output", "precious");
  else if (there) { fs::create_directory(dir + "/output"); put("output/output.json", "precious"); }
  auto before = tree(dir);
  std::string r, in = "prepare_output_file in " + brief(before);
  int rc = child([&] { return io::prepare_output_file(dir).lexically_relative(dir).string(); }, r);
  auto after = tree(dir);
  if (not file) before["output"] = "directory";
  created(before, after, rc, r, "file ", in);
}
static void filled() {
  fresh_dir();
  fs::create_directory(dir + "/in"); fs::create_directory(dir + "/in/sub"); fs::create_directory(dir + "/out");
  put("in/problem.json", "{}"); put("in/sub/x", "x");
  std::vector<std::string> ns{"a", "b", "c"}, want;
  if (ri(0, 1)) populate("out", ns);
  if (ri(0, 3) == 0) { fs::create_directory(dir + "/out/problem"); if (ri(0, 1)) put("out/problem/problem.json", "precious"); }
  for (auto &n : ns) if (ri(0, 1)) want.push_back(n);
  auto before = tree(dir);
  std::string r, in = "prepare_output_directory in " + brief(before) + " names:";
  for (auto &w : want) in += " " + w;
  int rc = child([&] { io::prepare_output_directory(fs::path(dir) / "out", fs::path(dir) / "in", want); return std::string("x"); }, r);
  auto after = tree(dir);
  kept(before, after, "", in);
  if (rc != 0) return;
  for (auto &w : want) check(not before.count("out/" + w) and after["out/" + w] == "file ", "every requested file is new", in + " " + w);
  check(after["out/problem/problem.json"] == "file {}" and after["out/problem/sub/x"] == "file x", "the input is copied", in + " after " + brief(after));
}
// normal form of an absolute path by its segments; true if it ends in a separator
static std::vector<std::string> segments(std::string const &s) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : s + "/") if (c == '/') {
    if (cur == "..") { if (not r.empty()) r.pop_back(); }
    else if (not cur.empty() and cur != ".") r.push_back(cur);
    cur.clear();
  } else cur += c;
  return r;
}
static void root() {
  static char const *seg[] = {"a", "b", "ab", "..", ".", "..a", "c", "problem", "problem2", ""};
  std::string r, f = ri(0, 4) ? "" : "/";
  int n = ri(0, 4);
  static int plain[] = {0, 1, 2, 5, 6, 7, 8};
  for (int i = 0; i < n; ++i) r += std::string("/") + seg[plain[ri(0, 6)]];
  if (r.empty()) r = "/";
  for (int i = ri(0, 6); i > 0; --i) f += (f.empty() or f.back() == '/' ? "" : "/") + std::string(seg[ri(0, 9)]);
  if (f == "/" and ri(0, 1)) f = r + "/x";
  auto a = segments(f.rfind("/", 0) == 0 ? f : r + "/" + f), b = segments(r);
  bool want = a.size() >= b.size() and std::equal(b.begin(), b.end(), a.begin());
  check(io::absolute_file_path_in_root(r, f) == want, "paths outside the root are recognised", "root " + r + " file " + f);
}
int main(int argc, char **argv) {
  MAIN(argc, argv)
  if (getuid() != 0) { std::printf("RUN needs an unprivileged user to drop to\n"); return finish(); }
  chmod(scratch.c_str(), 0711);
  std::string top = scratch + "/c17";
  fs::create_directory(top);
  dir = top;
  for (long t = 0; t < N; ++t) {
    overwrite(); overwrite();
    unique();
    if (t % 4 == 0) prepared();
    filled();
    for (int k = 0; k < 20; ++k) root();
    fs::remove_all(dir);
  }
  fs::remove_all(top);
  return finish();
}
