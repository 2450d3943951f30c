// C22: tools/make_single_header.cpp run on generated include graphs (and on the real library), against an oracle over
// the lines: every line of every reachable header exactly once, in order, before its users, library includes gone.
#include "vf.h"
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern char **environ;

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a graph of at least three reachable headers in which some header is included more than once";

namespace {
namespace fs = std::filesystem;

struct File {
  std::string path; // relative to the root, as written in include directives
  struct Line {
    std::string text;
    int inc = -1; // index of the included library header
    std::string rest; // what follows an include directive on its line
  };
  std::vector<Line> lines;
  bool final_newline = true;
};

std::string strip(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r')) s.pop_back();
  std::size_t i = 0;
  while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
  return s.substr(i);
}

std::string ident(Gen &g) {
  static char const *const w[] = {"a", "b", "core", "ext", "impl", "x_y", "B2", "macro", "libfork", "hpp", "Z"};
  std::string s = w[g.below(11)];
  if (g.chance(1, 3)) s += std::to_string(g.below(30));
  return s;
}

// The tool is built beside the harness; it runs with the scratch directory as its only argument paths.
std::string run_tool(fs::path const &in, fs::path const &out) {
  std::string a = in.string(), b = out.string(), self = "./make_single_header";
  char *argv[] = {self.data(), a.data(), b.data(), nullptr};
  fs::remove(out);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
  pid_t pid;
  int rc = posix_spawn(&pid, self.c_str(), &fa, nullptr, argv, environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc) std::fprintf(stderr, "cannot run the tool: %d\n", rc), _exit(2);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the tool failed with status %x", (unsigned)st);
  std::ifstream f(out);
  VF_CHECK((bool)f, "the tool wrote nothing");
  return {std::istreambuf_iterator<char>{f}, std::istreambuf_iterator<char>{}};
}

// Pieces of text: lines, cut before trailing comments (what follows a removed directive may join the previous line).
void cut(std::string const &l, std::vector<std::string> &v) {
  std::size_t b = 0;
  for (std::size_t i = 1; i + 1 < l.size(); ++i)
    if (l[i] == '/' && l[i + 1] == '/' && (l[i - 1] == ' ' || l[i - 1] == '\t')) {
      v.push_back(strip(l.substr(b, i - b)));
      b = i;
    }
  v.push_back(strip(l.substr(b)));
  if (v.back() == "//") v.back().clear(); // also the end of the banner
}
std::vector<std::string> lines_of(std::string const &t) {
  std::vector<std::string> v;
  std::istringstream s(t);
  for (std::string l; std::getline(s, l);) cut(l, v);
  return v;
}

// Checks an output against the files. Lines are matched as multisets per header and in sequence.
void check(std::vector<File> const &files, int start, std::string const &output) {
  std::set<int> reach;
  std::vector<int> todo{start};
  while (!todo.empty()) {
    int i = todo.back();
    todo.pop_back();
    if (!reach.insert(i).second) continue;
    for (auto &l : files[(std::size_t)i].lines)
      if (l.inc >= 0) todo.push_back(l.inc);
  }
  std::vector<std::string> out = lines_of(output);
  std::map<std::string, std::vector<int>> where; // text -> line numbers, in order
  int n = 0;
  for (auto &l : out) {
    if (!l.empty()) where[l].push_back(n);
    VF_CHECK(l.rfind("#include \"libfork/", 0) != 0, "a library include directive is left: %s", l.c_str());
    ++n;
  }
  // total multiplicities
  std::map<std::string, int> want;
  for (int i : reach)
    for (auto &l : files[(std::size_t)i].lines) {
      std::vector<std::string> ps;
      cut(l.inc >= 0 ? l.rest : l.text, ps);
      for (auto &s : ps)
        if (!s.empty()) ++want[s];
    }
  for (auto &[s, k] : want) {
    auto it = where.find(s);
    int have = it == where.end() ? 0 : (int)it->second.size();
    VF_CHECK(have == k, "the line '%s' appears %d times, expected %d", s.c_str(), have, k);
  }
  int extra = 0;
  for (auto &[s, v] : where)
    if (!want.count(s)) {
      VF_CHECK(s.rfind("//", 0) == 0, "the output has a line of no header: '%s'", s.c_str());
      extra += (int)v.size();
    }
  VF_CHECK(extra <= 8, "%d added lines", extra);
  // order, on the lines that identify a place
  std::map<int, std::vector<std::pair<int, int>>> pos; // file -> (line in file, place in output)
  for (int i : reach) {
    auto &ls = files[(std::size_t)i].lines;
    for (int k = 0; k < (int)ls.size(); ++k) {
      std::vector<std::string> ps;
      cut(ls[(std::size_t)k].inc >= 0 ? ls[(std::size_t)k].rest : ls[(std::size_t)k].text, ps);
      for (auto &s : ps) {
        if (s.empty() || want[s] != 1) continue;
        int p = where[s][0];
        if (!pos[i].empty())
          VF_CHECK(pos[i].back().second < p, "%s: line %d comes before line %d", files[(std::size_t)i].path.c_str(), k,
                   pos[i].back().first);
        pos[i].push_back({k, p});
      }
    }
  }
  for (int i : reach) {
    auto &ls = files[(std::size_t)i].lines;
    for (int k = 0; k < (int)ls.size(); ++k) {
      int b = ls[(std::size_t)k].inc;
      if (b < 0 || pos[b].empty()) continue;
      for (auto [line, p] : pos[i])
        if (line >= k)
          VF_CHECK(p > pos[b].back().second, "%s line %d comes before the end of %s, which it includes earlier",
                   files[(std::size_t)i].path.c_str(), line, files[(std::size_t)b].path.c_str());
    }
  }
}

struct Scratch {
  fs::path root = fs::path("scratch_" + std::to_string(getpid())); // in the build directory
  Scratch() {
    fs::remove_all(root);
    fs::create_directories(root / "in");
    root = fs::canonical(root);
  }
  ~Scratch() { fs::remove_all(root); }
};

void generated(Gen &g) {
  int n = g.range(1, g.chance(1, 4) ? 14 : 6);
  std::vector<File> files((std::size_t)n);
  std::set<std::string> used;
  for (int i = 0; i < n; ++i) {
    auto &f = files[(std::size_t)i];
    do {
      if (i == 0 && g.chance(1, 2)) f.path = "libfork.hpp";
      else {
        f.path = "libfork/";
        for (int d = (int)g.below(3); d > 0; --d) f.path += ident(g) + "/";
        f.path += ident(g) + ".hpp";
      }
      if (used.count(f.path)) f.path.insert(f.path.size() - 4, "_" + std::to_string(i));
    } while (!used.insert(f.path).second);
  }
  // A start header that is itself below libfork/ would look for its includes below libfork/libfork/: the tool's
  // include paths are relative to the start header, so it always lies at the root.
  if (files[0].path != "libfork.hpp") {
    files[0].path = ident(g) + "_start.hpp";
  }
  int uniq = 0;
  for (int i = 0; i < n; ++i) {
    auto &f = files[(std::size_t)i];
    int k = (int)g.below(9);
    for (int l = 0; l < k; ++l) {
      File::Line ln;
      std::string u = std::to_string(++uniq);
      switch (g.below(13)) {
        case 0: ln.text = ""; break;
        case 1: ln.text = "#include <vector>"; break;
        case 2: ln.text = "#include <cstddef> // for size_t " + u; break;
        case 3: ln.text = "// #include \"libfork/a.hpp\" " + u; break;
        case 4: ln.text = "#include \"other/lib" + u + ".hpp\""; break;
        case 5: ln.text = "int v" + u + " = f(\"libfork/core.hpp\"); /* $& $1 \\n */"; break;
        case 6: ln.text = "   * Use #include \"libfork.hpp\" " + u; break;
        case 7: ln.text = "#ifndef G" + u; break;
        default:
          if (i + 1 < n) {
            ln.inc = g.range(i + 1, n - 1);
            auto &p = files[(std::size_t)ln.inc].path;
            ln.text = "#include \"" + p + "\"";
            if (g.chance(1, 2)) ln.rest = " // for thing" + u;
            else if (g.chance(1, 4)) ln.rest = "  ";
            ln.text += ln.rest;
          } else
            ln.text = "struct S" + u + " {};";
      }
      f.lines.push_back(std::move(ln));
    }
    f.final_newline = g.chance(3, 4);
  }
  Scratch sc;
  for (auto &f : files) {
    fs::path p = sc.root / "in" / f.path;
    fs::create_directories(p.parent_path());
    std::ofstream o(p);
    for (std::size_t k = 0; k < f.lines.size(); ++k) {
      o << f.lines[k].text;
      if (k + 1 < f.lines.size() || f.final_newline) o << "\n";
    }
  }
  std::map<int, int> ninc;
  for (auto &f : files) {
    note("--- %s", f.path.c_str());
    for (auto &l : f.lines) {
      note("%s", l.text.c_str());
      if (l.inc >= 0) ++ninc[l.inc];
    }
  }
  std::string out = run_tool(sc.root / "in" / files[0].path, sc.root / "out.hpp");
  if (verbose()) note("=== output\n%s", out.c_str());
  check(files, 0, out);
  // generating twice gives the same
  VF_CHECK(run_tool(sc.root / "in" / files[0].path, sc.root / "out.hpp") == out, "the output differs between two runs");
  bool multi = false;
  for (auto [i, k] : ninc) multi |= k > 1;
  if (multi && n >= 3) nontrivial();
}

// The library itself (from the repository's working tree), starting from the header that includes everything.
void real(Gen &g) {
  fs::path root = fs::path(VF_REPO) / "include";
  std::vector<File> files;
  std::map<std::string, int> idx;
  std::function<int(std::string const &)> load = [&](std::string const &p) -> int {
    if (auto it = idx.find(p); it != idx.end()) return it->second;
    int me = (int)files.size();
    idx[p] = me;
    files.push_back({p, {}, true});
    std::ifstream f(root / p);
    VF_CHECK((bool)f, "cannot read %s", p.c_str());
    std::vector<File::Line> ls;
    for (std::string l; std::getline(f, l);) {
      File::Line ln{l, -1, ""};
      if (l.rfind("#include \"libfork", 0) == 0) {
        auto q = l.find('"', 10);
        ln.inc = load(l.substr(10, q - 10));
        ln.rest = l.substr(q + 1);
      }
      ls.push_back(std::move(ln));
    }
    files[(std::size_t)me].lines = std::move(ls);
    return me;
  };
  note("the library itself");
  load("libfork.hpp");
  Scratch sc;
  // from a copy, so that nothing depends on where the library lies
  bool copy = g.chance(1, 2);
  if (copy)
    for (auto &f : files) {
      fs::path p = sc.root / "in" / f.path;
      fs::create_directories(p.parent_path());
      fs::copy_file(root / f.path, p);
    }
  check(files, 0, run_tool(copy ? sc.root / "in" / "libfork.hpp" : root / "libfork.hpp", sc.root / "out.hpp"));
  nontrivial();
}

} // namespace

void run_case(Gen &g) {
  if (g.chance(1, 60)) real(g);
  else generated(g);
}

} // namespace vf
