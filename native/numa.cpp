// C20: numa_topology::split / distribute over generated (synthetic, possibly asymmetric) hwloc topologies, against an
// oracle computed from CPU sets alone. Without VF_HWLOC: the fall-back implementation.
#include "vf.h"
#include <cstdlib>
#include <libfork/schedule.hpp>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

namespace vf {
unsigned sched_per_case = 1;
char const *nontrivial_rule = "a distribution of at least three objects that needs two or more distance groups";

namespace {

struct Obj {
  int id;
};

std::vector<std::shared_ptr<Obj>> objects(std::size_t n) {
  std::vector<std::shared_ptr<Obj>> v;
  for (std::size_t i = 0; i < n; ++i) v.push_back(std::make_shared<Obj>(Obj{(int)i}));
  return v;
}

#ifdef LF_USE_HWLOC

std::string gen_synthetic(Gen &g, int &pus, bool &core_mem) {
  struct L {
    char const *name;
    bool must;
  };
  static L const lv[] = {{"group", false}, {"pack", false}, {"die", false}, {"l3", false}, {"l2", false}, {"core", true}, {"pu", true}};
  std::string s;
  pus = 1;
  bool numa = false;
  auto attach = [&](unsigned num, unsigned den) {
    if (g.chance(num, den)) {
      s += "[numa] ";
      numa = true;
      if (g.chance(1, 6)) s += "[numa] ";
    }
  };
  attach(1, 12);
  for (auto const &l : lv) {
    bool pack = l.name == std::string("pack");
    if (!l.must && !g.chance(pack ? 3 : 1, pack ? 4 : 3)) continue;
    int a = g.range(1, pack ? 4 : 3);
    if (pus * a > 48) a = 1;
    pus *= a;
    s += std::string(l.name) + ":" + std::to_string(a) + " ";
    bool core = l.name == std::string("core");
    if (!l.must || core) {
      std::size_t z = s.size();
      attach(1, numa ? 12 : 3);
      core_mem |= core && s.size() > z;
    }
  }
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}

struct Placement {
  int pu;
  std::set<unsigned> mem; // logical indices of the NUMA nodes local to it
};

int smallest_common(hwloc_topology_t t, int a, int b) { // size of the smallest object holding both PUs
  int best = 1 << 30;
  for (int d = 0; d < hwloc_topology_get_depth(t); ++d)
    for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_depth(t, d, o));)
      if (hwloc_bitmap_isset(o->cpuset, (unsigned)a) && hwloc_bitmap_isset(o->cpuset, (unsigned)b))
        best = std::min(best, hwloc_bitmap_weight(o->cpuset));
  return best;
}

std::set<unsigned> local_memory(hwloc_topology_t t, int pu) {
  std::set<unsigned> r;
  int best = 1 << 30;
  for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(t, HWLOC_OBJ_NUMANODE, o));)
    if (hwloc_bitmap_isset(o->cpuset, (unsigned)pu)) {
      int w = hwloc_bitmap_weight(o->cpuset);
      if (w < best) best = w, r.clear();
      if (w == best) r.insert(o->logical_index);
    }
  return r;
}

void check_placements(hwloc_topology_t ref, std::vector<Placement> const &p, std::vector<std::size_t> const &numa, std::size_t n,
                      lf::numa_strategy strat, bool symmetric) {
  VF_CHECK(p.size() == n, "%zu placements for %zu workers", p.size(), n);
  hwloc_const_bitmap_t all = hwloc_topology_get_allowed_cpuset(ref);
  std::size_t next = 0;
  for (std::size_t i = 0; i < n; ++i) {
    VF_CHECK(p[i].pu >= 0 && hwloc_bitmap_isset(all, (unsigned)p[i].pu), "worker %zu is placed on PU %d, which does not exist", i, p[i].pu);
    VF_CHECK(numa[i] <= next, "the NUMA index of worker %zu is %zu, but only %zu were given so far", i, numa[i], next);
    if (numa[i] == next) ++next;
  }
  VF_CHECK(numa[0] == 0, "the first NUMA index is %zu", numa[0]);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < i; ++j)
      VF_CHECK((numa[i] == numa[j]) == (p[i].mem == p[j].mem), "PUs %d and %d %s a memory node but have the NUMA indices %zu and %zu",
               p[i].pu, p[j].pu, p[i].mem == p[j].mem ? "share" : "do not share", numa[i], numa[j]);
  std::set<int> distinct;
  for (auto &x : p) distinct.insert(x.pu);
  if (symmetric && n <= (std::size_t)hwloc_get_nbobjs_by_type(ref, HWLOC_OBJ_CORE)) {
    std::set<hwloc_obj_t> cores;
    for (auto &x : p)
      for (hwloc_obj_t o = nullptr; (o = hwloc_get_next_obj_by_type(ref, HWLOC_OBJ_CORE, o));)
        if (hwloc_bitmap_isset(o->cpuset, (unsigned)x.pu)) cores.insert(o);
    VF_CHECK(cores.size() == n, "%zu workers share %zu cores", n, cores.size());
  }
  std::size_t avail = (std::size_t)hwloc_bitmap_weight(all);
  if (strat == lf::numa_strategy::fan)
    VF_CHECK(distinct.size() == std::min(n, avail), "%zu workers share %zu PUs while %zu exist", n, distinct.size(), avail);
  else {
    std::size_t cores = (std::size_t)hwloc_get_nbobjs_by_type(ref, HWLOC_OBJ_CORE);
    if (n <= cores) {
      VF_CHECK(distinct.size() == n, "%zu workers share %zu PUs while there are %zu cores", n, distinct.size(), cores);
      // filled in sequence: nobody outside the shortest run of leading packages that has enough cores
      hwloc_bitmap_t run = hwloc_bitmap_alloc();
      std::size_t have = 0;
      hwloc_obj_t o = nullptr;
      while (have < n && (o = hwloc_get_next_obj_by_type(ref, HWLOC_OBJ_PACKAGE, o))) {
        hwloc_bitmap_or(run, run, o->cpuset);
        have += (std::size_t)hwloc_get_nbobjs_inside_cpuset_by_type(ref, o->cpuset, HWLOC_OBJ_CORE);
      }
      int bad = -1;
      if (have >= n)
        for (auto &x : p)
          if (!hwloc_bitmap_isset(run, (unsigned)x.pu)) bad = x.pu;
      hwloc_bitmap_free(run);
      VF_CHECK(bad < 0, "seq placed a worker on PU %d although earlier packages have enough cores", bad);
    }
  }
}

void body(hwloc_topology_t ref, std::size_t n, lf::numa_strategy strat, bool via_split, bool symmetric, bool &nontriv) {
  lf::numa_topology topo;
  VF_CHECK((bool)topo, "the topology is empty");
  if (n == 0) {
    bool threw = false;
    try {
      if (via_split) (void)topo.split(0, strat);
      else (void)topo.distribute(std::vector<std::shared_ptr<Obj>>{}, strat);
    } catch (lf::hwloc_error const &) {
      threw = true;
    }
    VF_CHECK(threw, "zero workers were accepted");
    return;
  }
  std::vector<Placement> pl;
  std::vector<std::size_t> numa;
  auto add = [&](lf::numa_topology::numa_handle const &h) {
    VF_CHECK(h.topo != nullptr && h.cpup != nullptr, "a placement without a topology or CPU set");
    VF_CHECK(hwloc_bitmap_weight(h.cpup.get()) == 1, "a placement covers %d PUs", hwloc_bitmap_weight(h.cpup.get()));
    int pu = hwloc_bitmap_first(h.cpup.get());
    pl.push_back({pu, local_memory(ref, pu)});
    numa.push_back(h.numa);
    h.bind(); // a no-op for a topology that is not this system's, but it must be accepted
  };
  if (via_split) {
    auto v = topo.split(n, strat);
    for (auto &h : v) add(h);
    check_placements(ref, pl, numa, n, strat, symmetric);
    return;
  }
  auto data = objects(n);
  auto nodes = topo.distribute(data, strat);
  VF_CHECK(nodes.size() == n, "%zu nodes for %zu objects", nodes.size(), n);
  for (auto &h : nodes) add(h);
  check_placements(ref, pl, numa, n, strat, symmetric);
  // the same placements as split
  auto again = topo.split(n, strat);
  for (std::size_t i = 0; i < n; ++i)
    VF_CHECK(hwloc_bitmap_isequal(again[i].cpup.get(), nodes[i].cpup.get()), "object %zu is not attached to placement %zu", i, i);
  for (std::size_t i = 0; i < n; ++i) {
    auto &nb = nodes[i].neighbors;
    VF_CHECK(!nb.empty() && nb[0].size() == 1 && nb[0][0] == data[i], "neighbourhood 0 of object %zu is not the object alone", i);
    std::set<int> seen{(int)i};
    int last = -1;
    for (std::size_t k = 1; k < nb.size(); ++k) {
      VF_CHECK(!nb[k].empty(), "neighbourhood %zu of object %zu is empty", k, i);
      int d = -1;
      for (auto &q : nb[k]) {
        VF_CHECK(q != nullptr && q == data[(std::size_t)q->id], "a neighbour is not one of the objects");
        VF_CHECK(seen.insert(q->id).second, "object %d appears twice in the neighbourhoods of object %zu", q->id, i);
        int w = smallest_common(ref, pl[i].pu, pl[(std::size_t)q->id].pu);
        VF_CHECK(d < 0 || d == w, "neighbourhood %zu of object %zu mixes distances", k, i);
        d = w;
      }
      VF_CHECK(d > last, "neighbourhood %zu of object %zu is not farther away than the previous one", k, i);
      last = d;
    }
    VF_CHECK(seen.size() == n, "object %zu has %zu of %zu other objects as neighbours", i, seen.size() - 1, n - 1);
    if (n >= 3 && nb.size() >= 3) nontriv = true;
  }
  for (auto &p : data) VF_CHECK(p.use_count() == 1 + (long)n, "an object is referenced %ld times", p.use_count());
}

#endif
} // namespace

void run_case(Gen &g) {
#ifdef LF_USE_HWLOC
  int pus = 0;
  bool core_mem = false;
  std::string syn = gen_synthetic(g, pus, core_mem);
  bool restrict_it = pus > 1 && g.chance(1, 3);
  hwloc_topology_t ref;
  if (hwloc_topology_init(&ref) || hwloc_topology_set_synthetic(ref, syn.c_str()) || hwloc_topology_load(ref)) {
    label("rejected topology");
    hwloc_topology_destroy(ref);
    return;
  }
  unsetenv("HWLOC_XMLFILE");
  unsetenv("HWLOC_SYNTHETIC");
  std::string shown;
  if (restrict_it) {
    hwloc_bitmap_t keep = hwloc_bitmap_alloc();
    for (int i = 0; i < pus; ++i)
      if (g.chance(3, 4)) hwloc_bitmap_set(keep, (unsigned)i), shown += std::to_string(i) + " ";
    if (hwloc_bitmap_iszero(keep)) hwloc_bitmap_set(keep, 0);
    // memory without processors may remain, but not cores without processors
    int rc = hwloc_topology_restrict(ref, keep, g.chance(1, 2) || core_mem ? HWLOC_RESTRICT_FLAG_REMOVE_CPULESS : 0);
    hwloc_bitmap_free(keep);
    std::string f = "numa_" + std::to_string(getpid()) + ".xml"; // in the build directory
    if (rc || hwloc_topology_export_xml(ref, f.c_str(), 0)) {
      label("rejected restriction");
      hwloc_topology_destroy(ref);
      return;
    }
    setenv("HWLOC_XMLFILE", f.c_str(), 1);
    label("asymmetric");
  } else
    setenv("HWLOC_SYNTHETIC", syn.c_str(), 1);
  int have = hwloc_bitmap_weight(hwloc_topology_get_allowed_cpuset(ref));
  int n = g.chance(1, 30) ? 0 : g.chance(1, 5) ? g.range(1, 2 * have + 2) : g.range(1, std::min(have, 16));
  auto strat = g.chance(1, 2) ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  bool via_split = g.chance(1, 4);
  note("%s%s%s n=%d %s %s", syn.c_str(), restrict_it ? " restricted to " : "", shown.c_str(), n,
       strat == lf::numa_strategy::seq ? "seq" : "fan", via_split ? "split" : "distribute");
  bool nt = false;
  struct Rm {
    ~Rm() {
      if (char const *f = getenv("HWLOC_XMLFILE")) ::unlink(f);
    }
  } rm;
  body(ref, (std::size_t)n, strat, via_split, !restrict_it, nt);
  if (g.chance(1, 8)) {
    std::size_t before = __sanitizer_get_current_allocated_bytes();
    body(ref, (std::size_t)n, strat, via_split, !restrict_it, nt);
    std::size_t after = __sanitizer_get_current_allocated_bytes();
    VF_CHECK(before == after, "%td bytes were leaked", (std::ptrdiff_t)(after - before));
  }
  if (nt) nontrivial();
  hwloc_topology_destroy(ref);
#else
  std::size_t n = (std::size_t)g.range(1, 40);
  auto strat = g.chance(1, 2) ? lf::numa_strategy::seq : lf::numa_strategy::fan;
  note("no hwloc, n=%zu", n);
  lf::numa_topology topo;
  VF_CHECK(topo.split(n, strat).size() == n, "split returned another number of placements");
  auto data = objects(n);
  auto nodes = topo.distribute(data, strat);
  VF_CHECK(nodes.size() == n, "%zu nodes for %zu objects", nodes.size(), n);
  for (std::size_t i = 0; i < n; ++i) {
    auto &nb = nodes[i].neighbors;
    VF_CHECK(nodes[i].numa == 0, "without a topology every worker is on node 0");
    nodes[i].bind();
    VF_CHECK(nb.size() == (n > 1 ? 2u : 1u) && nb[0].size() == 1 && nb[0][0] == data[i], "wrong neighbourhoods of object %zu", i);
    std::set<int> seen{(int)i};
    if (n > 1)
      for (auto &q : nb[1]) VF_CHECK(seen.insert(q->id).second, "object %d appears twice", q->id);
    VF_CHECK(seen.size() == n, "object %zu has %zu neighbours", i, seen.size() - 1);
  }
  if (n >= 3) nontrivial();
#endif
}

} // namespace vf
