// C07: concurrent pushes to lf::intrusive_list against one consumer.
#include "vf.h"
#include <libfork/core.hpp>

namespace vf {
char const *nontrivial_rule = "an execution in which a non-empty batch was taken while a producer still had pushes to make";
unsigned sched_per_case = 10;

namespace {

struct Item {
  int id;
  int *plain; // written by the producer before the push, without synchronisation of its own
};
using list_t = lf::intrusive_list<Item *>;
using node_t = list_t::node;
struct Fat : Item {
  Fat() : node{this} {}
  node_t node; // as in libfork: the node lives inside the object it describes
  int data = 0;
};

struct Ev {
  int tid, inv, ret;
  std::uint32_t tick;
};

} // namespace

void run_case(Gen &g) {
  int const np = g.range(1, 4);
  bool const sc = g.chance(1, 3);
  std::vector<int> n(np);
  int total = 0;
  for (auto &x : n) x = g.range(1, 5), total += x;
  int const pops = g.range(0, 8);
  int const action = g.below(4);     // what the callback does with the node it is given
  bool const self = g.chance(1, 3);  // the consumer pushes as well
  bool const sync = g.chance(1, 3);  // producers synchronise with each other now and then
  note("producers=%d nodes=%d pops=%d action=%d self=%d sync=%d %s", np, total, pops, action, self, sync, sc ? "sc" : "weak");

  int const maxid = total * 3 + 16;
  std::vector<Ev> push(maxid, Ev{-1, -1, -1, 0});
  std::vector<int> batch_of(maxid, -1), pos_in(maxid, -1);
  struct Pop {
    int inv, ret;
    std::vector<char> before; // pushes ordered before this pop
    std::vector<int> got;
  };
  std::vector<Pop> popev;
  int clock = 0, created = 0, destroyed = 0, busy_batches = 0, live_producers = np;
  SimOpts o;
  o.allow_weak = !sc;

  sim(
      [&] {
        list_t list, other;
        std::atomic<int> done{0}, ping{0}, next_id{0};
        auto do_push = [&](list_t &l, int id) {
          auto *f = new Fat;
          f->id = id;
          f->data = id * 7 + 1;
          f->plain = &f->data;
          {
            Quiet q;
            ++created;
            push[id].tid = sim_tid();
            push[id].inv = clock++;
          }
          l.push(&f->node);
          {
            Quiet q;
            push[id].ret = clock++;
            push[id].tick = sim_tick();
          }
        };
        std::vector<std::thread> th;
        for (int p = 0; p < np; ++p)
          th.emplace_back([&, p] {
            for (int i = 0; i < n[p]; ++i) {
              do_push(list, next_id.fetch_add(1, std::memory_order_relaxed));
              if (sync) ping.fetch_add(1, std::memory_order_acq_rel);
            }
            {
              Quiet q;
              --live_producers;
            }
            done.fetch_add(1, std::memory_order_acq_rel);
          });
        int self_left = self ? 3 : 0, other_expect = 0;
        auto take = [&] {
          Pop pe;
          {
            Quiet q;
            pe.inv = clock++;
            pe.before.assign(maxid, 0);
            for (int i = 0; i < maxid; ++i)
              if (push[i].ret >= 0)
                pe.before[i] = sc ? 1 : (push[i].tid == 0 || sim_happens_before_tick(push[i].tid, push[i].tick));
          }
          node_t *root = list.try_pop_all();
          {
            Quiet q;
            pe.ret = clock++;
            if (root && live_producers) ++busy_batches;
          }
          int limit = 0;
          for_each_elem(root, [&](Item *&it) {
            VF_CHECK(++limit <= maxid, "for_each_elem does not terminate");
            auto *f = static_cast<Fat *>(it);
            VF_CHECK(unwrap(&f->node) == it, "unwrap does not give the stored value");
            int id = f->id;
            VF_CHECK(*f->plain == id * 7 + 1, "node %d: stale or corrupt data behind the node", id);
            {
              Quiet q;
              pe.got.push_back(id);
            }
            if (action == 1 || action == 3 || (action == 2 && id % 2)) {
              f->data = -1;
              delete f;
            } else if (action == 2 && other_expect < 8) { // re-use: rebuild the node and push it elsewhere
              f->node.~node_t();
              new (&f->node) node_t{f};
              other.push(&f->node);
              ++other_expect;
              return;
            } else
              delete f;
            Quiet q;
            ++destroyed;
          });
          Quiet q;
          popev.push_back(pe);
        };
        for (int i = 0; i < pops; ++i) {
          if (self_left > 0 && (sim_rand() & 1)) {
            --self_left;
            do_push(list, next_id.fetch_add(1, std::memory_order_relaxed));
          }
          take();
          sim_yield();
        }
        for (auto &t : th) t.join();
        take();
        VF_CHECK(list.try_pop_all() == nullptr, "list not empty after its last batch was taken");
        int c = 0, last = -1;
        for_each_elem(other.try_pop_all(), [&](Item *&it) {
          auto *f = static_cast<Fat *>(it);
          ++c;
          delete f;
          Quiet q;
          ++destroyed;
        });
        (void)last;
        VF_CHECK(c == other_expect, "%d nodes were re-pushed, %d received", other_expect, c);
      },
      o);

  for (std::size_t b = 0; b < popev.size(); ++b)
    for (std::size_t k = 0; k < popev[b].got.size(); ++k) {
      int id = popev[b].got[k];
      VF_CHECK(id >= 0 && id < maxid && push[id].inv >= 0, "received a node (%d) nobody pushed", id);
      VF_CHECK(batch_of[id] < 0, "node %d received twice (batches %d and %zu)", id, batch_of[id], b);
      batch_of[id] = (int)b;
      pos_in[id] = (int)k;
    }
  int npush = 0;
  for (int i = 0; i < maxid; ++i)
    if (push[i].inv >= 0) {
      ++npush;
      VF_CHECK(batch_of[i] >= 0, "node %d was lost", i);
      // a pop ordered after the push cannot have missed it
      for (std::size_t b = 0; b < popev.size(); ++b)
        if (popev[b].before[i]) {
          VF_CHECK(batch_of[i] <= (int)b, "push of %d precedes try_pop_all #%zu, which did not return it", i, b);
          break;
        }
    }
  for (int a = 0; a < maxid; ++a)
    for (int b = 0; b < maxid; ++b) {
      if (push[a].inv < 0 || push[b].inv < 0 || a == b) continue;
      bool before = sc ? push[a].ret < push[b].inv
                       : push[a].tid == push[b].tid && push[a].ret < push[b].inv;
      if (before)
        VF_CHECK(std::make_pair(batch_of[a], pos_in[a]) < std::make_pair(batch_of[b], pos_in[b]),
                 "node %d was pushed before node %d but received after it", a, b);
    }
  VF_CHECK(created == destroyed, "internal: %d nodes created, %d consumed", created, destroyed);
  if (busy_batches) nontrivial();
}

} // namespace vf
