// Runs one script of users of the thread pool. Input: threads activate end, users, then per user: ops "loop start end step us" | "idle" | "wake" | "nap us" | "slot" | "drop" | "done".
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <iostream>
#include <string>
#include <thread>
#include <vector>
#include "mllm/engine/HpcThreadPool.hpp"
using namespace mllm;
struct Op {
  std::string n;
  long a[4] = {0, 0, 0, 0};
};
static std::atomic<int> bad{0}, pooled{0};
static void fail(const char* m, long a = 0, long b = 0, long c = 0) {
  if (bad.fetch_add(1) == 0) {
    printf("FAIL %s %ld %ld %ld\n", m, a, b, c);
    fflush(stdout);
  }
}
static void pause_(long us) {
  if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us));
}
int main() {
  int threads, active, end, users, meet;
  std::cin >> threads >> active >> end >> meet >> users;
  std::vector<std::vector<Op>> ops(users);
  for (auto& u : ops)
    for (;;) {
      Op o;
      std::cin >> o.n;
      if (o.n == "done") break;
      if (o.n == "loop") std::cin >> o.a[0] >> o.a[1] >> o.a[2] >> o.a[3];
      if (o.n == "nap") std::cin >> o.a[0];
      u.push_back(o);
    }
  {
    HpcThreadPool pool(threads);
    if (active) pool.activate();
    std::atomic<int> held[2] = {0, 0};
    std::vector<std::thread> ts;
    for (auto& u : ops)
      ts.emplace_back([&] {
        int slot = -1;
        auto take = [&] {
          slot = pool.acquireTaskSlot();
          if (slot < 0 && users <= 2) fail("no slot for one of two users");
          if (slot < -1 || slot > 1) fail("slot number", slot);
          if (slot >= 0 && held[slot].fetch_add(1)) fail("a slot was given out twice", slot);
        };
        auto give = [&] {
          if (slot >= 0) held[slot]--;
          pool.releaseTaskSlot(slot);
          slot = -1;
        };
        take();
        for (auto& o : u) {
          if (o.n == "idle") pool.idle();
          if (o.n == "wake") pool.wakeup();
          if (o.n == "nap") pause_(o.a[0]);
          if (o.n == "drop") give();
          if (o.n == "slot") {
            give();
            take();
          }
          if (o.n != "loop") continue;
          long s = o.a[0], e = o.a[1], st = o.a[2];
          long n = s < e ? (e - s + st - 1) / st : 0;
          std::vector<int> hits(n, 0);
          std::vector<std::thread::id> who(n);
          HpcThreadPoolTask t;
          t.start = s;
          t.end = e;
          t.step = st;
          t.func = [&](int i) {
            long k = (i - s) / st;
            if (i < s || i >= e || (i - s) % st) return fail("a loop ran an index it does not have", i, s, e);
            if (o.a[3] > 0) pause_(o.a[3]);
            hits[k]++;
            who[k] = std::this_thread::get_id();
          };
          pool.push(std::move(t), slot);
          for (long k = 0; k < n; ++k) {
            if (hits[k] != 1) fail("an index ran another number of times than once by the end of its loop", s + k * st, hits[k], n);
            if (who[k] != std::this_thread::get_id()) pooled = 1;
          }
        }
        give();
      });
    for (auto& t : ts) t.join();
    {
      int a = pool.acquireTaskSlot(), b = pool.acquireTaskSlot(), c = pool.acquireTaskSlot();
      if (a < 0 || b < 0 || a > 1 || b > 1 || a == b || c != -1) fail("slots after all were released", a, b, c);
      pool.releaseTaskSlot(a);
      if (pool.acquireTaskSlot() != a) fail("slot after it was released", a);
      pool.releaseTaskSlot(b);
      pool.releaseTaskSlot(a);
    }
    if (meet && active) {
      // Awake again, all threads of the pool work at the same time.
      pool.wakeup();
      int slot = pool.acquireTaskSlot();
      std::atomic<int> in{0};
      HpcThreadPoolTask t;
      t.start = 0;
      t.end = threads;
      t.func = [&](int) {
        in++;
        for (int k = 0; k < 50000 && in < threads; ++k) std::this_thread::sleep_for(std::chrono::microseconds(100));
        if (in < threads) fail("threads of the woken pool that take part in a loop", in, threads);
      };
      if (slot < 0) fail("no slot after all were released");
      else pool.push(std::move(t), slot);
    }
    if (end == 1) pool.__threadPoolDestroy();
    if (end == 2) pool.idle();
  }
  printf("%s %d\n", bad ? "BAD" : "OK", (int)pooled);
  fflush(stdout);
  _exit(bad ? 1 : 0);
}
