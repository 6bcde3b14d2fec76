#include "gen.h"
#include <map>
const char* PROP_ID = "C03";
const char* PROP_RULE = "history with at least one insertion, one key change and two removals on a queue of three or more entries";
const unsigned long QUICK_CASES = 200000, THOROUGH_CASES = 600000;

void property(Src& s)
{
    unsigned cap = (unsigned) (s.chance(1, 6) ? s.range(1, 400) : s.range(1, 40));
    bool selfTest = s.chance(1, 2);
    slsm::Heap heap(cap, selfTest);
    struct Entry { unsigned addr; double key; bool stored; };
    std::vector<Entry> es;                      // by handle order of insertion
    std::map<unsigned, size_t> byHandle;
    size_t stored = 0; unsigned pushes = 0, sets = 0, pops = 0; size_t peak = 0;
    unsigned keyKind = s.weighted({3, 2, 1, 1});
    // relative frequency of operations: fill, churn or drain
    std::vector<unsigned> wts = {(unsigned) s.range(1, 6), (unsigned) s.range(0, 8), (unsigned) s.range(1, 6), 1};
    s.desc("capacity %u keys %u", cap, keyKind);
    auto key = [&]() -> double {
        if (keyKind == 0) return s.uniform(0, 10);
        if (keyKind == 1) return (double) s.range(0, 4);
        if (keyKind == 2) return s.uniform(-5, 5);
        static const double v[] = {0.0, -0.0, 1e308, -1e308, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1.0, 1.0000000000000002};
        return v[s.draw(9)];
    };
    auto minimum = [&]() { double m = std::numeric_limits<double>::infinity(); for (auto& e : es) if (e.stored && e.key < m) m = e.key; return m; };
    auto observe = [&](const char* after) {
        REQUIRE(heap.size() == stored, "after %s: size %u, expected %zu", after, heap.size(), stored);
        REQUIRE(heap.empty() == (stored == 0), "after %s: emptiness wrong", after);
        if (stored) {
            double p = heap.peek();
            REQUIRE(p == minimum(), "after %s: peek %.17g, smallest key %.17g", after, p, minimum());
            REQUIRE(heap.size() == stored && heap.peek() == p, "peek changed the queue");
        }
    };
    observe("construction");
    int n = (int) s.range(0, s.chance(1, 8) ? 600 : 80);
    auto pop = [&]() {
        double m = minimum(); unsigned a = 12345678; double v = -77;
        heap.pop(a, v);
        REQUIRE(v == m, "removed key %.17g, smallest is %.17g", v, m);
        // the address must belong to a stored entry with that key
        bool found = false;
        for (auto& e : es) if (e.stored && e.addr == a) {
            REQUIRE(e.key == v, "removed address %u with key %.17g, its current key is %.17g", a, v, e.key);
            e.stored = false; found = true; break;
        }
        REQUIRE(found, "removed address %u which is not stored", a);
        stored--; pops++;
    };
    for (int i = 0; i < n; i++) {
        unsigned op = s.weighted(wts);
        if (op == 0 && stored < cap) {
            unsigned addr = (unsigned) (es.size() * 7 + s.range(0, 6));
            double k = key();
            unsigned h = heap.push(addr, k);
            REQUIRE(!byHandle.count(h), "handle %u given out twice", h);
            byHandle[h] = es.size();
            es.push_back({addr, k, true}); stored++; pushes++; peak = std::max(peak, stored);
            observe("insertion");
        }
        else if (op == 1 && stored) {
            size_t pick = s.draw(stored); unsigned h = 0; Entry* e = nullptr;
            for (auto& b : byHandle) if (es[b.second].stored) { if (pick == 0) { h = b.first; e = &es[b.second]; break; } pick--; }
            double k;
            unsigned kk = s.weighted({3, 1, 1, 1});
            if (kk == 0) k = key();
            else if (kk == 1) k = e->key;
            else if (kk == 2) k = minimum();
            else { k = -std::numeric_limits<double>::infinity(); for (auto& q : es) if (q.stored && q.key > k) k = q.key; }
            heap.set(h, k); e->key = k; sets++;
            observe("key change");
        }
        else if (op == 2 && stored) { pop(); observe("removal"); }
        else observe("peek");
    }
    // drain: keys come out in order
    double last = -std::numeric_limits<double>::infinity();
    while (stored) {
        double m = minimum();
        pop();
        REQUIRE(m >= last, "drained keys out of order");
        last = m;
    }
    observe("draining");
    s.nontrivial(pushes && sets && pops >= 2 && peak >= 3);
    if (sets && peak > 7) s.label("key changes in a deep queue");
    if (es.size() > cap) s.label("more insertions than capacity over time");
    if (keyKind == 3) s.label("special floating-point keys");
    if (keyKind == 1) s.label("many equal keys");
}
