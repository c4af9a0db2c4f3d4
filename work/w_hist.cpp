// P06: pipelines give the same answers in every mode; P09: value semantics.
#include "hist.hpp"

template<int AR> static void pipeline(int maxN, int maxW) {
    Env e = drawEnv(); Hist<AR> h(e, maxN, maxW, 3);
    h.build();
    int steps = 2 + (int)draw(7);
    for (int k = 0; k < steps; ++k) {
        perturbThreads(h.e);
        switch (draw(12)) {
        case 0: case 1: h.reduce(h.pick()); break;
        case 2: h.subsetSpec(h.pick()); break;
        case 3: case 4: if (h.S.size() < 4) h.convert(h.pick()); break;
        case 5: case 6: h.compare(h.pick(), h.pick()); break;
        case 7: h.count(h.pick()); break;
        case 8: if (h.S.size() < 4) h.build(); break;
        case 9: if (h.S.size() < 4) h.copy(h.pick()); break;
        case 10: h.subsetDd(h.pick(), h.pick()); break;
        case 11: if (h.S.size() < 4) h.universal(); break;
        }
        ++h.ops;
    }
    if (h.big && steps >= 3) sim::nontrivial();
    h.clear();
}
template<int AR> static void cow(int maxN, int maxW) {
    Env e = drawEnv(); Hist<AR> h(e, maxN, maxW, 6);
    h.build(); h.copy(0);
    int steps = 3 + (int)draw(12); int inplace = 0;
    for (int k = 0; k < steps; ++k) {
        if (h.S.empty()) h.build();
        perturbThreads(h.e);
        switch (draw(14)) {
        case 0: case 1: if (h.S.size() < 6) h.copy(h.pick()); break;
        case 2: case 3: h.reduce(h.pick()); ++inplace; break;
        case 4: h.subsetSpec(h.pick()); ++inplace; break;
        case 5: case 6: h.subsetDd(h.pick(), h.pick()); ++inplace; break;
        case 7: { size_t k = h.pick(); h.assign(k, k); break; }
        case 8: case 9: h.assign(h.pick(), h.pick()); break;
        case 10: h.destroy(h.pick()); break;
        case 11: h.viaVector(); break;
        case 12: h.swap2(h.pick(), h.pick()); break;
        case 13: if (draw(2)) h.tableHandle(h.pick()); else if (h.S.size() < 6) h.build(); break;
        }
    }
    if (h.big && inplace) sim::nontrivial();
    h.clear();
}
WORKLOAD(pipe2) { pipeline<2>(8, 8); }
WORKLOAD(pipe3) { pipeline<3>(5, 8); }
WORKLOAD(pipe2wide) { pipeline<2>(10, 100); }
WORKLOAD(cow2) { cow<2>(6, 6); }
WORKLOAD(cow3) { cow<3>(4, 6); }
