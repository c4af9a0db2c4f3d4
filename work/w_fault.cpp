// P10: allocation failures and throwing callbacks in serial operations.
#include "hist.hpp"

// Evaluator with heap-owning values whose callback may throw.
template<int AR> struct ThrowEval : DdEval<ThrowEval<AR>, Obj, uint64_t> {
    SpecCore core; int lim;
    ThrowEval(Auto const* a) : core(a, 0), lim(0) {}
    bool isThreadSafe() const { return false; }
    void evalTerminal(Obj& v, int id) { core.tick(); v.set(id); }
    void evalNode(Obj& v, int, DdValues<Obj,AR> const& values) { core.tick(); int h = 17; for (int b = 0; b < AR; ++b) h = (h * 31 + values.get(b).get()) & 0xffff; v.set(h); }
    uint64_t getValue(Obj const& v) { return v.get(); }
};

template<int AR> struct Faulty : Hist<AR> {
    typedef Hist<AR> H; using H::S; using H::e; using H::cz; using H::cq; using H::cb;
    bool threw; int what;
    Faulty(Env const& e, int n, int w) : H(e, n, w, 4), threw(false), what(0) {}
    void arm() {        // which failure, where
        int kind = (int)draw(3); what = kind;
        uint64_t at;
        switch (draw(4)) { case 0: at = 1 + draw(8); break; case 1: at = 1 + draw(40); break; case 2: at = 1 + draw(200); break; default: at = 1 + draw(1200); }
        if (kind == 2) { SpecCore::calls = 0; SpecCore::throwAt = at; sim::note("[callback %llu throws] ", (ULL)at); }
        else { uint64_t len = kind == 0 ? 1 : 1000000000; sim::allocFailAt(at, len); sim::note("[alloc %llu%s fails] ", (ULL)at, kind ? "+" : ""); }
    }
    void disarm() { sim::allocFailAt(0); SpecCore::throwAt = 0; }
    // Runs fn with a failure armed; returns true if it completed.
    template<typename F> bool attempt(F fn) {
        bool done = false, wasAlloc = false; threw = false;
        // sutEnter/sutLeave balance is restored by the guard objects during unwinding
        try { sim::Sut s; arm(); fn(); done = true; }
        catch (std::bad_alloc&) { sim::Oracle o; threw = true; wasAlloc = true; }
        catch (Throwing&) { sim::Oracle o; threw = true; }
        bool af = sim::allocFailed();
        bool cb = SpecCore::throwAt && SpecCore::calls >= SpecCore::throwAt;
        disarm();
        if (threw && wasAlloc && !af) sim::fail("EXCEPTION", "bad_alloc although no allocation failed");
        if (done && cb) sim::fail("EXCEPTION", "an exception of a callback did not reach the caller");
        if (done && af) sim::fail("EXCEPTION", "a failed allocation was not reported to the caller");
        if (threw) { sim::note("-> failed "); sim::nontrivial(); }
        sim::ev(done ? 1 : wasAlloc ? 2 : 3);
        return done;
    }
    // The target of a failed operation may hold anything, but assigning to it repairs it, and it can be destroyed.
    void recover(size_t k) {
        this->others(k, "a failed operation");
        switch (draw(3)) {
        case 0: sim::note("destroy "); SUT(S[k].d.reset()); S.erase(S.begin() + k); break;
        case 1: if (S.size() > 1) { size_t j = (k + 1 + draw(S.size() - 1)) % S.size(); sim::note("assign(%d=%d) ", (int)k, (int)j); SUT(*S[k].d = *S[j].d); S[k].m = S[j].m; break; }
            // fallthrough
        default: { Auto a = this->drawAuto(); sim::note("rebuild "); SpecInt<AR> spec(&a); SUT(*S[k].d = DdStructure<AR>(spec, false)); S[k].m.red = 0;
            S[k].m.q = cq.fromAuto(a); S[k].m.b = cb.fromAuto(a); S[k].m.z = cz.fromAuto(a);
            checkCanon(*S[k].d, cq, S[k].m.q, "diagram assigned after a failure"); S[k].m.size = S[k].d->size(); }
        }
        this->others(S.size(), "recovery");
    }
    void step() {
        size_t k = this->pick(), j = this->pick();
        for (auto& s : S) s.d->useMultiProcessors(false);
        switch (draw(12)) {
        case 0: case 1: {
            Auto a = this->drawAuto(); DdP<AR> d; sim::note("build ");
            withSpec<AR>(a, [&](auto const& spec) { attempt([&] { d.reset(new DdStructure<AR>(spec, false)); }); });
            if (d) { checkCanon(*d, cq, cq.fromAuto(a), "built diagram"); SUT(d.reset()); }
            this->others(S.size(), "construction"); break; }
        case 2: case 3: {
            int kind = (int)draw(3); auto& s = S[k]; sim::note("reduce%d(%d) ", kind, (int)k);
            if (attempt([&] { if (kind == 0) s.d->zddReduce(); else if (kind == 1) s.d->bddReduce(); else s.d->qddReduce(); })) {
                if (kind == 0) checkCanon(*s.d, cz, s.m.z, "reduced diagram"); else if (kind == 1) checkCanon(*s.d, cb, s.m.b, "reduced diagram"); else checkCanon(*s.d, cq, s.m.q, "reduced diagram");
                s.m = this->snap(*s.d, 0); this->others(k, "reduction");
            } else recover(k);
            break; }
        case 4: case 5: {
            Auto a = this->drawAuto(std::max(1, S[k].d->topLevel())); auto& s = S[k]; sim::note("subset(%d) ", (int)k); bool ok = false;
            int want = cz.apply(s.m.z, cz.fromAuto(a), false);
            withSpec<AR>(a, [&](auto const& spec) { ok = attempt([&] { s.d->zddSubset(spec); }); });
            if (ok) { checkCanon(*s.d, cz, want, "subset"); s.m = this->snap(*s.d, 0); this->others(k, "subsetting"); } else recover(k);
            break; }
        case 6: {
            auto& s = S[k]; sim::note("subset(%d by %d) ", (int)k, (int)j); int want = cz.apply(s.m.z, S[j].m.z, false);
            if (attempt([&] { s.d->zddSubset(*S[j].d); })) { checkCanon(*s.d, cz, want, "subset"); s.m = this->snap(*s.d, 0); this->others(k, "subsetting"); }
            else recover(k);
            break; }
        case 7: { sim::note("copy/assign(%d=%d) ", (int)k, (int)j);
            DdP<AR> d; attempt([&] { d.reset(new DdStructure<AR>(*S[k].d)); *d = *S[j].d; }); SUT(d.reset());
            if (attempt([&] { *S[k].d = *S[j].d; })) S[k].m = S[j].m; else recover(k);
            this->others(S.size(), "assignment"); break; }
        case 8: { sim::note("evaluate(%d) ", (int)k); Auto none; none.n = 0; none.ar = AR; Life::reset(); bool ok = false; uint64_t v = 0;
            { ThrowEval<AR> ev(&none); ok = attempt([&] { v = S[k].d->evaluate(ev); }); }
            if (ok && Life::live) sim::fail("LIFE", "values left after evaluation"); sim::ev(ok ? v : 0);
            this->others(S.size(), "evaluation"); break; }
        case 9: { sim::note("convert(%d) ", (int)k); DdP<AR> d; bool z = draw(2); int n = S[k].d->topLevel() + (int)draw(2);
            if (attempt([&] { d.reset(new DdStructure<AR>(z ? S[k].d->bdd2zdd(n) : S[k].d->zdd2bdd(n))); })) {
                if (z) checkCanon(*d, cz, this->b2z(S[k].m.b, n), "bdd2zdd"); else checkCanon(*d, cb, this->z2b(S[k].m.z, n), "zdd2bdd");
                SUT(d.reset()); }
            this->others(S.size(), "conversion"); break; }
        case 10: if (draw(2)) {      // against a structurally equal diagram with a table of its own
            sim::note("compare(%d, private copy) ", (int)k); DdP<AR> d; SUT(d.reset(new DdStructure<AR>(*S[k].d)); d->getDiagram().privateEntity());
            attempt([&] { sim::ev(*S[k].d == *d); }); SUT(d.reset()); this->others(S.size(), "comparison"); break; }
            { sim::note("compare(%d,%d) ", (int)k, (int)j); bool eq = false; if (attempt([&] { eq = *S[k].d == *S[j].d; })) { if (eq && S[k].m.q != S[j].m.q) sim::fail("COMPARE", "== holds for different diagrams"); if (k == j && !eq) sim::fail("COMPARE", "a diagram differs from itself"); }
            this->others(S.size(), "comparison"); break; }
        case 11: { sim::note("count(%d) ", (int)k); std::string* c = 0; if (attempt([&] { std::string t = S[k].d->zddCardinality(); { sim::Oracle o; c = new std::string(t.c_str()); } })) { if (*c != cz.cardinality(S[k].m.z, 0)) sim::fail("COUNT", "wrong count %s", c->c_str()); }
            delete c; this->others(S.size(), "counting"); break; }
        }
    }
};
template<int AR> static void faults(int maxN, int maxW) {
    Env e; e.threads = 1 + (int)draw(4); e.mp = e.dyn = e.nested = false; sim::setThreads(e.threads); sim::note("threads=%d ", e.threads);
    SpecCore::throwAt = 0;
    Faulty<AR> h(e, maxN, maxW);
    h.build(); if (draw(2)) h.copy(0); if (draw(3) == 2) h.build();
    int steps = 1 + (int)draw(5);
    for (int k = 0; k < steps; ++k) { if (h.S.empty()) h.build(); h.step(); }
    h.clear();
}
WORKLOAD(fault2) { faults<2>(8, 12); }
WORKLOAD(fault3) { faults<3>(5, 12); }
WORKLOAD(fault2wide) { faults<2>(12, 100); }
