// M10, M11, M12, M14, M15, M16: resources that pass requests on
#include <functional>
#include <vector>

#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
#include "vecmem/utils/memory_monitor.hpp"

#include "fwd.hpp"
using namespace vfh;

// ------------------------------------------------------------------- M10
VF_HARNESS_FN(choice_history) {
    const int ops = (int)vf_param("ops", 3), K = (int)vf_param("K", 2);
    call_log log;
    rec_upstream u0(0, &log), u1(1, &log), u2(2, &log);
    rec_upstream *up[3] = {&u0, &u1, &u2};
    u64 freed = 0;
    for (auto *u : up)
        u->freed = &freed;
    int want = 0, asked = 0;
    u64 gotN = 0, gotA = 0;
    fmodel m;
    {
        vecmem::choice_memory_resource mr([&](std::size_t n, std::size_t a) -> std::pmr::memory_resource & {
            ++asked;
            gotN = n;
            gotA = a;
            if (want == 9)
                throw std::domain_error("no choice");
            return *up[want];
        });
        for (int i = 0; i < ops; ++i) {
            unsigned k = vf_pick("op", 1 + m.live());
            const int n0 = log.n;
            asked = 0;
            if (k == 0) {
                u64 n = vf_range("n", 1, ~u64(0)), a = any_align();
                unsigned w = vf_pick("want", K + 1);
                want = w == (unsigned)K ? 9 : (int)w;
                int fail = want == 9 ? 0 : (int)vf_pick("fail", 3);
                if (want != 9)
                    up[want]->failNext = fail;
                void *q = nullptr;
                int err = 0;
                try {
                    q = mr.allocate(n, a);
                } catch (const std::domain_error &) {
                    err = 9;
                } catch (const std::bad_alloc &) {
                    err = 1;
                } catch (const std::runtime_error &) {
                    err = 2;
                }
                check(asked == 1, "decision-asked-once");
                check(int(gotN == n) & int(gotA == a), "decision-sees-request");
                check(err == (want == 9 ? 9 : fail), "error-propagates");
                if (want == 9) {
                    check(log.n == n0, "no-request-without-choice");
                    vf_cover("choice-failed");
                } else {
                    check(log.n == n0 + 1, "one-upstream-request");
                    const call &c = log.c[n0];
                    check(c.who == want && c.kind == 0, "sent-to-chosen");
                    check(int(c.n == n) & int(c.a == a), "request-unchanged");
                    if (!err) {
                        check(addr(q) == c.p, "result-unchanged");
                        m.add(c.p, n, a, want);
                    } else
                        vf_cover("upstream-failed");
                }
            } else {
                int j = m.nth(k - 1);
                m.b[j].live = false;
                want = (int)vf_pick("wantThen", K);
                mr.deallocate(ptr(m.b[j].p), m.b[j].n, m.b[j].a);
                check(log.n == n0 + 1, "one-upstream-return");
                const call &c = log.c[n0];
                check(c.kind == 1 && c.who == m.b[j].who, "returned-where-it-came-from");
                check(int(c.p == m.b[j].p) & int(c.n == m.b[j].n) & int(c.a == m.b[j].a),
                      "return-unchanged");
                vf_cover("returned");
            }
        }
        freed = log.n;
    }
    check((u64)log.n == freed, "destruction-sends-nothing");
}

// ------------------------------------------------------------------- M11
VF_HARNESS_FN(coalescing_history) {
    const int ops = (int)vf_param("ops", 3), K = (int)vf_param("K", 2);
    call_log log;
    rec_upstream u0(0, &log), u1(1, &log), u2(2, &log), u3(3, &log), u4(4, &log), u5(5, &log), u6(6, &log), u7(7, &log), u8(8, &log),
        u9(9, &log), ua(10, &log), ub(11, &log);
    rec_upstream *up[12] = {&u0, &u1, &u2, &u3, &u4, &u5, &u6, &u7, &u8, &u9, &ua, &ub};
    u64 freed = 0;
    std::vector<std::reference_wrapper<std::pmr::memory_resource>> v;
    for (int i = 0; i < K; ++i) {
        up[i]->freed = &freed;
        v.push_back(*up[i]);
    }
    fmodel m;
    {
        vecmem::coalescing_memory_resource mr(std::move(v));
        for (int i = 0; i < ops; ++i) {
            unsigned k = vf_pick("op", 1 + m.live());
            const int n0 = log.n;
            if (k == 0) {
                u64 n = vf_range("n", 1, ~u64(0)), a = any_align();
                int serve = (int)vf_pick("server", K + 1);
                for (int u = 0; u < K; ++u)
                    up[u]->failNext = u < serve;
                // the server may fail with an error that is not about memory
                const bool broken = serve < K && vf_pick("broken", 2);
                if (broken)
                    up[serve]->failNext = 2;
                void *q = nullptr;
                bool bad = false, other = false;
                try {
                    q = mr.allocate(n, a);
                } catch (const std::bad_alloc &) {
                    bad = true;
                } catch (const std::runtime_error &) {
                    other = true;
                }
                check(other == broken, "other-errors-pass-through");
                for (int u = 0; u < K; ++u)
                    up[u]->failNext = 0;
                check(bad == (serve == K), "bad-alloc-exactly-when-all-failed");
                check(log.n - n0 == (serve == K ? K : serve + 1), "tried-until-first-success");
                for (int t = n0; t < log.n; ++t) {
                    check(log.c[t].kind == 0 && log.c[t].who == t - n0, "tried-in-order");
                    check(int(log.c[t].n == n) & int(log.c[t].a == a), "request-unchanged");
                }
                if (broken)
                    vf_cover("other-error");
                else if (!bad) {
                    check(addr(q) == log.c[log.n - 1].p, "result-unchanged");
                    m.add(addr(q), n, a, serve);
                    vf_cover("served");
                } else
                    vf_cover("all-failed");
            } else {
                int j = m.nth(k - 1);
                m.b[j].live = false;
                mr.deallocate(ptr(m.b[j].p), m.b[j].n, m.b[j].a);
                check(log.n == n0 + 1, "one-upstream-return");
                const call &c = log.c[n0];
                check(c.kind == 1 && c.who == m.b[j].who, "returned-where-it-came-from");
                check(int(c.p == m.b[j].p) & int(c.n == m.b[j].n) & int(c.a == m.b[j].a),
                      "return-unchanged");
                vf_cover("returned");
            }
        }
    }
}

// ------------------------------------------------------------------- M12
VF_HARNESS_FN(forward_or_refuse) {
    const int kind = (int)vf_param("kind", 0), ops = (int)vf_param("ops", 3);
    call_log log;
    rec_upstream up(0, &log);
    bool answer = true;
    int asked = 0;
    u64 gotN = 0, gotA = 0, lim = vf_sym("limit", 64);
    const bool byLimit = vf_param("limit", 0);
    vecmem::conditional_memory_resource cond(up, [&](std::size_t n, std::size_t a) {
        ++asked;
        gotN = n;
        gotA = a;
        return byLimit ? n < lim : answer;
    });
    vecmem::identity_memory_resource ident(up);
    vecmem::terminal_memory_resource term, term2(up);
    std::pmr::memory_resource *all[4] = {&cond, &ident, &term, &term2};
    std::pmr::memory_resource &mr = *all[kind];
    fmodel m;
    for (int i = 0; i < ops; ++i) {
        unsigned k = vf_pick("op", 2 + m.live());
        const int n0 = log.n;
        asked = 0;
        if (k == 0) {
            u64 n = vf_range("n", 1, ~u64(0)), a = any_align();
            answer = vf_pick("answer", 2);
            bool accept = kind == 0 ? (byLimit ? n < lim : answer) : kind == 1;
            int fail = accept ? (int)vf_pick("fail", 3) : 0;
            up.failNext = fail;
            void *q = nullptr;
            int err = 0;
            try {
                q = mr.allocate(n, a);
            } catch (const std::bad_alloc &) {
                err = 1;
            } catch (const std::runtime_error &) {
                err = 2;
            }
            if (kind == 0) {
                check(asked == 1, "predicate-asked-once");
                check(int(gotN == n) & int(gotA == a), "predicate-sees-request");
            }
            if (!accept) {
                check(err == 1, "refused-with-bad-alloc");
                check(log.n == n0, "refused-request-not-forwarded");
                vf_cover("refused");
            } else {
                check(log.n == n0 + 1, "forwarded-once");
                const call &c = log.c[n0];
                check(c.kind == 0, "forwarded");
                check(int(c.n == n) & int(c.a == a), "request-unchanged");
                check(err == fail, "upstream-error-propagates");
                if (!err) {
                    check(addr(q) == c.p, "result-unchanged");
                    m.add(c.p, n, a, 0);
                    vf_cover("accepted");
                }
            }
        } else {
            // any non-null pointer, handed out or not
            fblock b{vf_range("p", 1, ~u64(0)), vf_sym("dn", 64), any_align(), 0, false};
            if (k > 1) {
                int j = m.nth(k - 2);
                b = m.b[j];
                m.b[j].live = false;
            }
            answer = vf_pick("answer", 2);
            mr.deallocate(ptr(b.p), b.n, b.a);
            if (kind >= 2)
                check(log.n == n0, "terminal-return-has-no-effect");
            else {
                check(log.n == n0 + 1, "return-forwarded-once");
                const call &c = log.c[n0];
                check(c.kind == 1, "return-forwarded");
                check(int(c.p == b.p) & int(c.n == b.n) & int(c.a == b.a), "return-unchanged");
            }
            vf_cover("returned");
        }
    }
}

// ------------------------------------------------------------------- M14
VF_HARNESS_FN(debug_history) {
    const int ops = (int)vf_param("ops", 3);
    call_log log;
    rec_upstream up(0, &log);
    fmodel m;
    vecmem::debug_memory_resource mr(up);
    const unsigned bits = (unsigned)vf_param("bits", 16);
    for (int i = 0; i < ops; ++i) {
        unsigned k = vf_param("script", 0) ? (vf_param("script", 0) >> i) & 1 : i == 0 ? 0 : vf_pick("op", 2);
        const int n0 = log.n;
        if (k == 0) {
            u64 n = vf_range("n", 1, u64(1) << bits), a = any_align(2);
            u64 p = vf_range("p", 1, u64(1) << bits);
            up.forced = p;
            int over = 0;
            for (int j = 0; j < m.cnt; ++j)
                if (m.b[j].live)
                    over |= int(p < m.b[j].p + m.b[j].n) & int(m.b[j].p < p + n);
            bool threw = false;
            void *q = nullptr;
            try {
                q = mr.allocate(n, a);
            } catch (const std::logic_error &) {
                threw = true;
            }
            const call &c = log.c[n0];
            check(log.n > n0 && c.kind == 0, "forwarded");
            check(int(c.n == n) & int(c.a == a), "request-unchanged");
            if (threw) {
                check(over, "no-error-for-disjoint-block");
                vf_cover("overlap-found");
                return;
            }
            check(1 ^ over, "overlap-detected");
            check(log.n == n0 + 1, "forwarded-once");
            check(addr(q) == p, "result-unchanged");
            m.add(p, n, a, 0);
        } else {
            u64 p = vf_range("dp", 1, u64(1) << bits), n = vf_range("dn", 1, u64(1) << bits), a = any_align(2);
            int found = 0;
            for (int j = 0; j < m.cnt; ++j)
                if (m.b[j].live)
                    found |= int(m.b[j].p == p) & int(m.b[j].n == n) & int(m.b[j].a == a);
            bool threw = false;
            try {
                mr.deallocate(ptr(p), n, a);
            } catch (const std::logic_error &) {
                threw = true;
            }
            if (threw) {
                check(1 ^ found, "no-error-for-correct-return");
                check(log.n == n0, "bad-return-not-forwarded");
                vf_cover("bad-return");
            } else {
                check(found, "bad-return-detected");
                check(log.n == n0 + 1, "return-forwarded-once");
                const call &c = log.c[n0];
                check(c.kind == 1, "return-forwarded");
                check(int(c.p == p) & int(c.n == n) & int(c.a == a), "return-unchanged");
                for (int j = 0; j < m.cnt; ++j)
                    if (m.b[j].live && m.b[j].p == p)
                        m.b[j].live = false;
                vf_cover("good-return");
            }
        }
    }
}

// ------------------------------------------------------------------- M15
VF_HARNESS_FN(instrument_history) {
    const int ops = (int)vf_param("ops", 3), H = (int)vf_param("hooks", 2);
    using mr_t = vecmem::instrumenting_memory_resource;
    call_log log;
    rec_upstream up(0, &log);
    u64 freed = 0;
    up.freed = &freed;
    mr_t mr(up);
    int pre = 0, post = 0, del = 0;
    fmodel m;
    call ev[8];
    int evn = 0;
    auto hook = [&](unsigned k) {
        if (k == 1 && pre < H) {
            mr.add_pre_allocate_hook([&log, id = pre](std::size_t n, std::size_t a) {
                log.add(id, 10, 0, n, a);
            });
            ++pre;
        } else if (k == 2 && post < H) {
            mr.add_post_allocate_hook([&log, id = post](std::size_t n, std::size_t a, void *p) {
                log.add(id, 11, addr(p), n, a);
            });
            ++post;
        } else if (k == 3 && del < H) {
            mr.add_pre_deallocate_hook([&log, id = del](void *p, std::size_t n, std::size_t a) {
                log.add(id, 12, addr(p), n, a);
            });
            ++del;
        }
    };
    // many hooks of each kind from the start
    for (int i = (int)vf_param("many", 0) * 3; i-- > 0;)
        hook(1 + i % 3);
    for (int i = 0; i < ops; ++i) {
        unsigned k = vf_pick("op", 1 + (H > 0) * 3 + m.live());
        const int n0 = log.n;
        // hooks may be added at any time
        if (H > 0 && k >= 1 && k <= 3) {
            hook(k);
            check(log.n == n0, "adding-a-hook-calls-nothing");
        } else if (k == 0) {
            u64 n = vf_range("n", 1, ~u64(0)), a = any_align();
            int fail = up.failNext = (int)vf_pick("fail", 2);
            void *q = nullptr;
            bool bad = false;
            try {
                q = mr.allocate(n, a);
            } catch (const std::bad_alloc &) {
                bad = true;
            }
            check(bad == (fail == 1), "bad-alloc-exactly-on-failure");
            check(log.n - n0 == pre + 1 + post, "every-hook-once-and-one-request");
            for (int t = 0; t < pre + 1 + post; ++t) {
                const call &c = log.c[n0 + t];
                check(int(c.n == n) & int(c.a == a), "request-unchanged");
                if (t < pre)
                    check(c.kind == 10 && c.who == t, "pre-hooks-first-in-order");
                else if (t == pre)
                    check(c.kind == 0, "then-the-request");
                else {
                    check(c.kind == 11 && c.who == t - pre - 1, "post-hooks-last-in-order");
                    check(c.p == (bad ? 0 : addr(q)), "post-hook-sees-result");
                }
            }
            if (!bad) {
                check(addr(q) == log.c[n0 + pre].p, "result-unchanged");
                m.add(addr(q), n, a, 0);
                vf_cover("allocated");
            } else
                vf_cover("failed");
            ev[evn++] = call{0, 0, bad ? 0 : addr(q), n, a};
        } else {
            int j = m.nth((int)k - 1 - (H > 0) * 3);
            const fblock b = m.b[j];
            m.b[j].live = false;
            mr.deallocate(ptr(b.p), b.n, b.a);
            check(log.n - n0 == del + 1, "every-hook-once-and-one-request");
            for (int t = 0; t <= del; ++t) {
                const call &c = log.c[n0 + t];
                check(int(c.p == b.p) & int(c.n == b.n) & int(c.a == b.a), "return-unchanged");
                if (t < del)
                    check(c.kind == 12 && c.who == t, "pre-hooks-first-in-order");
                else
                    check(c.kind == 1, "then-the-return");
            }
            ev[evn++] = call{0, 1, b.p, b.n, b.a};
            vf_cover("returned");
        }
        const auto &e = mr.get_events();
        check((int)e.size() == evn, "one-event-per-request");
        for (int t = 0; t < evn; ++t) {
            check((e[t].m_type == mr_t::memory_event::type::ALLOCATION) == (ev[t].kind == 0), "event-kind");
            check(int(e[t].m_size == ev[t].n) & int(e[t].m_align == ev[t].a) &
                      int(addr(e[t].m_ptr) == ev[t].p),
                  "event-contents");
        }
    }
}

// ------------------------------------------------------------------- M16
VF_HARNESS_FN(monitor_history) {
    const int ops = (int)vf_param("ops", 4);
    const u64 maxN = vf_param("maxN", u64(1) << 40);
    const bool avg = vf_param("avg", 0);
    call_log log;
    rec_upstream up(0, &log);
    vecmem::instrumenting_memory_resource ir(up);
    fmodel m;
    u64 total = 0, now = 0, most = 0, cnt = 0;
    auto give0 = [&](std::pmr::memory_resource &r) { r.deallocate(nullptr, 5, 1); };
    vecmem::memory_monitor mon(ir);
    for (int i = 0; i < ops; ++i) {
        unsigned k = vf_pick("op", (avg ? 1 : 2) + m.live());
        if (k == 0) {
            u64 n = vf_range("n", 1, maxN);
            if (avg)
                n = vf_concretize(n);
            int fail = up.failNext = avg ? 0 : (int)vf_pick("fail", 2);
            try {
                void *q = ir.allocate(n, 8);
                m.add(addr(q), n, 8, 0);
                total += n;
                now += n;
                ++cnt;
                if (now > most)
                    most = now;
                vf_cover("allocated");
            } catch (const std::bad_alloc &) {
                check(fail == 1, "fails-only-when-upstream-fails");
                vf_cover("failed");
            }
        } else if (!avg && k == 1) {
            check(empty_alloc(ir, 8) == 0, "empty-request");
            give0(ir);
        } else {
            int j = m.nth((int)k - (avg ? 1 : 2));
            m.b[j].live = false;
            ir.deallocate(ptr(m.b[j].p), m.b[j].n, m.b[j].a);
            now -= m.b[j].n;
            vf_cover("returned");
        }
        check(mon.total_allocation() == total, "total");
        check(mon.outstanding_allocation() == now, "outstanding");
        check(mon.maximal_allocation() == most, "maximal");
        if (avg && cnt)
            check(mon.average_allocation() == (2 * total + cnt) / (2 * cnt), "average");
    }
}
