// M01: histories of acquire / release / move / defragment on the workspace pool against a shadow map of owned memory.
#include "mon.h"
#include <deque>
#include <list>
#include <memory>
#include "anifem++/fem/fem_memory.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
using namespace Ani; using namespace mon;
struct Shadow { const char* b; const char* e; long id; };
struct LiveBase { long id; size_t d, i, m; virtual ~LiveBase() {} virtual void fill() = 0; virtual std::string bad() = 0; virtual void ranges(std::vector<Shadow>& v) = 0; virtual void moveOnce(Rng& r) = 0; virtual void drop(Rng& r) = 0; };
template<class S, class I> struct Live : LiveBase { typename DynMem<S, I>::MemPart p; PlainMemoryX<S, I> q;
    void take(Mon& mo, DynMem<S, I>& pool, size_t D, size_t N, size_t M, long ID) { id = ID; d = D; i = N; m = M; p = pool.alloc(D, N, M); q = p.getPlainMemoryX(); auto z = p.getPlainMemory();
        mo.check(q.dSize >= D && q.iSize >= N && q.mSize >= M, "size", "part %ld: asked %zu %zu %zu got %zu %zu %zu", ID, D, N, M, q.dSize, q.iSize, q.mSize); mo.check((!D || q.ddata) && (!N || q.idata) && (!M || q.mdata), "size", "part %ld: null memory", ID); mo.check(z.ddata == q.ddata && z.idata == q.idata && z.dSize == q.dSize && z.iSize == q.iSize, "size", "part %ld: the two views disagree", ID);
        mo.check(uintptr_t(q.ddata) % alignof(S) == 0 && uintptr_t(q.idata) % alignof(I) == 0 && uintptr_t(q.mdata) % alignof(DenseMatrix<S>) == 0, "align", "part %ld is misaligned", ID); }
    S sv(size_t k) const { return S((id*37 + long(k)) % 1000003); } I iv(size_t k) const { return I((id*17 + long(k)*3) % 30011); }
    void fill() override { for (size_t k = 0; k < d; ++k) q.ddata[k] = sv(k); for (size_t k = 0; k < i; ++k) q.idata[k] = iv(k); for (size_t k = 0; k < m; ++k) q.mdata[k].Init(q.ddata, size_t(id), k, k+1); }
    std::string bad() override { auto w = p.getPlainMemoryX(); if (w.ddata != q.ddata || w.idata != q.idata || w.mdata != q.mdata) return "the part points elsewhere"; for (size_t k = 0; k < d; ++k) if (!(q.ddata[k] == sv(k))) return fmt("real %zu of %zu is %g", k, d, double(q.ddata[k])); for (size_t k = 0; k < i; ++k) if (q.idata[k] != iv(k)) return fmt("integer %zu of %zu", k, i); for (size_t k = 0; k < m; ++k) if (q.mdata[k].nRow != size_t(id) || q.mdata[k].nCol != k || q.mdata[k].size != k+1) return fmt("block %zu of %zu", k, m); return ""; }
    void ranges(std::vector<Shadow>& v) override { if (d) v.push_back({(char*)q.ddata, (char*)(q.ddata+d), id}); if (i) v.push_back({(char*)q.idata, (char*)(q.idata+i), id}); if (m) v.push_back({(char*)q.mdata, (char*)(q.mdata+m), id}); }
    void moveOnce(Rng& r) override { int k = r.range(0, 3); if (k == 0) { typename DynMem<S, I>::MemPart t(std::move(p)); p = std::move(t); } else if (k == 1) { typename DynMem<S, I>::MemPart t; t = std::move(p); p.clear(); typename DynMem<S, I>::MemPart u(std::move(t)); p = std::move(u); t.clear(); } else if (k == 2) { auto& self = p; p = std::move(self); } else { std::vector<typename DynMem<S, I>::MemPart> v; v.push_back(std::move(p)); v.resize(5); v.reserve(50); p = std::move(v[0]); } }
    void drop(Rng& r) override { int k = r.range(0, 3); if (k == 0) p.clear(); else if (k == 1) p = typename DynMem<S, I>::MemPart(); else if (k == 2) { p.clear(); p.clear(); } else { typename DynMem<S, I>::MemPart t(std::move(p)); } } };
typedef std::unique_ptr<LiveBase> LP;
struct World { DynMem<> pool; DynMemT<float, int, double, int> af; DynMemT<float, short, double, int> as; DynMemT<double, int, double, int> same; std::vector<LP> live; long next = 1; size_t peak = 0, maxReq = 0, ops = 0; std::string hist;
    World() : af(makeAdaptor<float, int>(pool)), as(makeAdaptor<float, short>(pool)), same(makeAdaptor<double, int>(pool)) {}
    ~World() { live.clear(); }
    bool check(Mon& m) { std::vector<Shadow> v; for (auto& l : live) { std::string b = l->bad(); if (!m.check(b.empty(), "content", "live part %ld changed: %s; history %s", l->id, b.c_str(), tail().c_str())) return false; l->ranges(v); }
        std::sort(v.begin(), v.end(), [](const Shadow& a, const Shadow& b) { return a.b < b.b; }); for (size_t k = 1; k < v.size(); ++k) if (!m.check(v[k-1].e <= v[k].b, "overlap", "live parts %ld and %ld overlap; history %s", v[k-1].id, v[k].id, tail().c_str())) return false; m.obs("ownership maps checked"); return true; }
    std::string tail() const { return hist.size() > 400 ? "..." + hist.substr(hist.size()-400) : hist; }
    bool acquire(Mon& m, size_t d, size_t i, size_t k, int via) { LP l; long id = next++; hist += fmt(" +%ld(%zu,%zu,%zu)", id, d, i, k); m.desc("history %s", tail().c_str());
        if (via == 0) { auto* q = new Live<double, int>; l.reset(q); q->take(m, pool, d, i, k, id); } else if (via == 1) { auto* q = new Live<float, int>; l.reset(q); q->take(m, af, d, i, k, id); } else if (via == 2) { auto* q = new Live<float, short>; l.reset(q); q->take(m, as, d, i, k, id); } else { auto* q = new Live<double, int>; l.reset(q); q->take(m, same, d, i, k, id); }
        live.push_back(std::move(l)); std::vector<Shadow> v, n; live.back()->ranges(n); for (size_t a = 0; a+1 < live.size(); ++a) live[a]->ranges(v); for (auto& x : n) for (auto& y : v) if (!m.check(x.e <= y.b || y.e <= x.b, "overlap", "new part %ld overlaps live part %ld; history %s", x.id, y.id, tail().c_str())) return false;
        live.back()->fill(); peak = std::max(peak, live.size()); maxReq = std::max(maxReq, d*8 + i*4 + k*sizeof(DenseMatrix<>)); ++ops; return true; }
    bool release(Mon& m, Rng& r, size_t k) { hist += fmt(" -%ld", live[k]->id); m.desc("history %s", tail().c_str()); std::string b = live[k]->bad(); if (!m.check(b.empty(), "content", "part %ld changed before release: %s; history %s", live[k]->id, b.c_str(), tail().c_str())) return false; if (r.coin()) live[k]->drop(r); live.erase(live.begin()+long(k)); ++ops; return true; } };
static size_t rsz(Rng& r, int big) { return size_t(r.coin(1, 5) ? 0 : r.coin() ? r.range(1, 9) : r.range(1, big)); }
SECTION(history) { run_cases(m, m.cases(700, 20000), [&](long, Rng& r) { World w; int len = r.range(5, r.coin(1, 10) ? 400 : 60), big = r.coin() ? 40 : 600, lim = r.range(2, 12); bool adapt = r.coin(); m.key("history");
    for (int s = 0; s < len; ++s) { int k = r.range(0, 9); m.eval(); bool ok = true;
        if (k < 4 && int(w.live.size()) < lim) ok = w.acquire(m, rsz(r, big), rsz(r, big), rsz(r, big/5+1), adapt ? r.range(0, 3) : 0);
        else if (k < 8 && !w.live.empty()) { int h = r.range(0, 3); ok = w.release(m, r, h == 0 ? 0 : h == 1 ? w.live.size()-1 : size_t(r.range(0, int(w.live.size())-1))); }
        else if (k == 8 && !w.live.empty()) { size_t j = size_t(r.range(0, int(w.live.size())-1)); w.hist += fmt(" mv%ld", w.live[j]->id); w.live[j]->moveOnce(r); m.obs("moves"); }
        else { bool t = false; w.hist += " defrag"; m.desc("history %s", w.tail().c_str()); try { if (adapt && r.coin()) w.af.defragment(); else w.pool.defragment(); } catch (const std::exception&) { t = true; } bool any = false; for (auto& l : w.live) any |= l->d + l->i + l->m > 0; m.obs(t ? "refused defragmentations" : "defragmentations"); m.check(!t || !w.live.empty(), "defragment", "an idle pool was not defragmented; history %s", w.tail().c_str()); }
        if (!ok || ((s % 3 == 0 || len < 20) && !w.check(m))) return; }
    w.check(m); m.obs("operations in histories", long(w.ops)); m.distinct(fmt("h%d/%d/%d/%d", len/10, big, lim, adapt)); while (!w.live.empty()) if (!w.release(m, r, size_t(r.range(0, int(w.live.size())-1)))) return; }); }
// short histories over few parts, all orders of release
SECTION(orders) { run_cases(m, m.cases(1500, 30000), [&](long, Rng& r) { World w; int n = r.range(2, 5); m.key("orders"); m.eval(); std::string seq; w.acquire(m, 64, 64, 16, 0); w.live.clear(); w.hist += " warm"; // one chunk with room for several parts
    for (int s = 0; s < 16; ++s) { if (int(w.live.size()) < n && (w.live.empty() || r.coin())) { if (!w.acquire(m, size_t(r.range(1, 12)), size_t(r.range(1, 12)), size_t(r.range(1, 3)), 0)) return; seq += "+"; } else { size_t j = size_t(r.range(0, int(w.live.size())-1)); seq += char('0' + int(j)); if (!w.release(m, r, j)) return; } if (!w.check(m)) return; } m.distinct(seq); m.obs("operations in histories", 16); }); }
SECTION(growth) { // the same cycle again and again, in any order of release
    run_cases(m, m.cases(60, 1500), [&](long, Rng& r) { if (!__sanitizer_get_current_allocated_bytes) return; m.key("growth"); std::unique_ptr<DynMem<>> pool(new DynMem<>); int n = r.range(1, 6), kind = r.range(0, 3); bool base = r.coin(); std::vector<std::array<size_t, 3>> sz; for (int k = 0; k < n; ++k) sz.push_back({rsz(r, 300), rsz(r, 300), rsz(r, 40)}); std::vector<int> ord(n); for (int k = 0; k < n; ++k) ord[k] = kind == 0 ? k : n-1-k; if (kind > 1) r.shuffle(ord);
        m.desc("cycle of %d parts, release order kind %d, with a long-lived part %d", n, kind, base); m.distinct(fmt("growth%d/%d/%d", n, kind, base)); size_t req = 0; for (auto& s : sz) req += s[0]*8 + s[1]*4 + s[2]*sizeof(DenseMatrix<>); size_t at = 0, b0 = __sanitizer_get_current_allocated_bytes(); { DynMem<>::MemPart keep; if (base) keep = pool->alloc(3, 3, 1);
            for (int c = 0; c < 400; ++c) { m.eval(); { std::vector<DynMem<>::MemPart> v; v.reserve(n); for (auto& s : sz) v.push_back(pool->alloc(s[0], s[1], s[2])); if (kind == 3) r.shuffle(ord); for (int k : ord) v[k].clear(); } size_t now = __sanitizer_get_current_allocated_bytes() - b0; if (c == 40) at = now; if (c == 399) { m.maxi("bytes held by a pool after 400 cycles", double(now)); m.check(now <= 2*at + 4*size_t(n)*req + 4096, "growth", "the pool holds %zu bytes after 400 cycles of %zu bytes (%zu after 40)", now, req, at); } } } m.obs("cycles", 400); }); }
