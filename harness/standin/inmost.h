// Stand-in for the parts of the INMOST library that AniFem++ uses: an in-memory tetrahedral mesh with tags, sparse matrices and
// "processes" that are threads of one program (collective calls meet at a barrier). INMOST itself is not installed in the sandbox.
// Written from INMOST's documented interface; it contains no AniFem++ code. Deliberately hostile within the contract: local numbers may
// have holes, global numbers inside one process may be in any order, connectivity lists are in any order.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
typedef int INMOST_DATA_INTEGER_TYPE;
typedef double INMOST_DATA_REAL_TYPE;
typedef unsigned int INMOST_DATA_ENUM_TYPE;
typedef int INMOST_MPI_Comm;
#define INMOST_MPI_COMM_WORLD 0
#define INMOST_MPI_COMM_SELF 0
static const INMOST_DATA_ENUM_TYPE ENUMUNDEF = UINT_MAX;
inline double Timer(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
namespace INMOST {
typedef unsigned ElementType;
typedef uint32_t HandleType; typedef unsigned MarkerType; inline MarkerType InvalidMarker(){ return ~0u; }
enum : ElementType { NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8, ESET = 16, MESH = 32 };
enum DataType { DATA_REAL, DATA_INTEGER };
inline ElementType ElementTypeFromDim(int d){ return 1u << d; }
inline int ElementNum(ElementType t){ for (int i = 0; i < 6; ++i) if (t == (1u << i)) return i; throw std::runtime_error("stand-in: not one element type"); }
inline HandleType InvalidHandle(){ return 0; }
inline bool isValidHandle(HandleType h){ return h != 0; }
inline HandleType ComposeHandle(int num, int lid){ return (HandleType(num) << 28) + 1 + lid; }
inline int HandleNum(HandleType h){ return (h - 1) >> 28; }
inline int HandleID(HandleType h){ return int((h - 1) & ((1u << 28) - 1)); }
template<class T> struct Array {                         // view of tag data; variable-size data can be resized
    T* p = nullptr; std::size_t n = 0; std::vector<T>* v = nullptr;
    Array() = default; Array(T* p, std::size_t n): p(p), n(n) {} explicit Array(std::vector<T>* v): v(v) {}
    T* data() const { return v ? v->data() : p; }
    std::size_t size() const { return v ? v->size() : n; }
    T& operator[](std::size_t i) const { if (i >= size()) throw std::out_of_range("stand-in: tag data index"); return data()[i]; }
    T* begin() const { return data(); } T* end() const { return data() + size(); }
    T& back() const { return (*this)[size() - 1]; }
    void resize(std::size_t k, T c = T()){ if (!v) throw std::runtime_error("stand-in: resize of fixed-size data"); v->resize(k, c); }
    void push_back(T x){ if (!v) throw std::runtime_error("stand-in: push_back to fixed-size data"); v->push_back(x); }
};
class Mesh; class Element; class Node; class Edge; class Face; class Cell;
struct TagData { std::string name; DataType type; ElementType def, sparse; INMOST_DATA_ENUM_TYPE size; Mesh* mesh; int num; bool alive = true;
    struct Slot { bool have = false; std::vector<double> r; std::vector<int> i; };
    std::array<std::deque<Slot>, 6> s; };
class Tag { TagData* d = nullptr; friend class Mesh; public:
    Tag() = default; explicit Tag(TagData* d): d(d) {}
    bool isValid() const { return d != nullptr; }
    bool isDefined(ElementType t) const { return d->def & t; }
    bool isDefinedMask(ElementType m) const { return (d->def & m) == m; }
    bool isSparse(ElementType t) const { return d->sparse & t; }
    INMOST_DATA_ENUM_TYPE GetSize() const { return d->size; }
    DataType GetDataType() const { return d->type; }
    std::string GetTagName() const { return d->name; }
    Mesh* GetMeshLink() const { return d->mesh; }
    TagData* raw() const { return d; }
    bool operator==(const Tag& o) const { return d == o.d; } bool operator!=(const Tag& o) const { return d != o.d; } bool operator<(const Tag& o) const { return d < o.d; }
};
class Storage { protected: Mesh* m = nullptr; HandleType h = 0; public:
    typedef int integer; typedef double real; typedef INMOST_DATA_ENUM_TYPE enumerator; typedef Array<int> integer_array; typedef Array<double> real_array;
    Storage() = default; Storage(Mesh* m, HandleType h): m(m), h(h) {}
    Mesh* GetMeshLink() const { return m; } HandleType GetHandle() const { return h; }
    inline bool isValid() const; int LocalID() const { return HandleID(h); } int DataLocalID() const { return HandleID(h); }
    ElementType GetElementType() const { return 1u << HandleNum(h); } int GetElementNum() const { return HandleNum(h); }
    inline real_array RealArray(const Tag& t) const; inline integer_array IntegerArray(const Tag& t) const;
    real_array RealArrayDF(const Tag& t) const { return RealArray(t); } inline real_array RealArrayDV(const Tag& t) const; inline void SetMarker(unsigned) const; inline bool GetMarker(unsigned) const; inline void RemMarker(unsigned) const;
    real& Real(const Tag& t) const { return RealArray(t)[0]; } integer& Integer(const Tag& t) const { return IntegerArray(t)[0]; }
    inline bool HaveData(const Tag& t) const;
    bool operator==(const Storage& o) const { return h == o.h; } bool operator!=(const Storage& o) const { return h != o.h; } bool operator<(const Storage& o) const { return h < o.h; }
};
template<class T> class ElementArray { Mesh* m = nullptr; std::vector<HandleType> v; public:
    typedef std::size_t size_type;
    ElementArray() = default; explicit ElementArray(Mesh* m): m(m) {} ElementArray(Mesh* m, std::size_t n): m(m), v(n, 0) {}
    HandleType* data(){ return v.data(); } const HandleType* data() const { return v.data(); } std::size_t size() const { return v.size(); } bool empty() const { return v.empty(); }
    T operator[](std::size_t i) const { if (i >= v.size()) throw std::out_of_range("stand-in: ElementArray"); return T(m, v[i]); }
    HandleType& at(std::size_t i){ return v.at(i); } HandleType at(std::size_t i) const { return v.at(i); }
    void push_back(const Storage& e){ if (!m) m = e.GetMeshLink(); v.push_back(e.GetHandle()); } void push_back(HandleType h){ v.push_back(h); }
    void resize(std::size_t n){ v.resize(n, 0); } void clear(){ v.clear(); } void reserve(std::size_t n){ v.reserve(n); }
    Mesh* GetMeshLink() const { return m; } void SetMeshLink(Mesh* p){ m = p; }
    struct iterator { const ElementArray* a; std::size_t i; mutable T cur; struct ref: T { ref(const T& t): T(t) {} operator HandleType() const { return this->GetHandle(); } }; ref operator*() const { return ref((*a)[i]); } T* operator->() const { cur = (*a)[i]; return &cur; } iterator& operator++(){ ++i; return *this; } bool operator!=(const iterator& o) const { return i != o.i; } bool operator==(const iterator& o) const { return i == o.i; } };
    iterator begin() const { return {this, 0, T()}; } iterator end() const { return {this, v.size(), T()}; }
};
class Element: public Storage { public:
    typedef unsigned char Status; enum : Status { Owned = 1, Shared = 2, Ghost = 4, Any = 0 };
    typedef std::vector<HandleType> adj_type;
    Element() = default; Element(Mesh* m, HandleType h): Storage(m, h) {} Element(const Storage& s): Storage(s) {}
    inline Status GetStatus() const; inline bool Hidden() const { return false; } inline int GlobalID() const; int GetElementDimension() const { return GetElementNum(); }
    Element getAsElement() const { return *this; } inline Node getAsNode() const; inline Edge getAsEdge() const; inline Face getAsFace() const; inline Cell getAsCell() const;
    inline ElementArray<Node> getNodes() const; inline ElementArray<Edge> getEdges() const; inline ElementArray<Face> getFaces() const; inline ElementArray<Cell> getCells() const;
    Element* operator->() { return this; } const Element* operator->() const { return this; }
    Element& self() { return *this; }
};
class Node: public Element { public: using Element::Element; Node() = default; Node(const Storage& s): Element(s) {} inline real_array Coords() const; const Node& self() const { return *this; } };
class Edge: public Element { public: using Element::Element; Edge() = default; Edge(const Storage& s): Element(s) {} };
class Face: public Element { public: using Element::Element; Face() = default; Face(const Storage& s): Element(s) {} inline bool Boundary() const; inline Cell BackCell() const; inline Cell FrontCell() const; };
class Cell: public Element { public: using Element::Element; Cell() = default; Cell(const Storage& s): Element(s) {} inline double Volume() const; const Cell& self() const { return *this; } };
inline Node Element::getAsNode() const { return Node(m, h); } inline Edge Element::getAsEdge() const { return Edge(m, h); } inline Face Element::getAsFace() const { return Face(m, h); } inline Cell Element::getAsCell() const { return Cell(m, h); }
struct World {                                              // the processes of one parallel run
    int n; std::vector<Mesh*> mesh; std::mutex mx; std::condition_variable cv; int waiting = 0; unsigned long gen = 0; bool broken = false; unsigned long collectives = 0; std::vector<std::pair<void*, void*>> slot;
    explicit World(int n): n(n), mesh(n, nullptr), slot(n) {}
    void fail(){ std::lock_guard<std::mutex> g(mx); broken = true; cv.notify_all(); }
    void barrier(){ if (n == 1) return; std::unique_lock<std::mutex> g(mx); if (broken) throw std::runtime_error("stand-in: another process failed");
        auto my = gen; if (++waiting == n){ waiting = 0; ++gen; ++collectives; cv.notify_all(); return; }
        if (!cv.wait_for(g, std::chrono::seconds(60), [&]{ return gen != my || broken; })) { broken = true; cv.notify_all(); throw std::runtime_error("stand-in: collective call not entered by every process"); }
        if (gen == my) throw std::runtime_error("stand-in: another process failed"); }
};
struct Here { World* w = nullptr; int rank = 0; static Here& get(){ static thread_local Here h; return h; } };   // the process this thread plays: a mesh created by the library belongs to it
class Mesh { public:
    struct El { bool alive = true; bool bnd = false; unsigned marks = 0; long key = -1; int owner = 0; bool shared = false; int gid = -1; std::vector<HandleType> low, high; double x[3] = {0, 0, 0}; };
    std::array<std::vector<El>, 4> e; std::array<bool, 4> haveg{{false, false, false, false}}; std::array<long, 4> total{{0, 0, 0, 0}};
    std::array<std::map<long, int>, 4> byKey; World* w; int rank;
    std::array<std::function<void(std::vector<int>&)>, 4> gidOrder;  // how a process orders its own elements when it numbers them
    std::map<std::string, TagData*> tags; std::vector<std::unique_ptr<TagData>> all; TagData* gidTag[4] = {0, 0, 0, 0}; TagData::Slot meshSlot;
    unsigned long exchanged = 0;
    unsigned markers = 0; Mesh(): w(Here::get().w), rank(Here::get().rank) {} Mesh(const Mesh&) = delete; virtual ~Mesh() = default;
    static void Initialize(int*, char***){} static void Finalize(){} void ResolveShared(bool = false){}
    void SetCommunicator(INMOST_MPI_Comm){} int GetProcessorRank() const { return rank; } unsigned GetProcessorsNumber() const { return w ? w->n : 1; }
    HandleType GetHandle() const { return ComposeHandle(5, 0); }
    El& el(HandleType h){ return e[HandleNum(h)].at(HandleID(h)); } const El& el(HandleType h) const { return e[HandleNum(h)].at(HandleID(h)); }
    bool valid(HandleType h) const { if (!h) return false; int n = HandleNum(h); if (n == 5) return true; return n < 4 && HandleID(h) < int(e[n].size()) && e[n][HandleID(h)].alive; }
    int LastLocalID(ElementType t) const { return int(e[ElementNum(t)].size()); }
    int NextLocalID(ElementType t, int l) const { int n = ElementNum(t), L = LastLocalID(t); ++l; while (l < L && !e[n][l].alive) ++l; return l; }
    int FirstLocalID(ElementType t) const { return NextLocalID(t, -1); }
    int CellLastLocalID() const { return LastLocalID(CELL); } int FaceLastLocalID() const { return LastLocalID(FACE); } int EdgeLastLocalID() const { return LastLocalID(EDGE); } int NodeLastLocalID() const { return LastLocalID(NODE); }
    Element ElementByLocalID(ElementType t, int l){ return Element(this, ComposeHandle(ElementNum(t), l)); }
    Cell CellByLocalID(int l){ return Cell(this, ComposeHandle(3, l)); }
    Node NodeByLocalID(int l){ return Node(this, ComposeHandle(0, l)); } Face FaceByLocalID(int l){ return Face(this, ComposeHandle(2, l)); }
    long NumberOf(ElementType t) const { long r = 0; for (int d = 0; d < 4; ++d) if (t & (1u << d)) for (auto& x: e[d]) r += x.alive; return r; }
    long NumberOfCells() const { return NumberOf(CELL); } long NumberOfNodes() const { return NumberOf(NODE); }
    long TotalNumberOf(ElementType t) const { long r = 0; for (int d = 0; d < 4; ++d) if (t & (1u << d)) r += total[d]; return r; }
    const std::vector<HandleType>& LowConn(HandleType h) const { return el(h).low; } const std::vector<HandleType>& HighConn(HandleType h) const { return el(h).high; }
    bool HaveGlobalID(ElementType t) const { for (int d = 0; d < 4; ++d) if ((t & (1u << d)) && !haveg[d]) return false; return true; }
    void AssignGlobalID(ElementType t){ if (w) w->barrier();
        for (int d = 0; d < 4; ++d) if (t & (1u << d)){
            if (rank == 0 || !w){ int at = 0; std::map<long, int> g; int n = w ? w->n : 1;
                for (int r = 0; r < n; ++r){ Mesh* q = w ? w->mesh[r] : this; std::vector<int> own; for (int l = 0; l < int(q->e[d].size()); ++l) if (q->e[d][l].alive && q->e[d][l].owner == r) own.push_back(l);
                    if (q->gidOrder[d]) q->gidOrder[d](own); for (int l: own) g[q->e[d][l].key] = at++; }
                for (int r = 0; r < n; ++r){ Mesh* q = w ? w->mesh[r] : this; for (auto& x: q->e[d]) if (x.alive) x.gid = g.at(x.key); } }
            haveg[d] = true; }
        if (w) w->barrier(); syncGidTag(); }
    void syncGidTag(){ for (int d = 0; d < 4; ++d) if (gidTag[d]) for (std::size_t l = 0; l < e[d].size(); ++l) gidTag[d]->s[d][l].i[0] = e[d][l].gid; }
    Tag GlobalIDTag(){ Tag t = HaveTag("GLOBAL_ID") ? GetTag("GLOBAL_ID") : CreateTag("GLOBAL_ID", DATA_INTEGER, NODE | EDGE | FACE | CELL, NONE, 1); for (int d = 0; d < 4; ++d) gidTag[d] = t.raw(); syncGidTag(); return t; }
    bool HaveTag(const std::string& n) const { return tags.count(n) > 0; } Tag GetTag(const std::string& n) const { return Tag(tags.at(n)); }
    Tag CreateTag(const std::string& n, DataType dt, ElementType def, ElementType sparse, INMOST_DATA_ENUM_TYPE size = ENUMUNDEF){
        if (tags.count(n)){ TagData* d = tags[n]; if (d->type != dt || (size != ENUMUNDEF && d->size != size)) throw std::runtime_error("stand-in: tag " + n + " exists with another type or size");
            for (int k = 0; k < 4; ++k) if ((def & ~d->def) & (1u << k)) { d->s[k].resize(e[k].size()); if (!(sparse & (1u << k))) for (auto& s: d->s[k]) init(d, s); } d->sparse |= sparse & def & ~d->def; d->def |= def; return Tag(d); }
        all.emplace_back(new TagData()); TagData* d = all.back().get(); d->name = n; d->type = dt; d->def = def; d->sparse = sparse; d->size = size; d->mesh = this; d->num = int(all.size()); tags[n] = d;
        for (int k = 0; k < 4; ++k) if (def & (1u << k)) { d->s[k].resize(e[k].size()); if (!(sparse & (1u << k))) for (auto& s: d->s[k]) init(d, s); }
        if (def & MESH){ d->s[5].resize(1); init(d, d->s[5][0]); }
        return Tag(d); }
    static void init(TagData* d, TagData::Slot& s){ s.have = true; if (d->size != ENUMUNDEF){ if (d->type == DATA_REAL) s.r.assign(d->size, 0.); else s.i.assign(d->size, 0); } }
    Tag DeleteTag(Tag t, ElementType = NONE){ tags.erase(t.raw()->name); t.raw()->alive = false; return Tag(); }
    TagData::Slot& slot(HandleType h, const Tag& t){ TagData* d = t.raw(); if (!d) throw std::runtime_error("stand-in: invalid tag"); if (!d->alive) throw std::runtime_error("stand-in: deleted tag is used"); if (d->mesh != this) throw std::runtime_error("stand-in: tag of another mesh");
        if (!valid(h)) throw std::runtime_error("stand-in: data of an invalid element"); int n = HandleNum(h); if (!(d->def & (1u << n))) throw std::runtime_error("stand-in: tag is not defined on this element type"); auto& s = d->s[n].at(HandleID(h)); if (!s.have) init(d, s); return s; }
    Array<double> RealArray(HandleType h, const Tag& t){ auto& s = slot(h, t); if (t.raw()->type != DATA_REAL) throw std::runtime_error("stand-in: not a real tag"); return t.raw()->size == ENUMUNDEF ? Array<double>(&s.r) : Array<double>(s.r.data(), s.r.size()); }
    Array<int> IntegerArray(HandleType h, const Tag& t){ auto& s = slot(h, t); if (t.raw()->type != DATA_INTEGER) throw std::runtime_error("stand-in: not an integer tag"); return t.raw()->size == ENUMUNDEF ? Array<int>(&s.i) : Array<int>(s.i.data(), s.i.size()); }
    bool HaveData(HandleType h, const Tag& t) const { TagData* d = t.raw(); int n = HandleNum(h); return d && (d->def & (1u << n)) && HandleID(h) < int(d->s[n].size()) && d->s[n][HandleID(h)].have; }
    void ExchangeData(const Tag& t, ElementType m, int = 0){ ExchangeData(std::vector<Tag>{t}, m); }
    void ExchangeData(const std::vector<Tag>& ts, ElementType m, int = 0){ if (!w || w->n == 1) return; w->barrier();
        for (auto& t: ts) for (int d = 0; d < 4; ++d) if ((m & (1u << d)) && (t.raw()->def & (1u << d))) for (std::size_t l = 0; l < e[d].size(); ++l) if (e[d][l].alive && e[d][l].owner != rank){
            Mesh* q = w->mesh[e[d][l].owner]; TagData* f = q->all.at(t.raw()->num - 1).get(); auto& s = f->s[d].at(q->byKey[d].at(e[d][l].key)); auto& to = t.raw()->s[d][l]; to.have = s.have; to.r = s.r; to.i = s.i; ++exchanged; }
        w->barrier(); }
    void Integrate(double* p, int n){ if (!w || w->n == 1) return; static std::mutex mx; auto& a = acc; { std::lock_guard<std::mutex> g(mx); a.assign(p, p + n); } w->barrier(); std::vector<double> s(n, 0.); for (Mesh* q: w->mesh) for (int i = 0; i < n; ++i) s[i] += q->acc[i]; w->barrier(); std::copy(s.begin(), s.end(), p); }
    std::vector<double> acc;
    MarkerType CreateMarker(){ for (unsigned k = 0; k < 32; ++k) if (!(markers & (1u << k))) { markers |= 1u << k; return 1u << k; } return InvalidMarker(); }
    void ReleaseMarker(MarkerType k, ElementType = NONE){ if (!(markers & k)) throw std::runtime_error("stand-in: released marker was not created"); for (int d = 0; d < 4; ++d) for (auto& x: e[d]) if (x.alive && (x.marks & k)) throw std::runtime_error("stand-in: marker is released while elements carry it"); markers &= ~k; }
    void MarkBoundaryFaces(MarkerType k){ if (!(markers & k)) throw std::runtime_error("stand-in: marker was not created"); if (w) w->barrier(); for (auto& x: e[2]) if (x.alive && x.bnd) x.marks |= k; }
    template<class T> struct base_iterator { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef T* pointer; typedef T& reference; typedef int difference_type;
        Mesh* m = nullptr; ElementType mask = 0; int d = 4, l = -1; mutable T cur;
        void settle(){ while (d < 4){ if (mask & (1u << d)){ ++l; while (l < int(m->e[d].size()) && !m->e[d][l].alive) ++l; if (l < int(m->e[d].size())) return; } l = -1; ++d; } }
        T& operator*() const { return cur = T(m, ComposeHandle(d, l)); } T* operator->() const { cur = T(m, ComposeHandle(d, l)); return &cur; }
        base_iterator& operator++(){ settle(); return *this; } base_iterator operator++(int){ auto r = *this; settle(); return r; }
        bool operator==(const base_iterator& o) const { return d == o.d && l == o.l; } bool operator!=(const base_iterator& o) const { return !(*this == o); } };
    typedef base_iterator<Element> iteratorElement; typedef base_iterator<Cell> iteratorCell; typedef base_iterator<Node> iteratorNode; typedef base_iterator<Face> iteratorFace; typedef base_iterator<Edge> iteratorEdge;
    template<class T> base_iterator<T> beg(ElementType t){ base_iterator<T> i; i.m = this; i.mask = t; i.d = 0; i.l = -1; i.settle(); return i; }
    template<class T> base_iterator<T> fin(){ base_iterator<T> i; i.m = this; return i; }
    iteratorElement BeginElement(ElementType t){ return beg<Element>(t); } iteratorElement EndElement(){ return fin<Element>(); }
    iteratorCell BeginCell(){ return beg<Cell>(CELL); } iteratorCell EndCell(){ return fin<Cell>(); } iteratorNode BeginNode(){ return beg<Node>(NODE); } iteratorNode EndNode(){ return fin<Node>(); }
    iteratorFace BeginFace(){ return beg<Face>(FACE); } iteratorFace EndFace(){ return fin<Face>(); } iteratorEdge BeginEdge(){ return beg<Edge>(EDGE); } iteratorEdge EndEdge(){ return fin<Edge>(); }
    // construction
    std::map<std::vector<HandleType>, HandleType> look;
    HandleType add(int d){ e[d].emplace_back(); auto& x = e[d].back(); x.key = long(e[d].size()) - 1; byKey[d][x.key] = int(e[d].size()) - 1; ++total[d]; for (auto& t: all) if (t->alive && (t->def & (1u << d))){ t->s[d].emplace_back(); if (!(t->sparse & (1u << d))) init(t.get(), t->s[d].back()); } return ComposeHandle(d, int(e[d].size()) - 1); }
    Node CreateNode(const double* x){ auto h = add(0); std::copy(x, x + 3, el(h).x); return Node(this, h); }
    HandleType lower(int d, std::vector<HandleType> nodes, std::vector<HandleType> low){ auto k = nodes; std::sort(k.begin(), k.end()); auto it = look.find(k); if (it != look.end()) return it->second; auto h = add(d); el(h).low = low; look[k] = h; return h; }
    HandleType edge(HandleType a, HandleType b){ return lower(1, {a, b}, {a, b}); }
    std::pair<Cell, bool> CreateCell(const ElementArray<Node>& v, const int* fn, const int* num, int nf){ std::vector<HandleType> faces, nodes;
        for (int f = 0, at = 0; f < nf; at += num[f++]){ std::vector<HandleType> p; for (int i = 0; i < num[f]; ++i) p.push_back(v.at(fn[at + i])); std::vector<HandleType> es; for (int i = 0; i < num[f]; ++i) es.push_back(edge(p[i], p[(i + 1) % num[f]]));
            faces.push_back(lower(2, p, es)); for (auto h: p) if (std::find(nodes.begin(), nodes.end(), h) == nodes.end()) nodes.push_back(h); }
        auto k = nodes; std::sort(k.begin(), k.end()); auto it = look.find(k); if (it != look.end()) return {Cell(this, it->second), false};
        auto h = add(3); el(h).low = faces; el(h).high = nodes; look[k] = h; return {Cell(this, h), true}; }
};
inline bool Storage::isValid() const { return m && m->valid(h); }
inline Storage::real_array Storage::RealArray(const Tag& t) const { return m->RealArray(h, t); } inline Storage::integer_array Storage::IntegerArray(const Tag& t) const { return m->IntegerArray(h, t); }
inline bool Storage::HaveData(const Tag& t) const { return m->HaveData(h, t); }
inline Storage::real_array Storage::RealArrayDV(const Tag& t) const { if (t.GetSize() != ENUMUNDEF) throw std::runtime_error("stand-in: fixed-size data through RealArrayDV"); return m->RealArray(h, t); }
inline void Storage::SetMarker(unsigned k) const { m->el(h).marks |= k; } inline bool Storage::GetMarker(unsigned k) const { if (!(m->markers & k)) throw std::runtime_error("stand-in: marker was not created"); return m->el(h).marks & k; } inline void Storage::RemMarker(unsigned k) const { m->el(h).marks &= ~k; }
inline Element::Status Element::GetStatus() const { auto& x = m->el(h); return x.owner != m->rank ? Status(Ghost) : x.shared ? Status(Shared) : Status(Owned); }
inline int Element::GlobalID() const { int d = HandleNum(h); if (!m->haveg[d]) throw std::runtime_error("stand-in: global numbers were not assigned"); return m->el(h).gid; }
inline Storage::real_array Node::Coords() const { return real_array(m->el(h).x, 3); }
inline ElementArray<Node> Element::getNodes() const { ElementArray<Node> r(m); int d = HandleNum(h); if (d == 0) r.push_back(h); else if (d == 1) for (auto n: m->el(h).low) r.push_back(n); else if (d == 3) for (auto n: m->el(h).high) r.push_back(n);
    else { std::vector<HandleType> v; for (auto eh: m->el(h).low) for (auto n: m->el(eh).low) if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n); for (auto n: v) r.push_back(n); } return r; }
inline ElementArray<Edge> Element::getEdges() const { ElementArray<Edge> r(m); int d = HandleNum(h); if (d == 1) r.push_back(h); else if (d == 2) for (auto n: m->el(h).low) r.push_back(n);
    else if (d == 3){ std::vector<HandleType> v; for (auto f: m->el(h).low) for (auto n: m->el(f).low) if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n); for (auto n: v) r.push_back(n); } return r; }
inline ElementArray<Face> Element::getFaces() const { ElementArray<Face> r(m); int d = HandleNum(h); if (d == 2) r.push_back(h); else if (d == 3) for (auto n: m->el(h).low) r.push_back(n); return r; }
inline ElementArray<Cell> Element::getCells() const { ElementArray<Cell> r(m); int d = HandleNum(h); for (int l = 0; l < int(m->e[3].size()); ++l) if (m->e[3][l].alive){ Cell c(m, ComposeHandle(3, l)); bool in = false;
    if (d == 3) in = c.GetHandle() == h; else if (d == 2) in = std::count(m->e[3][l].low.begin(), m->e[3][l].low.end(), h); else if (d == 0) in = std::count(m->e[3][l].high.begin(), m->e[3][l].high.end(), h); else for (auto f: m->e[3][l].low) in = in || std::count(m->el(f).low.begin(), m->el(f).low.end(), h);
    if (in) r.push_back(c); } return r; }
inline bool Face::Boundary() const { return getCells().size() == 1; }
inline Cell Face::BackCell() const { auto c = getCells(); return c.size() > 0 ? c[0] : Cell(); } inline Cell Face::FrontCell() const { auto c = getCells(); return c.size() > 1 ? c[1] : Cell(); }
inline double Cell::Volume() const { auto n = getNodes(); double a[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) a[i][k] = n[i + 1].Coords()[k] - n[0].Coords()[k];
    return std::fabs(a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / 6; }
namespace Sparse {
typedef INMOST_DATA_ENUM_TYPE En;
class Row { public: struct entry { En first = 0; double second = 0; bool operator<(const entry& o) const { return first < o.first || (first == o.first && second < o.second); } };
    typedef std::vector<entry>::iterator iterator; std::vector<entry> d;
    double& operator[](En i){ for (auto& x: d) if (x.first == i) return x.second; d.push_back({i, 0.}); return d.back().second; }
    double get_safe(En i) const { for (auto& x: d) if (x.first == i) return x.second; return 0; }
    En Size() const { return En(d.size()); } void Resize(En n){ d.resize(n); } void Clear(){ d.clear(); } bool Empty() const { return d.empty(); }
    En& GetIndex(En k){ return d.at(k).first; } double& GetValue(En k){ return d.at(k).second; } En GetIndex(En k) const { return d.at(k).first; } double GetValue(En k) const { return d.at(k).second; }
    void Push(En i, double v){ d.push_back({i, v}); } void Swap(Row& o){ d.swap(o.d); } iterator Begin(){ return d.begin(); } iterator End(){ return d.end(); } };
template<class T> struct Interval { En b = 0; std::vector<T> d; std::string name;
    void SetInterval(En s, En f){ if (s > f) throw std::runtime_error("stand-in: bad interval"); b = s; d.resize(f - s); }
    T& operator[](En i){ if (i < b || i - b >= d.size()) throw std::out_of_range("stand-in: index outside the local interval"); return d[i - b]; } const T& operator[](En i) const { return const_cast<Interval*>(this)->operator[](i); }
    En GetFirstIndex() const { return b; } En GetLastIndex() const { return b + En(d.size()); } En Size() const { return En(d.size()); } void Clear(){ d.clear(); b = 0; } };
class Vector: public Interval<double> { public: Vector(std::string n = ""){ name = n; } };
class Matrix: public Interval<Row> { public: Matrix(std::string n = ""){ name = n; } };
class LockService { En b = 0; std::unique_ptr<std::mutex[]> m; En n = 0; public: void SetInterval(En s, En f){ b = s; n = f - s; m.reset(new std::mutex[n]); } void Lock(En i){ if (i < b || i - b >= n) throw std::out_of_range("stand-in: lock"); m[i - b].lock(); } void UnLock(En i){ m[i - b].unlock(); } };
}
class Solver { Sparse::Matrix* A = nullptr; public: typedef std::string Type; static constexpr const char* INNER_ILU2 = "inner_ilu2"; static constexpr const char* INNER_MPTILUC = "inner_mptiluc"; static constexpr const char* INNER_MPTILU2 = "inner_mptilu2"; bool ok = false; double res = 0; int its = 1;
    static int& iterations(){ static thread_local int n = 1; return n; } static long& solved(){ static thread_local long n = 0; return n; } static bool& keepGoing(){ static thread_local bool b = false; return b; }
    Solver(std::string = "", std::string = ""){} static void Initialize(int*, char***, const char* = ""){} static void Finalize(){}
    void SetParameterReal(std::string, double){} void SetParameter(std::string, std::string){} void SetMatrix(Sparse::Matrix& a){ A = &a; } void Clear(){ A = nullptr; }
    // dense elimination of the rows of all processes; every process solves the same system and keeps its own unknowns
    bool Solve(Sparse::Vector& f, Sparse::Vector& x){ World* w = Here::get().w; int rank = Here::get().rank; if (!A) throw std::runtime_error("stand-in: no matrix"); if (f.GetFirstIndex() != A->GetFirstIndex() || f.GetLastIndex() != A->GetLastIndex()) throw std::runtime_error("stand-in: intervals of matrix and right-hand side differ");
        std::vector<std::pair<Sparse::Matrix*, Sparse::Vector*>> part; if (w && w->n > 1){ w->barrier(); w->slot[rank] = {A, &f}; w->barrier(); for (auto& q: w->slot) part.push_back({static_cast<Sparse::Matrix*>(q.first), static_cast<Sparse::Vector*>(q.second)}); } else part.push_back({A, &f});
        int n = 0; for (auto& q: part) n = std::max(n, int(q.first->GetLastIndex())); std::vector<long double> M(std::size_t(n) * (n + 1), 0); std::vector<char> have(n, 0);
        for (auto& q: part) for (En g = q.first->GetFirstIndex(); g < q.first->GetLastIndex(); ++g){ if (have[g]++) throw std::runtime_error("stand-in: a row belongs to two processes"); for (auto& en: (*q.first)[g].d){ if (en.first >= En(n)) throw std::runtime_error("stand-in: column outside the matrix"); M[std::size_t(g) * (n + 1) + en.first] += en.second; } M[std::size_t(g) * (n + 1) + n] = (*q.second)[g]; }
        for (char c: have) if (!c) throw std::runtime_error("stand-in: a row is missing");
        if (w && w->n > 1) w->barrier(); x.SetInterval(A->GetFirstIndex(), A->GetLastIndex()); ok = true; its = iterations(); res = 0.125; ++solved();
        long double big = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) big = std::max(big, std::fabs(M[std::size_t(i) * (n + 1) + j]));
        for (int c = 0; c < n; ++c){ int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(M[std::size_t(i) * (n + 1) + c]) > std::fabs(M[std::size_t(p) * (n + 1) + c])) p = i; if (!(std::fabs(M[std::size_t(p) * (n + 1) + c]) > 1e-15L * big)){ ok = false; throw std::runtime_error("stand-in: the system is singular"); }
            if (p != c) for (int j = c; j <= n; ++j) std::swap(M[std::size_t(p) * (n + 1) + j], M[std::size_t(c) * (n + 1) + j]);
            for (int i = c + 1; i < n; ++i){ long double k = M[std::size_t(i) * (n + 1) + c] / M[std::size_t(c) * (n + 1) + c]; if (k != 0) for (int j = c; j <= n; ++j) M[std::size_t(i) * (n + 1) + j] -= k * M[std::size_t(c) * (n + 1) + j]; } }
        std::vector<long double> y(n); for (int i = n; i--;){ long double s = M[std::size_t(i) * (n + 1) + n]; for (int j = i + 1; j < n; ++j) s -= M[std::size_t(i) * (n + 1) + j] * y[j]; y[i] = s / M[std::size_t(i) * (n + 1) + i]; }
        for (En g = x.GetFirstIndex(); g < x.GetLastIndex(); ++g) x[g] = double(y[g]); return true; }
    typedef Sparse::En En;
    bool IsSolved() const { return ok; } int Iterations() const { return its; } double Residual() const { return res; } std::string ReturnReason() const { return ok ? "solved" : "failed"; } std::string GetReason() const { return ReturnReason(); } double IterationsTime() const { return 0; } double PreconditionerTime() const { return 0; } };
}
