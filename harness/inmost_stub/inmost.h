// A stand-in for the part of INMOST that anifem++/inmost_interface/ordering.h uses: a mesh of simplexes kept in memory.
#ifndef VP_INMOST_STUB
#define VP_INMOST_STUB
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <stdexcept>
#include <utility>
#include <vector>
namespace INMOST {
typedef unsigned char ElementType;
typedef unsigned HandleType;
static const ElementType NONE = 0, NODE = 1, EDGE = 2, FACE = 4, CELL = 8;
inline ElementType ElementTypeFromDim(int d) { return (ElementType)(1 << d); }
inline int ElementNum(ElementType t) { for (int d = 0; d < 4; ++d) if (t == (1 << d)) return d; std::abort(); }
class Mesh;
class Tag {
public:
    Mesh* m = nullptr; int id = -1;
    Mesh* GetMeshLink() const { return m; }
    bool isValid() const { return id >= 0; }
    bool operator==(const Tag& o) const { return m == o.m && id == o.id; }
    bool operator!=(const Tag& o) const { return !(*this == o); }
};
struct Storage {
    typedef double real;
    struct real_array {
        std::vector<double>* v;
        size_t size() const { return v->size(); }
        double* data() const { return v->data(); }
        double* begin() const { return v->data(); }
        double* end() const { return v->data() + v->size(); }
        bool empty() const { return v->empty(); }
        double& at(size_t i) const { return (*this)[i]; }
        double& operator[](size_t i) const { if (i >= v->size()) std::abort(); return (*v)[i]; }
    };
};
struct Row { ElementType t; std::vector<HandleType> low, high; std::vector<double> xyz; std::map<int, std::vector<double>> real; std::map<int, long> integer; };
class Node;
template <class T> class ElementArray {
    Mesh* m; std::vector<HandleType> h;
public:
    ElementArray(Mesh* m = nullptr, size_t n = 0) : m(m), h(n, 0) {}
    size_t size() const { return h.size(); }
    HandleType* data() { return h.data(); }
    const HandleType* data() const { return h.data(); }
    Mesh* GetMeshLink() const { return m; }
    T operator[](size_t i) const { if (i >= h.size()) std::abort(); return T(m, h[i]); }
    T at(size_t i) const { return (*this)[i]; }
    bool empty() const { return h.empty(); }
    void resize(size_t n) { h.resize(n, 0); }
    void push_back(const T& e) { h.push_back(e.GetHandle()); }
    void push_back(HandleType e) { h.push_back(e); }
    struct iterator {
        const ElementArray* a; size_t i;
        T operator*() const { return (*a)[i]; }
        iterator& operator++() { ++i; return *this; }
        bool operator!=(const iterator& o) const { return i != o.i; }
        bool operator==(const iterator& o) const { return i == o.i; }
    };
    iterator begin() const { return iterator{this, 0}; }
    iterator end() const { return iterator{this, h.size()}; }
};
class Element {
protected:
    Mesh* m = nullptr; HandleType h = 0;
public:
    Element() {}
    Element(Mesh* m, HandleType h) : m(m), h(h) {}
    Row& row() const;
    Mesh* GetMeshLink() const { return m; }
    HandleType GetHandle() const { return h; }
    ElementType GetElementType() const { return row().t; }
    bool isValid() const { return m && h; }
    bool operator==(const Element& o) const { return m == o.m && h == o.h; }
    bool operator!=(const Element& o) const { return !(*this == o); }
    bool operator<(const Element& o) const { return h < o.h; }
    int GetElementNum() const { return ElementNum(row().t); }
    int GetElementDimension() const { return ElementNum(row().t); }
    bool HaveData(const Tag& t) const { return row().real.count(t.id); }
    Storage::real_array RealArray(const Tag& t) const { auto i = row().real.find(t.id); if (i == row().real.end()) std::abort(); return Storage::real_array{&i->second}; }
    long& Integer(const Tag& t) const { return row().integer[t.id]; }
    ElementArray<Node> getNodes() const;
    Element getAsElement() const { return *this; }
};
class Node : public Element { public: Node() {} Node(Mesh* m, HandleType h) : Element(m, h) {} Storage::real_array Coords() const { return Storage::real_array{&row().xyz}; } };
class Edge : public Element { public: Edge() {} Edge(Mesh* m, HandleType h) : Element(m, h) {} };
class Face : public Element { public: Face() {} Face(Mesh* m, HandleType h) : Element(m, h) {} };
class Cell : public Element { public: Cell() {} Cell(Mesh* m, HandleType h) : Element(m, h) {} };
class Mesh {
public:
    std::vector<Row> rows = std::vector<Row>(1);
    Tag global;
    std::vector<HandleType> const& HighConn(HandleType h) const { return at(h).high; }
    std::vector<HandleType> const& LowConn(HandleType h) const { return at(h).low; }
    const Row& at(HandleType h) const { if (!h || h >= rows.size()) std::abort(); return rows[h]; }
    Tag GlobalIDTag() const { return global; }
    struct iterator {
        Mesh* m; HandleType h; ElementType mask; Element e;
        void skip() { while (h < m->rows.size() && !(m->rows[h].t & mask)) ++h; e = Element(m, h); }
        iterator& operator++() { ++h; skip(); return *this; }
        iterator operator++(int) { iterator o = *this; ++*this; return o; }
        bool operator!=(const iterator& o) const { return h != o.h; }
        bool operator==(const iterator& o) const { return h == o.h; }
        Element* operator->() { return &e; }
        Element& operator*() { return e; }
    };
    iterator BeginElement(ElementType mask) { iterator i{this, 1, mask, Element()}; i.skip(); return i; }
    iterator EndElement() { return iterator{this, (HandleType)rows.size(), 0, Element()}; }
};
inline Row& Element::row() const { if (!m) std::abort(); m->at(h); return m->rows[h]; }
inline ElementArray<Node> Element::getNodes() const {
    std::vector<HandleType> n;
    Row& r = row();
    if (r.t == NODE) n.push_back(h);
    else if (r.t == CELL) n = r.high;
    else if (r.t == EDGE) n = r.low;
    else for (auto e : r.low) for (auto v : m->at(e).low) if (std::find(n.begin(), n.end(), v) == n.end()) n.push_back(v);
    ElementArray<Node> a(m, n.size()); std::copy(n.begin(), n.end(), a.data()); return a;
}
}
#endif
