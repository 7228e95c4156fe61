// Model of the Python-backed dictionary: what was stored under a key is what is read back under it.
#ifndef __Feynman_Simulator__serialization__
#define __Feynman_Simulator__serialization__
#include <string>
#include <vector>
#include <cstdlib>
#include <new>
#include "utility/convention.h"
#include "utility/utility.h"
#include "utility/abort.h"
#include "utility/complex.h"
#include "utility/momentum.h"
#include "utility/vector.h"
#include "utility/rng.h"
#define SET(para, value) (para[#value] = (value))
#define GET(para, value) para.Get((#value), (value))
#define GET_WITH_DEFAULT(para, value, default) do { if (para.HasKey(#value)) para.Get((#value), (value)); else value = default; } while (0)
class Dictionary;
namespace Shim {
template <typename T> struct Tag { static char id; };
template <typename T> char Tag<T>::id = 0;
struct Key {
    char s[24];
    void set(const char *c) { int i = 0; for (; i < 23 && c[i]; i++) s[i] = c[i]; s[i] = 0; }
    Key() { s[0] = 0; }
    Key(const char *c) { set(c); }
#if defined(SYM_NATIVE) || defined(REAL_STRINGS)
    Key(const std::string &c) { set(c.c_str()); }
#else
    Key(const std::string &) { set("$string"); }   // string contents are not modelled: one such key per dictionary
#endif
    bool is(const Key &k) const { int i = 0; for (; s[i] && s[i] == k.s[i]; i++); return s[i] == k.s[i]; }
};
template <typename T> T *make(const T &v) { return new (malloc(sizeof(T))) T(v); }
}
namespace Python {
class ArrayObject {   // saving copies the data, as writing the file does
    void *p; const void *tag; uint n, sh[10], dim;
    template <typename T> void build(const T *d, const uint *shape, int dm)
    {
        dim = dm; n = 1; for (uint i = 0; i < dim; i++) { sh[i] = shape[i]; n *= shape[i]; }
        T *q = (T *)malloc(sizeof(T) * (n ? n : 1)); for (uint i = 0; i < n; i++) q[i] = d[i];
        p = q; tag = &Shim::Tag<T>::id;
    }
public:
    ArrayObject() : p(nullptr), tag(nullptr), n(0), dim(0) {}
    template <typename T> ArrayObject(T *d, const std::vector<uint> &s, int dm) { build(d, s.data(), dm); }
    template <typename T> ArrayObject(T *d, const uint *s, int dm) { build(d, s, dm); }
    template <typename T> T *Data() { if (tag != &Shim::Tag<T>::id) ABORT("wrong element type"); return (T *)p; }
    std::vector<uint> Shape() { return std::vector<uint>(sh, sh + dim); }
    uint Size() { return n; }
    int Dim() { return dim; }
};
class AnyObject {
public:
    const void *tag; void *p;
    AnyObject() : tag(nullptr), p(nullptr) {}
    template <typename T> AnyObject(const T &v) : tag(&Shim::Tag<T>::id), p(Shim::make(v)) {}
    template <typename T> struct Id {};
    template <typename T> T As() const { return as(Id<T>()); }
    std::vector<int> as(Id<std::vector<int>>) const     // one list in the file serves both types
    {
        if (tag == &Shim::Tag<Vec<int>>::id) { Vec<int> v = *(Vec<int> *)p; std::vector<int> r; for (int i = 0; i < D; i++) r.push_back(v[i]); return r; }
        return as<std::vector<int>>();
    }
    double as(Id<double>) const { if (tag == &Shim::Tag<int>::id) return *(int *)p; return as<double>(); }            // Python integers serve as numbers, momenta and counts
    Momentum as(Id<Momentum>) const { if (tag == &Shim::Tag<int>::id) { Momentum m; m.K = *(int *)p; return m; } return as<Momentum>(); }
    template <typename T> T as(Id<T>) const { return as<T>(); }
    template <typename T> T as() const { if (tag != &Shim::Tag<T>::id) ABORT("Fail to convert"); return *(T *)p; }
};
}
class Dictionary {
public:
    static const int MAXK = 24;
    Shim::Key k[MAXK]; Python::AnyObject v[MAXK]; int n;
    Dictionary() : n(0) {}
    template <typename T> Dictionary(const char *key, const T &value) : n(0) { (*this)[key] = value; }
    int find(const Shim::Key &key) const { for (int i = 0; i < n; i++) if (k[i].is(key)) return i; return -1; }
    Python::AnyObject &operator[](const Shim::Key &key) { int i = find(key); if (i < 0) { i = n++; if (n > MAXK) abort(); k[i] = key; } return v[i]; }
    Python::AnyObject &operator[](const char *key) { return (*this)[Shim::Key(key)]; }
    bool HasKey(const Shim::Key &key) const { return find(key) >= 0; }
    template <typename T> T Get(const Shim::Key &key) const { int i = find(key); if (i < 0) ABORT("key does not exist!"); return v[i].template As<T>(); }
    template <typename T> void Get(const Shim::Key &key, T &value) const { value = Get<T>(key); }
    void Update(const Dictionary &o) { for (int i = 0; i < o.n; i++) (*this)[o.k[i]] = o.v[i]; }
    void Clear() { n = 0; }
    bool IsEmpty() const { return n == 0; }
    void Print() const {}
    std::string PrettyString() const { return std::string(); }
#ifdef SHIM_FILES       // a model of the file system: see below
    void Load(const std::string &f); void BigLoad(const std::string &f);
    void Save(const std::string &f, const std::string & = "a"); void BigSave(const std::string &f);
#else
    void Load(const std::string &) {}
    void Save(const std::string &, const std::string & = "a") {}
    void BigLoad(const std::string &) {}
    void BigSave(const std::string &) {}
#endif
#ifdef SHIM_PARSE       // a Python literal of dicts, lists of dicts, lists of D integers, numbers, True and False
    void LoadFromString(const std::string &t);
#else
    void LoadFromString(const std::string &) {}
#endif
};
#ifdef SHIM_PARSE
namespace Shim {
struct Parser {
    const char *c;
    void skip() { while (*c == ' ' || *c == '\n') c++; }
    bool eat(char x) { skip(); if (*c != x) return false; c++; return true; }
    void need(char x) { if (!eat(x)) throw IOInvalid("not a Python literal"); }
    bool word(const char *w) { int i = 0; while (w[i] && c[i] == w[i]) i++; if (w[i]) return false; c += i; return true; }
    Python::AnyObject number()
    {
        bool neg = eat('-'); int v = 0, n = 0; for (; *c >= '0' && *c <= '9'; c++, n++) v = v * 10 + (*c - '0');
        if (!n) throw IOInvalid("not a Python literal");
        if (*c != '.') return Python::AnyObject(neg ? -v : v);
        c++; double f = 0, s = 1; for (; *c >= '0' && *c <= '9'; c++) { f = f * 10 + (*c - '0'); s *= 10; }
        double r = v + f / s; return Python::AnyObject(neg ? -r : r);
    }
    Dictionary dict()
    {
        Dictionary d; need('{');
        if (eat('}')) return d;
        do { need('\''); char k[32]; int i = 0; while (*c != '\'' && *c && i < 31) k[i++] = *c++; k[i] = 0; need('\''); need(':'); d[(const char *)k] = value(); } while (eat(','));
        need('}'); return d;
    }
    Python::AnyObject value()
    {
        skip();
        if (*c == '{') return Python::AnyObject(dict());
        if (word("True")) return Python::AnyObject(true);
        if (word("False")) return Python::AnyObject(false);
        if (*c != '[') return number();
        c++; skip();
        if (*c == '{') { std::vector<Dictionary> l; do l.push_back(dict()); while (eat(',')); need(']'); return Python::AnyObject(l); }
        Vec<int> v; int n = 0; do { Python::AnyObject a = number(); if (n == D) throw IOInvalid("wrong length"); v[n++] = a.As<int>(); } while (eat(','));
        need(']'); if (n != D) throw IOInvalid("wrong length"); return Python::AnyObject(v);
    }
};
}
inline void Dictionary::LoadFromString(const std::string &t) { Shim::Parser p; p.c = t.c_str(); *this = p.dict(); p.skip(); if (*p.c) throw IOInvalid("not a Python literal"); }
#endif
#ifdef SHIM_FILES
namespace Shim {
struct File { Key name; Dictionary d; bool exists, big; int writes; };
extern File file[8]; extern int files;
inline File &open(const std::string &name) { Key k(name); for (int i = 0; i < files; i++) if (file[i].name.is(k)) return file[i]; if (files == 8) abort(); File &f = file[files++]; f.name = k; f.exists = false; f.writes = 0; return f; }
inline void read(Dictionary &d, const std::string &name, bool big) { File &f = open(name); if (!f.exists | f.big != big) throw IOInvalid("no such file"); d = f.d; }
inline void write(const Dictionary &d, const std::string &name, bool big) { File &f = open(name); f.d = d; f.exists = true; f.big = big; f.writes++; }
}
inline void Dictionary::Load(const std::string &f) { Shim::read(*this, f, false); }
inline void Dictionary::BigLoad(const std::string &f) { Shim::read(*this, f, true); }
inline void Dictionary::Save(const std::string &f, const std::string &mode) { if (mode.c_str()[0] != 'w') abort(); Shim::write(*this, f, false); }
inline void Dictionary::BigSave(const std::string &f) { Shim::write(*this, f, true); }
#endif
#endif
