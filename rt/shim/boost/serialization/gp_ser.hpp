// Environment model of Boost.Serialization: an in-memory byte archive driving
// the real serialize() members of the code under test.
#pragma once
#include <vector>
#include <string>
#include <map>
#include <set>
#include <list>
#include <utility>
#include <complex>
#include <cstring>
#include <cstdlib>
#include <iosfwd>
#include <type_traits>
#include <memory>
#include <boost/smart_ptr/shared_ptr.hpp>
#include <boost/smart_ptr/scoped_ptr.hpp>
#include <boost/core/nvp.hpp>
#include "gp.h"
namespace boost { template <class K, class V, class H, class E, class A> class unordered_map_fwd_; }
namespace boost { namespace serialization {
class access { public:
  template <class A, class T> static void serialize(A &a, T &t, unsigned v) { t.serialize(a, v); }
  template <class A, class T> static void member_save(A &a, const T &t, unsigned v) { t.save(a, v); }
  template <class A, class T> static void member_load(A &a, T &t, unsigned v) { t.load(a, v); }
  template <class T> static T *create() { return new T(); }
};
template <class B, class D> B &base_object(D &d) { return static_cast<B &>(d); }
template <class B, class D> const B &base_object(const D &d) { return static_cast<const B &>(d); }
template <class A, class T> void split_member(A &a, T &t, unsigned v) { if constexpr (A::saving) access::member_save(a, t, v); else access::member_load(a, t, v); }
template <class A, class T> void split_free(A &a, T &t, unsigned v) { if constexpr (A::saving) save(a, t, v); else load(a, t, v); }
} }
#define BOOST_SERIALIZATION_SPLIT_MEMBER() template <class Archive> void serialize(Archive &ar, const unsigned int v) { boost::serialization::split_member(ar, *this, v); }
namespace gpar {
template <class T> struct triv { static const bool v = std::is_arithmetic<T>::value || std::is_enum<T>::value; };
struct oar { static const bool saving = true; static const bool is_saving_t = true; typedef std::true_type is_saving; typedef std::false_type is_loading;
  char *b; size_t n, cap; oar() : b(0), n(0), cap(0) {} ~oar() { free(b); }
  template <class S, class = typename std::enable_if<std::is_class<S>::value>::type> explicit oar(S &, unsigned = 0) : b(0), n(0), cap(0) { gp_fail_path("archive on a stream"); }
  void raw(const void *p, size_t k) { size_t m = n + ((k + 7) & ~(size_t)7); if (m > cap) { size_t c = cap ? cap * 2 : 1024; while (c < m) c *= 2; char *q = (char *)malloc(c); if (n) memcpy(q, b, n); free(b); b = q; cap = c; } if (k) memcpy(b + n, p, k); n = m; }
  char *take() { char *r = b; b = 0; return r; }
  template <class T> oar &operator<<(const T &t) { sv(t); return *this; } template <class T> oar &operator&(const T &t) { sv(t); return *this; }
  template <class T> void sv(const T &t) { if constexpr (triv<T>::v) raw(&t, sizeof t); else if constexpr (std::is_array<T>::value) { for (auto &x : t) sv(x); } else if constexpr (std::is_pointer<T>::value) { bool z = t != 0; sv(z); if (z) sv(*t); } else boost::serialization::access::serialize(*this, const_cast<T &>(t), 0u); }
  template <class T> void sv(const boost::serialization::nvp<T> &t) { sv(t.const_value()); }
  void sv(const std::string &s) { size_t k = s.size(); raw(&k, 8); raw(s.data(), k); }
  template <class T> void sv(const std::complex<T> &c) { T x[2] = {c.real(), c.imag()}; raw(&x[0], sizeof(T)); raw(&x[1], sizeof(T)); }
  template <class T> void sv(const std::vector<T> &v) { size_t k = v.size(); raw(&k, 8); for (size_t i = 0; i < k; i++) { T x = v[i]; sv(x); } }
  template <class T> void sv(const std::list<T> &v) { size_t k = v.size(); raw(&k, 8); for (auto &x : v) sv(x); }
  template <class T> void sv(const std::set<T> &v) { size_t k = v.size(); raw(&k, 8); for (auto &x : v) sv(x); }
  template <class K, class V> void sv(const std::map<K, V> &v) { size_t k = v.size(); raw(&k, 8); for (auto &x : v) { sv(x.first); sv(x.second); } }
  template <class A, class B> void sv(const std::pair<A, B> &p) { sv(p.first); sv(p.second); }
  template <class T> void sv(const boost::shared_ptr<T> &p) { bool z = p.get() != 0; sv(z); if (z) sv(*p); }
  template <class T> void sv(const boost::scoped_ptr<T> &p) { bool z = p.get() != 0; sv(z); if (z) sv(*p); }
};
struct iar { static const bool saving = false; typedef std::false_type is_saving; typedef std::true_type is_loading;
  const char *b; size_t n, at; iar(const char *p, size_t k) : b(p), n(k), at(0) {}
  template <class S, class = typename std::enable_if<std::is_class<S>::value>::type> explicit iar(S &, unsigned = 0) : b(0), n(0), at(0) { gp_fail_path("archive on a stream"); }
  void raw(void *p, size_t k) { size_t m = at + ((k + 7) & ~(size_t)7); if (m > n) { gp_check(0, "archive read past its end: writer and reader disagree"); gp_end_path("archive"); } if (k) memcpy(p, b + at, k); at = m; }
  template <class T> iar &operator>>(T &t) { ld(t); return *this; } template <class T> iar &operator>>(const T &t) { ld(const_cast<T &>(t)); return *this; }
  template <class T> iar &operator&(T &t) { ld(t); return *this; }
  template <class T> void ld(const boost::serialization::nvp<T> &t) { ld(t.value()); }
  size_t cnt() { size_t k; raw(&k, 8); k = (size_t)gp_concrete((int64_t)k); if (k > n) { gp_check(0, "archive element count is not plausible: writer and reader disagree"); gp_end_path("archive"); } return k; }
  template <class T> void ld(T &t) { if constexpr (triv<T>::v) raw(&t, sizeof t); else if constexpr (std::is_array<T>::value) { for (auto &x : t) ld(x); } else if constexpr (std::is_pointer<T>::value) { bool z; ld(z); if (z) { typedef typename std::remove_pointer<T>::type U; t = boost::serialization::access::create<U>(); ld(*t); } else t = 0; } else boost::serialization::access::serialize(*this, t, 0u); }
  void ld(std::string &s) { size_t k = cnt(); char *q = (char *)malloc(k + 1); raw(q, k); s.assign(q, k); free(q); }
  template <class T> void ld(std::complex<T> &c) { T x, y; raw(&x, sizeof(T)); raw(&y, sizeof(T)); c = std::complex<T>(x, y); }
  template <class T> void ld(std::vector<T> &v) { size_t k = cnt(); v.clear(); v.reserve(k); for (size_t i = 0; i < k; i++) { T x = T(); ld(x); v.push_back(x); } }
  template <class T> void ld(std::list<T> &v) { size_t k = cnt(); v.clear(); for (size_t i = 0; i < k; i++) { T x = T(); ld(x); v.push_back(x); } }
  template <class T> void ld(std::set<T> &v) { size_t k = cnt(); v.clear(); for (size_t i = 0; i < k; i++) { T x = T(); ld(x); v.insert(x); } }
  template <class K, class V> void ld(std::map<K, V> &v) { size_t k = cnt(); v.clear(); for (size_t i = 0; i < k; i++) { K x = K(); V y = V(); ld(x); ld(y); v.insert(std::pair<K, V>(x, y)); } }
  template <class A, class B> void ld(std::pair<A, B> &p) { ld(p.first); ld(p.second); }
  template <class T> void ld(boost::shared_ptr<T> &p) { bool z; ld(z); if (!z) { p.reset(); return; } boost::shared_ptr<T> q(boost::serialization::access::create<T>()); ld(*q); p = q; }
  template <class T> void ld(boost::scoped_ptr<T> &p) { bool z; ld(z); if (!z) { p.reset(); return; } p.reset(boost::serialization::access::create<T>()); ld(*p); }
};
// copy of t as if sent to another process
template <class T> void transfer(const T &from, T &to) { oar o; o << from; iar i(o.b, o.n); i >> to; gp_check(i.at == i.n, "archive not read to its end: writer and reader disagree"); }
}
#define BOOST_CLASS_EXPORT_KEY(x)
#define BOOST_CLASS_EXPORT_KEY2(x, y)
#define BOOST_CLASS_EXPORT_IMPLEMENT(x)
#define BOOST_CLASS_EXPORT(x)
#define BOOST_CLASS_VERSION(x, y)
#define BOOST_SERIALIZATION_ASSUME_ABSTRACT(x)
#define BOOST_IS_MPI_DATATYPE(x)
#define BOOST_IS_BITWISE_SERIALIZABLE(x)
#define BOOST_SERIALIZATION_NVP(x) x
