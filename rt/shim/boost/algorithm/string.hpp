// Environment model of the Boost string algorithms used by the repository ("C" locale, ASCII).
#pragma once
#include <string>
#include <vector>
namespace boost {
namespace gpd { inline bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline char up(char c) { return (c >= 'a' && c <= 'z') ? (char)(c - 32) : c; } inline char lo(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; } }
inline void trim_right(std::string &s) { size_t e = s.size(); while (e > 0 && gpd::sp(s[e - 1])) e--; s.erase(e); }
inline void trim_left(std::string &s) { size_t b = 0; while (b < s.size() && gpd::sp(s[b])) b++; s.erase(0, b); }
inline void trim(std::string &s) { trim_right(s); trim_left(s); }
inline std::string trim_copy(std::string s) { trim(s); return s; }
inline void to_upper(std::string &s) { for (size_t i = 0; i < s.size(); i++) s[i] = gpd::up(s[i]); }
inline void to_lower(std::string &s) { for (size_t i = 0; i < s.size(); i++) s[i] = gpd::lo(s[i]); }
inline std::string to_upper_copy(std::string s) { to_upper(s); return s; }
inline std::string to_lower_copy(std::string s) { to_lower(s); return s; }
namespace algorithm {
enum token_compress_mode_type { token_compress_on, token_compress_off };
struct is_any_of_ { std::string s; bool operator()(char c) const { return s.find(c) != std::string::npos; } };
inline is_any_of_ is_any_of(const std::string &s) { is_any_of_ r; r.s = s; return r; }
template <class C, class P> C &split(C &out, const std::string &in, P pred, token_compress_mode_type m = token_compress_off) {
  out.clear(); size_t b = 0, n = in.size();
  for (;;) { size_t e = b; while (e < n && !pred(in[e])) e++; out.push_back(in.substr(b, e - b)); if (e >= n) break; e++; if (m == token_compress_on) while (e < n && pred(in[e])) e++; b = e; }
  return out; }
inline bool iequals(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (gpd::up(a[i]) != gpd::up(b[i])) return false; return true; }
inline bool starts_with(const std::string &a, const std::string &b) { return a.size() >= b.size() && a.compare(0, b.size(), b) == 0; }
inline bool ends_with(const std::string &a, const std::string &b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; }
inline bool contains(const std::string &a, const std::string &b) { return a.find(b) != std::string::npos; }
}
using namespace algorithm;
}
