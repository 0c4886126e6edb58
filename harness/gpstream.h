#pragma once
#include <string>
#include <vector>
#include <fstream>
inline std::vector<std::string> gp_names, gp_texts;
#ifndef GP_NATIVE
// Model of a file: a named text; getline as specified by the C++ standard
// (end of file reached while reading sets eofbit; nothing extracted sets
// failbit). Native replay uses real files.
namespace std {
struct gp_ifstream {
  int f; size_t pos; bool eof_, fail_;
  gp_ifstream() : f(-1), pos(0), eof_(false), fail_(false) {}
  gp_ifstream(const char *n) : f(-1), pos(0), eof_(false), fail_(false) { open(n); } gp_ifstream(const std::string &n) : f(-1), pos(0), eof_(false), fail_(false) { open(n); }
  void open(const std::string &n) { open(n.c_str()); }
  void open(const char *n) { if (f >= 0) { fail_ = true; return; } for (size_t i = 0; i < gp_names.size(); i++) if (gp_names[i] == n) f = (int)i; if (f < 0) { fail_ = true; return; } pos = 0; eof_ = fail_ = false; }
  bool is_open() const { return f >= 0; } bool good() const { return !eof_ && !fail_; } bool fail() const { return fail_; } bool bad() const { return false; } bool eof() const { return eof_; } explicit operator bool() const { return !fail_; } bool operator!() const { return fail_; }
  void clear() { eof_ = fail_ = false; }
  void close() { if (f < 0) fail_ = true; f = -1; }
};
inline gp_ifstream &getline(gp_ifstream &s, std::string &l) {
  if (!s.good() || s.f < 0) { s.fail_ = true; return s; } // sentry fails: text unchanged
  l.clear(); const std::string &t = gp_texts[s.f]; bool got = false;
  for (;;) { if (s.pos >= t.size()) { s.eof_ = true; break; } char c = t[s.pos++]; got = true; if (c == '\n') break; l += c; }
  if (!got) s.fail_ = true; return s; }
}
#define ifstream gp_ifstream
#endif
