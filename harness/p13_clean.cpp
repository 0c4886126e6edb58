// Tag clean-up, quote trimming, whitespace trimming, boolean words, case folding.
#include "gp.h"
#include <string>
#include "gridpack/utilities/string_utils.hpp"
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static std::string trimmed(const std::string &s) { size_t b = 0, e = s.size(); while (b < e && ws(s[b])) b++; while (e > b && ws(s[e - 1])) e--; return s.substr(b, e - b); }
extern "C" void gp_main() {
  int mode = (int)gp_param("mode", 0), N = (int)gp_param("N", 3); gridpack::utility::StringUtils u;
  if (mode == 0) { // identifier of one or two characters, any quoting, any padding
    int q = gp_choose("quote", 0, 2), l = gp_choose("idlen", 1, 2), a = gp_choose("lead", 0, 2), b = gp_choose("trail", 0, 2), ol = gp_choose("outer", 0, 1);
    std::string id; for (int i = 0; i < l; i++) { char c = gp_char("c"); gp_assume((c > ' ') & (c != '\'') & (c != '"')); id.push_back(c); }
    std::string s; const char *Q = q == 0 ? "" : q == 1 ? "'" : "\"";
    if (ol) s += " "; s += Q; s.append(a, ' '); s += id; s.append(b, ' '); s += Q;
    std::string want = id; if (l == 1) want += " ";
    std::string in = s, got = u.clean2Char(in);
    gp_check(got == want, "two-character identifier"); gp_check(in == s, "argument unchanged"); gp_cover("id");
  } else if (mode == 1) { // quoted or bare text, blanks inside kept
    int q = gp_choose("quote", 0, 2), l = gp_choose("len", 1, N), a = gp_choose("lead", 0, 1), b = gp_choose("trail", 0, 1);
    std::string t; for (int i = 0; i < l; i++) { char c = gp_char("c"); gp_assume((c >= ' ') & (c != '\'') & (c != '"')); t.push_back(c); }
    gp_assume((t[0] != ' ') & (t[l - 1] != ' '));
    std::string s; const char *Q = q == 0 ? "" : q == 1 ? "'" : "\""; s += Q; s.append(a, ' '); s += t; s.append(b, ' '); s += Q;
    std::string in = s; gp_check(u.trimQuotes(in) == t, "quoted text"); gp_cover("quotes");
  } else if (mode == 2) {
    int l = gp_choose("len", 0, N); std::string s; for (int i = 0; i < l; i++) { char c = gp_char("c"); gp_assume(c >= 0); gp_assume((c != 11) & (c != 12)); s.push_back(c); }
    std::string in = s; u.trim(in); std::string w = trimmed(s);
    gp_check(in.size() == w.size(), "trimmed length");
    for (size_t i = 0; i < w.size() && i < in.size(); i++) gp_check(in[i] == (ws(w[i]) ? ' ' : w[i]), "trimmed text"); gp_cover("trim");
  } else if (mode == 3) {
    static const char *W[] = {"true", "yes", "t", "y", "1", "false", "no", "f", "n", "0"};
    int k = gp_choose("word", 0, 9), a = gp_choose("lead", 0, 1); std::string s; s.append(a, ' ');
    for (const char *p = W[k]; *p; p++) { bool up = gp_bool("up"); char c = *p; if (up && c >= 'a') c = (char)(c - 32); s.push_back(c); }
    s.append(a, ' '); gp_check(u.getBool(s) == (k < 5), "boolean word"); gp_check(u.getBool(s.c_str()) == (k < 5), "boolean word (C string)"); gp_cover("bool");
  } else if (mode == 5) { // any other word reads as false
    int l = gp_choose("len", 0, 4); std::string s; for (int i = 0; i < l; i++) { char c = gp_char("c"); gp_assume((c > ' ') & (c < 127)); s.push_back(c); }
    std::string w; for (int i = 0; i < l; i++) w.push_back(s[i] >= 'A' && s[i] <= 'Z' ? (char)(s[i] + 32) : s[i]);
    bool t = w == "true" || w == "yes" || w == "t" || w == "y" || w == "1"; gp_check(u.getBool(s) == t, "other word is false"); gp_cover("otherword");
  } else {
    int l = gp_choose("len", 0, N); std::string s; for (int i = 0; i < l; i++) s.push_back(gp_char("c"));
    std::string a = s, b = s; u.toUpper(a); u.toLower(b); gp_check(a.size() == s.size() && b.size() == s.size(), "case length");
    for (int i = 0; i < l; i++) { char c = s[i]; gp_check(a[i] == ((c >= 'a' && c <= 'z') ? (char)(c - 32) : c), "upper"); gp_check(b[i] == ((c >= 'A' && c <= 'Z') ? (char)(c + 32) : c), "lower"); } gp_cover("case");
  }
}
