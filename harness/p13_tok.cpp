// Tokenizers on an arbitrary string of at most N characters.
#include "gp.h"
#include <string>
#include <vector>
#include "gridpack/utilities/string_utils.hpp"
typedef std::vector<std::string> SV;
static SV refBlank(const std::string &in) {
  std::string s = in; SV r; size_t n = s.size(), i = 0;
  for (size_t k = 0; k < n; k++) if (s[k] == '\t') s[k] = ' ';
  while (i < n) {
    if (s[i] == ' ') { i++; continue; }
    size_t b = i; char q = s[i];
    if (q == '\'' || q == '"') { i++; while (i < n && s[i] != q) i++; if (i < n) i++; }
    else while (i < n && s[i] != ' ') i++;
    r.push_back(s.substr(b, i - b));
  }
  return r;
}
static SV refChar(const std::string &s, char c) {
  SV r; size_t n = s.size(), i = 0;
  while (i < n) { if (s[i] == c) { i++; continue; } size_t b = i; while (i < n && s[i] != c) i++; r.push_back(s.substr(b, i - b)); }
  return r;
}
extern "C" void gp_main() {
  int N = (int)gp_param("N", 5), mode = (int)gp_param("mode", 0), pad = (int)gp_param("pad", 0);
  int n = gp_choose("len", 0, N);
  std::string s; for (int i = 0; i < pad; i++) s.push_back('x');
  for (int i = 0; i < n; i++) { char c = gp_char("c"); gp_assume(c != '\r'); s.push_back(c); }
  std::string in = s; gridpack::utility::StringUtils u; SV got, want;
  if (mode == 0) { got = u.blankTokenizer(in); want = refBlank(s); }
  else { got = u.charTokenizer(in, ","); want = refChar(s, ','); }
  gp_check(in == s, "input line left unchanged");
  gp_check(got.size() == want.size(), "number of tokens");
  for (size_t i = 0; i < got.size() && i < want.size(); i++) gp_check(got[i] == want[i], "token text");
  if (want.size() == 2) gp_cover("two tokens");
  if (want.empty() && n > 0) gp_cover("blank line");
  if (mode == 0 && want.size() == 2 && want[0][0] == '\'') gp_cover("quoted token");
  if (mode == 1) gp_cover("char mode");
}
