// Line input: every line of the source once, in order and unchanged.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <unistd.h>
#include <iostream>
#include <fstream>
#include "gp.h"
#include "gpstream.h"
#include "gridpack/stream/input_stream.cpp"
#ifndef GP_NATIVE
#undef ifstream
#endif
using gridpack::stream::InputStream;
static char dir[64];
static std::string path(int k) { char b[96]; snprintf(b, sizeof b, "%s/f%d", dir, k); return b; }
static std::vector<std::string> want; static int N;
static void expect(InputStream &s, int upto, const char *) {
  for (int i = 0; i < upto; i++) { std::string l = "stale"; bool r = s.nextLine(l); gp_check(r, "line of the source returned"); if (!r) return; gp_check_eqi((int64_t)l.size(), (int64_t)want[i].size(), "length of the line"); if (l.size() == want[i].size()) for (size_t k = 0; k < l.size(); k++) gp_check(l[k] == want[i][k], "text of the line"); gp_cover("line"); if (l.empty()) gp_cover("empty line"); }
  if (upto == (int)want.size()) for (int k = 0; k < 2; k++) { std::string l; gp_check(!s.nextLine(l), "end reported after the last line"); gp_cover("end"); } }
static void open_source(InputStream &s, int mode, int k) {
  want.clear();
  if (mode == 0) { // file with N symbolic characters
    std::string t; int n = gp_choose("size", 0, N); for (int i = 0; i < n; i++) { char c = gp_char("c"); t += c; }
    std::string cur; bool open = false; for (int i = 0; i < n; i++) if (t[i] == '\n') { want.push_back(cur); cur.clear(); open = false; } else { cur += t[i]; open = true; }
    if (open) { want.push_back(cur); gp_cover("last line without newline"); }
#ifdef GP_NATIVE
    FILE *f = fopen(path(k).c_str(), "wb"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); }
#else
    gp_names.push_back(path(k)); gp_texts.push_back(t);
#endif
    gp_check(s.openFile(path(k)), "existing file opened"); gp_cover("file");
  } else { int n = gp_choose("lines", 1, 3); for (int i = 0; i < n; i++) { std::string l; int m = gp_choose("len", 0, 2); for (int j = 0; j < m; j++) l += gp_char("c"); want.push_back(l); }
    gp_check(s.openStringVector(want), "strings opened"); gp_cover("strings"); }
  gp_check(s.isOpen(), "stream reported open"); }
void gp_main() {
  N = (int)gp_param("N", 4); int first = (int)gp_param("first", 0), second = (int)gp_param("second", -1), miss = (int)gp_param("miss", 0); gp_names.clear(); gp_texts.clear();
#ifdef GP_NATIVE
  strcpy(dir, "/tmp/gpstreamXXXXXX"); if (!mkdtemp(dir)) return;
#else
  strcpy(dir, "/dir");
#endif
  { InputStream s; gp_check(!s.isOpen(), "new stream not open");
    if (miss) { gp_check(!s.openFile(path(9)), "missing file reported"); gp_check(!s.isOpen(), "missing file leaves the stream closed"); std::vector<std::string> none; gp_check(!s.openStringVector(none), "empty list reported"); gp_check(!s.isOpen(), "empty list leaves the stream closed"); gp_cover("missing"); }
    open_source(s, first, 0); int upto = second >= 0 ? gp_choose("read", 0, (int)want.size()) : (int)want.size(); expect(s, upto, "first");
    if (second >= 0) { s.close(); gp_check(!s.isOpen(), "closed stream reported closed"); std::string l; gp_check(!s.nextLine(l), "no line from a closed stream"); open_source(s, second, 1); expect(s, (int)want.size(), "second"); gp_cover("reopened"); if (upto < 2) gp_cover("partly read"); }
    s.close(); }
#ifdef GP_NATIVE
  for (int k = 0; k < 2; k++) unlink(path(k).c_str()); rmdir(dir);
#endif
}
