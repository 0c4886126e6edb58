// Library code executed symbolically: C string functions and the out-of-line
// parts of libstdc++ that header-only instantiation does not provide.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <new>
#include <stdexcept>
#include <string>
#include <list>
#include <map>
#include <typeinfo>
#include <unordered_map>
#include <system_error>
#include "gp.h"
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
static inline int lower_(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lower_(*a) == lower_(*b)) { a++; b++; } return lower_((unsigned char)*a) - lower_((unsigned char)*b); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static char *tokp;
char *strtok(char *s, const char *d) { if (s) tokp = s; if (!tokp) return 0; tokp += strspn(tokp, d); if (!*tokp) { tokp = 0; return 0; } char *r = tokp; tokp += strcspn(tokp, d); if (*tokp) *tokp++ = 0; else tokp = 0; return r; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)__builtin_malloc(n); __builtin_memcpy(r, s, n); return r; }
#undef isdigit
#undef isalpha
#undef isspace
#undef isalnum
#undef toupper
#undef tolower
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
long strtol(const char *s, char **e, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (base == 0) base = 10; long v = 0; const char *q = p; while (isdigit((unsigned char)*p)) { v = v * base + (*p - '0'); p++; }
  if (e) *e = (char *)(p == q ? s : p); return neg ? -v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
double strtod(const char *s, char **e) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  if (*p == '@') { int id = 0; p++; while (isdigit((unsigned char)*p)) { id = id * 10 + (*p - '0'); p++; } if (*p == '@') p++; if (e) *e = (char *)p; return gp_real_by_id(id); }
  char b[128]; int n = 0; while (*p && n < 127) { char c = *p; if (isdigit((unsigned char)c) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E' || c == 'd' || c == 'D') { b[n++] = c; p++; } else break; }
  b[n] = 0; if (e) *e = (char *)(n ? p : s); return gp_parse_double(b); }
double atof(const char *s) { return strtod(s, 0); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
// ---- formatted printing (subset)
static void outc(char *b, size_t n, size_t &k, char c) { if (k + 1 < n) b[k] = c; k++; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  size_t k = 0;
  for (; *f; f++) {
    if (*f != '%') { outc(b, n, k, *f); continue; }
    const char *st = f++; int left = 0, zero = 0, width = 0, prec = -1, lng = 0, plus = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ' || *f == '#') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f == 'l' || *f == 'z') lng++; f++; }
    char t[160]; int m = 0; const char *s = t;
    switch (*f) {
    case '%': t[m++] = '%'; break;
    case 'c': t[m++] = (char)va_arg(ap, int); break;
    case 's': { s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || m < prec) && s[m]) m++; break; }
    case 'd': case 'i': case 'u': case 'x': {
      long v = lng ? va_arg(ap, long) : *f == 'd' || *f == 'i' ? (long)va_arg(ap, int) : (long)(unsigned)va_arg(ap, int);
      int neg = (*f == 'd' || *f == 'i') && v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v; char r[32]; int q = 0; int base = *f == 'x' ? 16 : 10;
      do { r[q++] = "0123456789abcdef"[u % base]; u /= base; } while (u); while (q < prec) r[q++] = '0';
      if (zero && !left && prec < 0) while (q + neg < width && q < 30) r[q++] = '0';
      if (neg) t[m++] = '-'; else if (plus) t[m++] = '+'; while (q) t[m++] = r[--q]; break; }
    case 'f': case 'e': case 'g': case 'E': case 'G': {
      double v = va_arg(ap, double); int id = gp_real_id(v);
      if (id >= 0) { t[m++] = '@'; char r[16]; int q = 0; do { r[q++] = '0' + id % 10; id /= 10; } while (id); while (q) t[m++] = r[--q]; t[m++] = '@'; }
      else { char ff[32]; int q = 0; for (const char *z = st; z <= f && q < 30; z++) if (*z != 'l') ff[q++] = *z; ff[q] = 0; m = gp_fmt_double(t, sizeof t, ff, v); width = 0; }
      break; }
    case 'p': va_arg(ap, void *); t[m++] = '0'; break;
    default: gp_fail_path("printf conversion");
    }
    if (!left) for (int i = m; i < width; i++) outc(b, n, k, ' ');
    for (int i = 0; i < m; i++) outc(b, n, k, s[i]);
    if (left) for (int i = m; i < width; i++) outc(b, n, k, ' ');
  }
  if (n) b[k < n ? k : n - 1] = 0;
  return (int)k;
}
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { // insertion sort
  char *b = (char *)base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; } }
int abs(int x) { return x < 0 ? -x : x; }
static unsigned long rs_ = 1; void srand(unsigned s) { rs_ = s; } int rand(void) { rs_ = rs_ * 1103515245 + 12345; return (int)((rs_ >> 16) & 0x7fff); }
void gp_set_tol(double) {}
char __libc_single_threaded = 1;
}
// ---- libstdc++ out-of-line pieces
namespace std {
static void *rt_dummy;
typedef _Rb_tree_node_base *NP; typedef const _Rb_tree_node_base *CNP;
static NP inc_(NP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NP dec_(NP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NP _Rb_tree_increment(NP x) throw() { return inc_(x); } CNP _Rb_tree_increment(CNP x) throw() { return inc_(const_cast<NP>(x)); }
NP _Rb_tree_decrement(NP x) throw() { return dec_(x); } CNP _Rb_tree_decrement(CNP x) throw() { return dec_(const_cast<NP>(x)); }
static void rl_(NP const x, NP &root) { NP const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rr_(NP const x, NP &root) { NP const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    NP const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      NP const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rl_(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rr_(xpp, root); }
    } else {
      NP const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rr_(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rl_(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
static NP min_(NP x) { while (x->_M_left) x = x->_M_left; return x; } static NP max_(NP x) { while (x->_M_right) x = x->_M_right; return x; }
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base &h) throw() {
  NP &root = h._M_parent; NP &lm = h._M_left; NP &rm = h._M_right; NP y = z, x = 0, xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else lm = min_(x); }
    if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else rm = max_(x); }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        NP w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rl_(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rr_(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rl_(xp, root); break; }
      } else {
        NP w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rr_(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rl_(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rr_(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next; _List_node_base *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
static const size_t primes_[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t i = 0; i < sizeof(primes_) / sizeof(primes_[0]); i++) if (primes_[i] >= n) { _M_next_resize = primes_[i]; return primes_[i]; } gp_fail_path("hash table too large"); return 0; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t need = ne + ni; if (need > nb) { size_t g = nb * 2; if (g > need) need = g; return {true, _M_next_bkt(need)}; } _M_next_resize = nb; return {false, 0}; }
  return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ul; return h; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
// exceptions
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
static const char *cpy_(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)__builtin_malloc(n); __builtin_memcpy(r, s, n); return r; }
__cow_string::__cow_string() { *(const char **)this = cpy_(""); }
__cow_string::__cow_string(const std::string &s) { *(const char **)this = cpy_(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t) { *(const char **)this = cpy_(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { *(const char **)this = *(const char *const *)&o; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { *(const char **)this = *(const char *const *)&o; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {} logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {} runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
domain_error::domain_error(const char *s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::invalid_argument(const string &s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::out_of_range(const string &s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
range_error::range_error(const char *s) : runtime_error(s) {} range_error::~range_error() noexcept {}
type_info::~type_info() {}
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; } bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
}
// ---- std::cout and friends: objects with just enough layout for inlined manipulators
extern "C" {
struct gp_fake_ctype { void *vp; long pad[6]; char ok; char widen[256]; char narrow[256]; char nok; };
struct gp_fake_os { void **vp; char ios[240]; gp_fake_ctype *ct; char rest[64]; };
static gp_fake_ctype gp_ct; static void *gp_vt[8] = {(void *)8, 0, 0, 0, 0, 0, 0, 0};
gp_fake_os gp_cout_ __asm__("_ZSt4cout") = {&gp_vt[3], {0}, &gp_ct, {0}}; gp_fake_os gp_cerr_ __asm__("_ZSt4cerr") = {&gp_vt[3], {0}, &gp_ct, {0}}; gp_fake_os gp_clog_ __asm__("_ZSt4clog") = {&gp_vt[3], {0}, &gp_ct, {0}};
static struct gp_ct_init_ { gp_ct_init_() { gp_ct.ok = 1; gp_ct.nok = 1; for (int i = 0; i < 256; i++) gp_ct.widen[i] = gp_ct.narrow[i] = (char)i; } } gp_ct_init__;
}
