/* Event logger linked as foreign code.  Line format (one write(2) per event):
 *   <key> TAB <term>
 * term := v<n>;  i<dec>;  d<16 hex>;  a<len>:<bytes escaped>  s<arity>,<len>:<name> args...
 *         [ head tail          (list cell)
 * Bytes outside 33..126 and '\\' are written \xx (hex). len counts raw bytes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <unistd.h>
#include <fcntl.h>
#include <gprolog.h>

static int fd = -1;
static char *buf; static size_t len, cap;

static void need(size_t n) {
  if (len + n + 1 > cap) { cap = (len + n + 1) * 2 + 4096; buf = realloc(buf, cap); if (!buf) abort(); }
}
static void put(const char *s, size_t n) { need(n); memcpy(buf + len, s, n); len += n; }
static void putesc(const char *s, size_t n) {
  size_t i; char t[8];
  for (i = 0; i < n; i++) {
    unsigned char c = (unsigned char) s[i];
    if (c >= 33 && c <= 126 && c != '\\') put(s + i, 1);
    else { int k = sprintf(t, "\\%02x", c); put(t, k); }
  }
}
static void openlog(void) {
  if (fd < 0) {
    const char *p = getenv("VLOG");
    fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : 2;
    if (fd < 0) { perror("vlog"); _exit(97); }
  }
}
static void flushline(void) {
  size_t o = 0;
  put("\n", 1);
  while (o < len) { ssize_t r = write(fd, buf + o, len - o); if (r <= 0) _exit(98); o += r; }
  len = 0;
}
static PlTerm *vars; static int nvars, cvars;

static void ser(PlTerm root) {
  size_t sp = 0, scap = 256; PlTerm *st = malloc(scap * sizeof(PlTerm));
  char t[64]; size_t nodes = 0;
  static size_t maxnodes;
  if (!maxnodes) { const char *p = getenv("VLOG_MAX"); maxnodes = p ? strtoul(p, NULL, 10) : 3000000; }
  st[sp++] = root; nvars = 0;
  while (sp) {
    PlTerm x = st[--sp];
    if (++nodes > maxnodes || len > 40000000) { put("!", 1); break; }
    int ty = Pl_Type_Of_Term(x), i, k;
    if (ty == PL_INT) { k = sprintf(t, "i%" PRIdPTR ";", Pl_Rd_Integer(x)); put(t, k); }
    else if (ty == PL_FLT) { double d = Pl_Rd_Float(x); uint64_t u; memcpy(&u, &d, 8);
      k = sprintf(t, "d%016" PRIx64, u); put(t, k); }
    else if (ty == PL_ATM) { int a = Pl_Rd_Atom(x); const char *s = Pl_Atom_Name(a); size_t n = strlen(s);
      k = sprintf(t, "a%zu:", n); put(t, k); putesc(s, n); }
    else if (ty == PL_LST || ty == PL_STC) {
      PlTerm *arg; int f, ar;
      if (ty == PL_LST) { arg = Pl_Rd_List(x); ar = 2; put("[", 1); }
      else { arg = Pl_Rd_Compound(x, &f, &ar); const char *s = Pl_Atom_Name(f); size_t n = strlen(s);
        k = sprintf(t, "s%d,%zu:", ar, n); put(t, k); putesc(s, n); }
      if (sp + ar + 1 > scap) { scap = (sp + ar + 1) * 2; st = realloc(st, scap * sizeof(PlTerm)); }
      for (i = ar - 1; i >= 0; i--) st[sp++] = arg[i];
    } else if (ty == PL_FDV || ty == PL_PLV) {
      for (i = 0; i < nvars; i++) if (Pl_Term_Compare(vars[i], x) == 0) break;
      if (i == nvars) { if (nvars == cvars) { cvars = cvars * 2 + 16; vars = realloc(vars, cvars * sizeof(PlTerm)); }
        vars[nvars++] = x; }
      k = sprintf(t, "%c%d;", ty == PL_FDV ? 'f' : 'v', i); put(t, k);
    } else { put("?", 1); }
  }
  free(st);
}
PlBool vlog(PlLong key, PlTerm t) {
  char h[32]; openlog(); len = 0; put(h, sprintf(h, "%" PRIdPTR "\t", key)); ser(t); flushline(); return PL_TRUE;
}
PlBool vlogs(PlLong key, char *s) {
  char h[32]; openlog(); len = 0; put(h, sprintf(h, "%" PRIdPTR "\ta%zu:", key, strlen(s))); putesc(s, strlen(s)); flushline(); return PL_TRUE;
}
PlBool vmark(PlLong key) {
  char h[32]; openlog(); len = 0; put(h, sprintf(h, "%" PRIdPTR "\t>", key)); flushline(); return PL_TRUE;
}
PlBool vfile(char *name, PlTerm *res) {
  FILE *f = fopen(name, "rb");
  static PlTerm *w; static int cap2;
  int n = 0, c;
  if (f == NULL) { *res = Pl_Mk_Atom(Pl_Create_Atom("none")); return PL_TRUE; }
  while ((c = getc(f)) != EOF) {
    if (n >= cap2) w = realloc(w, (cap2 = cap2 * 2 + 1024) * sizeof(PlTerm));
    w[n++] = Pl_Mk_Integer(c);
  }
  fclose(f);
  *res = Pl_Mk_Proper_List(n, w);
  return PL_TRUE;
}
#include <malloc.h>
extern uintptr_t pl_nb_atom;
PlBool vcnt(PlLong key, PlLong l, PlLong g, PlLong t, PlLong c) {
  struct mallinfo2 m = mallinfo2();
  char b[200];
  snprintf(b, sizeof b, "m %ld %ld %ld %ld %ld %ld", (long) l, (long) g, (long) t, (long) c, (long) pl_nb_atom, (long) (m.uordblks + m.hblkhd));
  return vlogs(key, b);
}
