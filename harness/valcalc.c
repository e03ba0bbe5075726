/* Computes with fble values through the value API, as host programs do.
 *
 *  valcalc MODULE JOBS DIR...   links MODULE (found in DIR...) and runs each job in a process of its own.
 *
 * JOBS: "J id", then lines
 *   = EXPR          variable 0, 1, 2, .. of the job
 *   ? EXPR SHAPE    prints the value of EXPR as SHAPE describes it
 * EXPR (words):
 *   .            the module's value            $n           variable n
 *   ( f a.. )    application                   { f a.. }    the same, an argument at a time
 *   @k E         field k of a struct           ^ E          argument of a union
 *   iDEC         integer from the host         b+BITS b-BITS b   integer from bits (lowest first, top bit last)
 *   ek           enum value                    uk E         union value
 *   sn E..       struct                        ln E..       list
 *   hHEX         string from the host          cDEC         character from the host
 *   gW:N         struct of W two-valued enums: the bits of N, highest first
 *   *N E         list of N times E
 * SHAPE: b integer as sign and bits; i (as "iN"), n integer by the host's access; c character, h string, likewise;
 *   e enum; S(..) struct; U(..) union [tag,arg]; M(.) maybe, [] or [x]; L(.) list; gW bits; _ nothing.
 * Output: "J id", per = line "D", per ? line "V json" ("A": an application aborted), "X status" after an abnormal end
 * (20 s of CPU and 3 GB are allowed), "STOP" after four of those by signals.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fble/fble-alloc.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-module-path.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include "char.fble.h"
#include "int.fble.h"
#include "string.fble.h"

static FbleValueHeap* heap;
static FbleProfile* profile;
static FbleValue* module;
static FbleValue* vars[100000];
static size_t nvars;
static char* p;          /* the words not read yet */
static bool aborted;

static char* Word(void)
{
  while (*p == ' ') p++;
  char* w = p;
  while (*p && *p != ' ') p++;
  if (*p) *p++ = '\0';
  return w;
}
static void Bad(const char* w) { fprintf(stdout, "BAD word %s\n", w); fflush(stdout); _exit(9); }

static FbleValue* Expr(void);
static FbleValue* Apply(bool each)
{
  FbleValue* f = Expr();
  FbleValue* args[64];
  size_t n = 0;
  for (;;) {
    while (*p == ' ') p++;
    if (*p == ')' || *p == '}') { Word(); break; }
    args[n++] = Expr();
  }
  if (aborted) return NULL;
  if (!each) {
    f = FbleApply(heap, f, n, args, profile);
  } else {
    for (size_t i = 0; f && i < n; ++i) f = FbleApply(heap, f, 1, args + i, profile);
  }
  if (f == NULL) aborted = true;
  return f;
}
static FbleValue* Expr(void)
{
  char* w = Word();
  switch (*w) {
    case '.': return module;
    case '$': { size_t k = strtoul(w + 1, NULL, 10); if (k >= nvars) Bad(w); if (vars[k] == NULL) aborted = true; return vars[k]; }
    case '(': return Apply(false);
    case '{': return Apply(true);
    case '@': { size_t k = strtoul(w + 1, NULL, 10); FbleValue* v = Expr(); return aborted ? NULL : FbleStructValueField(v, k); }
    case '^': { FbleValue* v = Expr(); return aborted ? NULL : FbleUnionValueArg(v); }
    case 'i': return FbleNewIntValue(heap, strtoll(w + 1, NULL, 10));
    case 'b': {
      if (w[1] == '\0') return FbleNewEnumValue(heap, 1);
      FbleValue* v = FbleNewEnumValue(heap, 0);
      for (size_t i = strlen(w) - 2; i >= 2; --i) v = FbleNewUnionValue(heap, w[i] == '1' ? 2 : 1, v);
      return FbleNewUnionValue(heap, w[1] == '-' ? 0 : 2, v);
    }
    case 'e': return FbleNewEnumValue(heap, strtoul(w + 1, NULL, 10));
    case 'u': { size_t k = strtoul(w + 1, NULL, 10); FbleValue* v = Expr(); return aborted ? NULL : FbleNewUnionValue(heap, k, v); }
    case 's': case 'l': {
      size_t n = strtoul(w + 1, NULL, 10);
      FbleValue** xs = malloc((n + 1) * sizeof(FbleValue*));
      for (size_t i = 0; i < n; ++i) xs[i] = Expr();
      if (aborted) return NULL;
      return *w == 's' ? FbleNewStructValue(heap, n, xs) : FbleNewListValue(heap, n, xs);
    }
    case '*': {
      size_t n = strtoul(w + 1, NULL, 10);
      FbleValue** xs = malloc((n + 1) * sizeof(FbleValue*));
      FbleValue* v = Expr();
      for (size_t i = 0; i < n; ++i) xs[i] = v;
      return aborted ? NULL : FbleNewListValue(heap, n, xs);
    }
    case 'h': {
      char* s = calloc(strlen(w) + 1, 1);
      for (size_t i = 0; w[2 * i + 1] && w[2 * i + 2]; ++i) {
        char x[3] = { w[2 * i + 1], w[2 * i + 2], 0 };
        s[i] = (char)strtoul(x, NULL, 16);
      }
      return FbleNewStringValue(heap, s);
    }
    case 'c': return FbleNewCharValue(heap, (char)strtoul(w + 1, NULL, 10));
    case 'g': {
      char* e; size_t n = strtoul(w + 1, &e, 10); unsigned long v = strtoul(e + 1, NULL, 10);
      FbleValue* xs[64];
      for (size_t i = 0; i < n; ++i) xs[i] = FbleNewEnumValue(heap, (v >> (n - 1 - i)) & 1);
      return FbleNewStructValue(heap, n, xs);
    }
    default: Bad(w); return NULL;
  }
}

static const char* Skip(const char* s)
{
  int depth = 0;
  for (; *s; ++s) {
    if (*s == '(') depth++;
    if (*s == ')') { if (depth == 0) return s; depth--; }
    if (*s == ',' && depth == 0) return s;
  }
  return s;
}
static const char* Show(FbleValue* v, const char* s)
{
  switch (*s) {
    case '_': printf("0"); return s + 1;
    case 'e': printf("%zu", FbleUnionValueTag(v)); return s + 1;
    case 'i': printf("\"i%lld\"", (long long)FbleIntValueAccess(v)); return s + 1;
    case 'n': printf("%lld", (long long)FbleIntValueAccess(v)); return s + 1;
    case 'c': printf("%d", (unsigned char)FbleCharValueAccess(v)); return s + 1;
    case 'h': {
      char* t = FbleStringValueAccess(v);
      printf("[");
      for (size_t i = 0; t[i]; ++i) printf("%s%d", i ? "," : "", (unsigned char)t[i]);
      printf("]");
      FbleFree(t);
      return s + 1;
    }
    case 'b': {
      size_t t = FbleUnionValueTag(v);
      if (t == 1) { printf("\"\""); return s + 1; }
      putchar('"'); putchar(t == 0 ? '-' : '+');
      for (v = FbleUnionValueArg(v); FbleUnionValueTag(v) != 0; v = FbleUnionValueArg(v)) putchar(FbleUnionValueTag(v) == 2 ? '1' : '0');
      printf("1\"");
      return s + 1;
    }
    case 'g': {
      char* e; size_t n = strtoul(s + 1, &e, 10); unsigned long x = 0;
      for (size_t i = 0; i < n; ++i) x = 2 * x + FbleUnionValueTag(FbleStructValueField(v, i));
      printf("%lu", x);
      return e;
    }
    case 'S': {
      s += 2;
      printf("[");
      for (size_t i = 0; ; ++i) {
        if (i) printf(",");
        s = Show(FbleStructValueField(v, i), s);
        if (*s++ == ')') break;
      }
      printf("]");
      return s;
    }
    case 'U': {
      size_t t = FbleUnionValueTag(v);
      const char* end = s + 2;
      printf("[%zu,", t);
      s += 2;
      for (size_t i = 0; ; ++i) {
        if (i == t) Show(FbleUnionValueArg(v), s);
        s = end = Skip(s);
        if (*s++ == ')') break;
      }
      printf("]");
      return end + 1;
    }
    case 'M': {
      const char* end = Skip(s + 2);
      printf("[");
      if (FbleUnionValueTag(v) == 0) Show(FbleUnionValueArg(v), s + 2);
      printf("]");
      return end + 1;
    }
    case 'L': {
      const char* end = Skip(s + 2);
      printf("[");
      for (size_t i = 0; FbleUnionValueTag(v) == 0; ++i) {
        FbleValue* c = FbleUnionValueArg(v);
        if (i) printf(",");
        Show(FbleStructValueField(c, 0), s + 2);
        v = FbleStructValueField(c, 1);
      }
      printf("]");
      return end + 1;
    }
    default: Bad(s); return s;
  }
}

static void Line(char* line)
{
  p = line + 1;
  aborted = false;
  FbleValue* v = Expr();
  if (aborted) v = NULL;
  if (*line == '=') { vars[nvars++] = v; printf(v ? "D\n" : "A\n"); return; }
  char* shape = Word();
  if (v == NULL) { printf("A\n"); return; }
  printf("V ");
  Show(v, shape);
  printf("\n");
}

int main(int argc, char* argv[])
{
  struct rlimit lim = { RLIM_INFINITY, RLIM_INFINITY };
  setrlimit(RLIMIT_STACK, &lim);
  if (getenv("VALCALC_STACK") == NULL) { setenv("VALCALC_STACK", "1", 1); execv("/proc/self/exe", argv); }
  FbleSearchPath* path = FbleNewSearchPath();
  for (int i = 3; i < argc; ++i) FbleAppendToSearchPath(path, argv[i]);
  profile = FbleNewProfile(false);
  heap = FbleNewValueHeap();
  FbleModulePath* mp = FbleParseModulePath(argv[1]);
  FbleValue* linked = FbleLink(heap, profile, NULL, path, mp);
  if (linked == NULL) { printf("UNLINKED\n"); fflush(stdout); _exit(2); }
  module = FbleEval(heap, linked, profile);
  if (module == NULL) { printf("ABORTED\n"); fflush(stdout); _exit(2); }
  FILE* in = fopen(argv[2], "r");
  int killed = 0;
  char* line = NULL; size_t cap = 0; ssize_t n = getline(&line, &cap, in);
  while (n > 0) {
    printf("%s", line);
    /* the lines of the job */
    char** xs = NULL; size_t k = 0;
    while ((n = getline(&line, &cap, in)) > 0 && *line != 'J') {
      line[strcspn(line, "\n")] = '\0';
      xs = realloc(xs, (k + 1) * sizeof(char*));
      xs[k++] = strdup(line);
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit cpu = { 20, 20 }, mem = { 3ul << 30, 3ul << 30 };
      setrlimit(RLIMIT_CPU, &cpu);
      setrlimit(RLIMIT_AS, &mem);
      for (size_t i = 0; i < k; ++i) { Line(xs[i]); fflush(stdout); }
      fflush(stdout);
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (status != 0) printf("X %d\n", status);
    if (WIFSIGNALED(status) && ++killed == 4) { printf("STOP\n"); fflush(stdout); _exit(0); }
    for (size_t i = 0; i < k; ++i) free(xs[i]);
    free(xs);
  }
  printf("END\n");
  fflush(stdout);
  _exit(0);
}
