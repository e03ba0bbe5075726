// Drives the real value heap with scripts written by the Heap specification.
// usage: heaprun <file> ; scripts in the file are separated by lines "script <id>".
// Prints "<id> ok" or "<id> FAIL <line>: <why>" for each.
#define _GNU_SOURCE
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-string.h>
#include <fble/fble-loc.h>
#include <fble/fble-value.h>

#define MAXN 20000
typedef struct { size_t id; int made; int freed; } Native;
static Native natives[MAXN];
static FbleValue* regs[MAXN];
static char** lines; static size_t nlines, at;
static FbleValueHeap* heap;
static FbleProfile* prof;
static int loopmode = 0;
static size_t loop_limit = 0, loop_count = 0, loop_at = 0;
static int result_fd;

static void Fail(const char* fmt, ...)
{
  char b[1000]; va_list ap; va_start(ap, fmt);
  int n = snprintf(b, sizeof b, "FAIL line %zu (%.80s): ", at, at >= 1 && at <= nlines ? lines[at-1] : "");
  vsnprintf(b + n, sizeof b - n, fmt, ap); va_end(ap);
  for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
  if (write(result_fd, b, strlen(b)) < 0) {}
  _exit(9);
}
static void OnFree(void* data)
{
  Native* n = data;
  if (!n->made) Fail("finalizer of a native that was never made");
  n->freed++;
  if (n->freed > 1 && !loopmode) Fail("native %zu finalized twice", n->id);
}
static char* Next(const char* op, char** rest)
{
  if (at >= nlines) Fail("script ended early, wanted %s", op ? op : "a line");
  static char buf[100000];
  char* l = lines[at++];
  snprintf(buf, sizeof buf, "%s", l);
  char* r = strchr(buf, ' ');
  if (r) { *r = 0; r++; } else r = buf + strlen(buf);
  if (op && strcmp(buf, op) != 0) Fail("the implementation expects '%s' here", op);
  *rest = r;
  return buf;
}
static bool Num(char** r, long* v)
{
  char* e; *v = strtol(*r, &e, 10);
  if (e == *r) return false;
  *r = e; return true;
}
static long Need(char** r) { long v; if (!Num(r, &v)) Fail("bad script"); return v; }
static FbleValue* Reg(long r) { if (r <= 0 || !regs[r]) Fail("register %ld is empty", r); return regs[r]; }
static size_t Args(char** r, FbleValue** xs) { size_t n = 0; long v; while (Num(r, &v)) xs[n++] = Reg(v); return n; }

static char* Tok(char** r)
{
  while (**r == ' ') (*r)++;
  char* t = *r; while (**r && **r != ' ') (*r)++;
  if (**r) { **r = 0; (*r)++; }
  return t;
}
static void Walk(FbleValue* v, char** r)
{
  char* t = Tok(r);
  if (!*t) Fail("bad walk");
  if (*t == '.') return;
  if (v == NULL) Fail("value is missing where the specification has one");
  if (*t == 'X') {
    if (FbleFuncValueFunction(v) != NULL) Fail("value is defined where the specification has it undefined");
    return;
  }
  if (*t == 'S') {
    long n = atol(Tok(r));
    for (long i = 0; i < n; ++i) Walk(FbleStructValueField(v, i), r);
  } else if (*t == 'U') {
    size_t tag = atol(Tok(r));
    size_t got = FbleUnionValueTag(v);
    if (got != tag) Fail("union tag is %zd, specified %zd", got, tag);
    FbleValue* a = FbleUnionValueArg(v);
    FbleValue* b = FbleUnionValueField(v, tag);
    if (FbleUnionValueField(v, tag + 1) != FbleWrongUnionTag) Fail("wrong field of a union is selected");
    if (a != b) Fail("union argument and field differ");
    Walk(a, r);
  } else if (*t == 'F') {
    size_t id = atol(Tok(r)); long ar = atol(Tok(r)); long n = atol(Tok(r));
    FbleFunction* f = FbleFuncValueFunction(v);
    if (f == NULL) Fail("function is undefined");
    if (!loopmode && f->profile_block_id != id) Fail("function is %zu, specified %zu", (size_t)f->profile_block_id, id);
    if ((long)f->executable.num_args != ar) Fail("function takes %zu arguments, specified %ld", f->executable.num_args, ar);
    if ((long)f->executable.num_statics != n) Fail("function has %zu statics, specified %ld", f->executable.num_statics, n);
    for (long i = 0; i < n; ++i) Walk(FbleFuncValueFunction(v)->statics[i], r);
  } else if (*t == 'D') {
    long n = atol(Tok(r));
    for (long i = 0; i < n; ++i) {
      if (v == NULL) Fail("deep list is cut short");
      if (FbleUnionValueTag(v) != 0) Fail("deep list has %ld elements, specified %ld", i, n);
      FbleValue* c = FbleUnionValueArg(v);
      if (FbleUnionValueTag(FbleStructValueField(c, 0)) != (size_t)(i % 90)) Fail("element %ld of a deep list changed", i);
      v = FbleStructValueField(c, 1);
    }
    if (FbleUnionValueTag(v) != 1) Fail("deep list is too long");
  } else if (*t == 'V') {
    long n = atol(Tok(r));
    static int inside = 0;
    if (inside) { Walk(FbleStructValueField(v, n - 1), r); return; }
    inside = 1;
    char* save = strdup(*r); char* q;
    char* copy = strdup(save); q = copy; Walk(FbleStructValueField(v, 0), &q); free(copy);
    copy = strdup(save); q = copy; Walk(FbleStructValueField(v, n / 2), &q); free(copy);
    free(save);
    Walk(FbleStructValueField(v, n - 1), r);
    inside = 0;
  } else if (*t == 'P') {
    long ar = atol(Tok(r));
    FbleFunction* f = FbleFuncValueFunction(v);
    if (f == NULL) Fail("function is undefined");
    if ((long)f->executable.num_args != ar) Fail("partial application takes %zu arguments, specified %ld", f->executable.num_args, ar);
  } else if (*t == 'N') {
    size_t id = atol(Tok(r));
    Native* n = FbleNativeValueData(v);
    if (n < natives || n >= natives + MAXN) Fail("native data changed");
    if (n->id != id) Fail("native is %zu, specified %zu", n->id, id);
    if (n->freed && !loopmode) Fail("native %zu is reachable but was finalized", id);
  } else Fail("bad walk token %s", t);
}

static FbleValue* ScriptRun(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** args);
static off_t err_seen = 0;      // how much of the error output has been accounted for
static void Done(long dst, FbleValue* v)
{
  char* r; Next("done", &r);
  long d = Need(&r), ok = Need(&r);
  char* how = Tok(&r);
  off_t err = lseek(2, 0, SEEK_END);
  if (*how == 'u' && err == err_seen) Fail("applying an undefined function is not reported");
  if (*how != 'u' && err != err_seen) Fail("an error is reported where the specification has none");
  err_seen = err;
  if (d != dst) Fail("result of another call");
  if (ok && v == NULL) Fail("the application aborted, specified a result");
  if (!ok && v != NULL) Fail("the application has a result, specified an abort");
  regs[dst] = v;
}

// What the previous iteration handed over is still what it was.
static size_t again_at = 0;
static void CheckCarried()
{
  static char buf[100000];
  size_t save = at;
  for (size_t i = again_at; i < nlines && !strncmp(lines[i], "carry ", 6); ++i) {
    at = i + 1;
    snprintf(buf, sizeof buf, "%s", lines[i] + 6);
    char* r = buf; Need(&r); long reg = Need(&r);
    Walk(Reg(reg), &r);
  }
  at = save;
}

// Runs lines until the running function ends (returns its result through *result) or the script does.
static bool Body(FbleProfileThread* p, FbleFunction* self, FbleValue** result)
{
  FbleValue* xs[64];
  while (true) {
    char* r; char* op = Next(NULL, &r);
    if (!strcmp(op, "struct")) { long d = Need(&r); size_t n = Args(&r, xs); regs[d] = FbleNewStructValue(heap, n, xs); }
    else if (!strcmp(op, "union")) { long d = Need(&r), t = Need(&r), a = Need(&r); regs[d] = FbleNewUnionValue(heap, t, Reg(a)); }
    else if (!strcmp(op, "enum")) { long d = Need(&r), t = Need(&r); regs[d] = FbleNewEnumValue(heap, t); }
    else if (!strcmp(op, "list")) { long d = Need(&r); size_t n = Args(&r, xs); regs[d] = FbleNewListValue(heap, n, xs); }
    else if (!strcmp(op, "literal")) {
      long d = Need(&r), v; size_t ts[64], n = 0; while (Num(&r, &v)) ts[n++] = v;
      regs[d] = FbleNewLiteralValue(heap, n, ts);
    }
    else if (!strcmp(op, "deep")) {
      long d = Need(&r), n = Need(&r); FbleValue** ys = malloc(n * sizeof(FbleValue*));
      for (long i = 0; i < n; ++i) ys[i] = FbleNewEnumValue(heap, i % 90);
      regs[d] = FbleNewListValue(heap, n, ys); free(ys);
    }
    else if (!strcmp(op, "wide")) {
      long d = Need(&r), n = Need(&r), a = Need(&r); FbleValue** ys = malloc(n * sizeof(FbleValue*));
      for (long i = 0; i < n; ++i) ys[i] = Reg(a);
      regs[d] = FbleNewStructValue(heap, n, ys); free(ys);
    }
    else if (!strcmp(op, "native")) {
      long d = Need(&r), id = Need(&r);
      natives[id].id = id; natives[id].made++;
      regs[d] = FbleNewNativeValue(heap, &natives[id], &OnFree);
    }
    else if (!strcmp(op, "ref")) { long d = Need(&r); regs[d] = FbleNewRefValue(heap); }
    else if (!strcmp(op, "func")) {
      long d = Need(&r), id = Need(&r), ar = Need(&r); size_t n = Args(&r, xs);
      FbleExecutable exe = { .num_args = ar, .num_statics = n, .run = &ScriptRun };
      regs[d] = FbleNewFuncValue(heap, &exe, id, xs);
    }
    else if (!strcmp(op, "assign")) {
      long d = Need(&r), v = Need(&r), ok = Need(&r);
      bool got = FbleAssignRefValue(heap, Reg(d), Reg(v));
      if (got != (ok != 0)) Fail("assigning the reference %s", got ? "succeeded, specified vacuous" : "failed, specified to succeed");
    }
    else if (!strcmp(op, "field") || !strcmp(op, "ufield")) {
      bool u = *op == 'u';
      long o = Need(&r), i = Need(&r), d = Need(&r); char* t = Tok(&r);
      FbleValue* v = u ? FbleUnionValueField(Reg(o), i) : FbleStructValueField(Reg(o), i);
      if (*t == 'U') { if (v != NULL) Fail("access to an undefined value gives a value"); }
      else if (*t == 'W') { if (v != FbleWrongUnionTag) Fail("wrong union field gives a value"); }
      else { if (v == NULL || v == FbleWrongUnionTag) Fail("access fails"); regs[d] = v; }
    }
    else if (!strcmp(op, "uarg")) {
      long o = Need(&r), tag = Need(&r), d = Need(&r); char* t = Tok(&r);
      if (FbleUnionValueTag(Reg(o)) != (size_t)tag) Fail("union tag is %zd", FbleUnionValueTag(Reg(o)));
      FbleValue* v = FbleUnionValueArg(Reg(o));
      if (*t == 'U') { if (v != NULL) Fail("argument of an undefined union"); }
      else { if (v == NULL) Fail("access fails"); regs[d] = v; }
    }
    else if (!strcmp(op, "static")) {
      long o = Need(&r), i = Need(&r), d = Need(&r); char* t = Tok(&r);
      FbleFunction* f = FbleFuncValueFunction(Reg(o));
      if (*t == 'U') { if (f != NULL) Fail("undefined function is defined"); }
      else { if (f == NULL) Fail("function undefined"); regs[d] = f->statics[i]; }
    }
    else if (!strcmp(op, "push")) { FblePushFrame(heap); }
    else if (!strcmp(op, "pop")) {
      long v = Need(&r), d = Need(&r);
      FbleValue* x = FblePopFrame(heap, v == 0 ? NULL : Reg(v));
      if (v == 0) { if (x != NULL) Fail("pop of nothing gives a value"); } else { if (x == NULL) Fail("popped value lost"); regs[d] = x; }
    }
    else if (!strcmp(op, "apply") || !strcmp(op, "call")) {
      bool top = *op == 'a';
      long d = Need(&r), f = Need(&r); size_t n = Args(&r, xs);
      FbleValue* ys[64]; memcpy(ys, xs, sizeof ys);
      FbleValue* v = top ? FbleApply(heap, Reg(f), n, ys, prof) : FbleCall(heap, p, Reg(f), n, ys);
      Done(d, v);
    }
    else if (!strcmp(op, "ret")) {
      if (!self) Fail("bad script: ret");
      long v = Need(&r); *result = v == 0 ? NULL : Reg(v); return true;
    }
    else if (!strcmp(op, "tail")) {
      if (!self) Fail("bad script: tail");
      long f = Need(&r); size_t n = Args(&r, xs);
      *result = FbleTailCall(heap, self, Reg(f), n, xs); return true;
    }
    else if (!strcmp(op, "copy")) { long d = Need(&r), a = Need(&r); regs[d] = Reg(a); }
    else if (!strcmp(op, "carry")) { }
    else if (!strcmp(op, "again")) {       // loop through a tail call
      long f = Need(&r); size_t n = Args(&r, xs);
      if (loop_count > 0) CheckCarried();
      if (++loop_count < loop_limit) { again_at = at; at = loop_at; *result = FbleTailCall(heap, self, Reg(f), n, xs); return true; }
    }
    else if (!strcmp(op, "loop")) { loop_count = 0; loop_at = at; }
    else if (!strcmp(op, "endloop")) { if (++loop_count < loop_limit) at = loop_at; }
    else if (!strcmp(op, "tick")) { long n = Need(&r); for (long i = 0; i < n; ++i) FbleNewRefValue(heap); }
    else if (!strcmp(op, "gc")) {
      FbleValueFullGc(heap); long id;
      while (Num(&r, &id)) if (natives[id].freed != 1 && !loopmode) Fail("native %ld is unreachable, but not finalized by a full collection", id);
    }
    else if (!strcmp(op, "live")) { long id; while (Num(&r, &id)) if (natives[id].freed && !loopmode) Fail("native %ld was finalized while reachable", id); }
    else if (!strcmp(op, "show")) { long v = Need(&r); FbleValue* x = Reg(v); Walk(x, &r); }
    else if (!strcmp(op, "mine")) { for (size_t i = 0; i < self->executable.num_statics; ++i) Walk(self->statics[i], &r); }
    else if (!strcmp(op, "nop") || !strcmp(op, "mark")) { }
    else if (!strcmp(op, "self")) { long d = Need(&r); regs[d] = self->statics[0]; }
    else if (!strcmp(op, "end")) {
      if (self) Fail("bad script: end in a call");
      at--; return false;
    }
    else Fail("the implementation does not expect this here");
  }
}
static FbleValue* ScriptRun(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** args)
{
  // the body of the loop starts at the entry that precedes the mark
  if (loopmode) for (size_t i = at; i < at + 4 && i < nlines; ++i) if (!strcmp(lines[i], "mark")) loop_at = at;
  char* r; Next("enter", &r);
  long id = Need(&r), ns = Need(&r);
  if (!loopmode && (long)f->profile_block_id != id) Fail("function %zu runs, specified %ld", (size_t)f->profile_block_id, id);
  if ((long)f->executable.num_statics != ns) Fail("function has %zu statics, specified %ld", f->executable.num_statics, ns);
  size_t n = 0; long v;
  while (Num(&r, &v)) regs[v] = args[n++];
  if (n != f->executable.num_args) Fail("function is run with %zu arguments, specified %zu", f->executable.num_args, n);
  if (loopmode && loop_count > 0 && f->executable.num_statics > 0) {
    for (size_t i = at; i < at + 4 && i < nlines; ++i) if (!strcmp(lines[i], "mark")) CheckCarried();
  }
  FbleValue* result = NULL;
  Body(p, f, &result);
  return result;
}

static void RunScript(bool profiling)
{
  prof = FbleNewProfile(profiling);
  for (int i = 0; i < (profiling ? 2000 : 1); ++i) {
    FbleName name = { .name = FbleNewString("b"), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleNewLoc("x", 1, 1) };
    FbleAddBlockToProfile(prof, name);
  }
  heap = FbleNewValueHeap();
  at = 0;
  Body(NULL, NULL, NULL);
  FbleFreeValueHeap(heap);
  char* r; Next("end", &r); long id;
  while (Num(&r, &id)) if (natives[id].freed != natives[id].made) Fail("native %ld finalized %d times when the heap was freed", id, natives[id].freed);
  FbleFreeProfile(prof);
}

int main(int argc, char** argv)
{
  if (argc > 2) loopmode = 1;
  FILE* f = fopen(argv[1], "r");
  if (f == NULL) return 2;
  fseek(f, 0, SEEK_END); long size = ftell(f); rewind(f);
  char* text = malloc(size + 1);
  if (fread(text, 1, size, f) != (size_t)size) return 2;
  text[size] = 0;
  fclose(f);
  size_t total = 0;
  for (char* p = text; *p; ++p) if (*p == '\n') { *p = 0; total++; }
  char** all = malloc(sizeof(char*) * (total + 1));
  char* p = text;
  for (size_t i = 0; i < total; ++i) { all[i] = p; p += strlen(p) + 1; }
  for (size_t i = 0; i < total; ) {
    long id;
    if (sscanf(all[i], "script %ld", &id) != 1) return 2;
    lines = all + ++i; nlines = 0;
    while (i < total && strncmp(all[i], "script ", 7)) { i++; nlines++; }
    int reps = loopmode ? argc - 2 : 1;
    for (int k = 0; k < reps; ++k) {
      if (loopmode) loop_limit = atol(argv[2 + k]);
      static int failures = 0;
      if (failures >= 2) { printf("%ld ok 0 skipped\n", id); continue; }
      int fds[2]; if (pipe(fds)) return 2;
      fflush(stdout);
      pid_t pid = getenv("NOFORK") ? 0 : fork();
      if (pid == 0) {
        close(fds[0]); result_fd = fds[1];
        alarm(5);
        FILE* errs = tmpfile();
        dup2(fileno(errs), 2);
        RunScript(id % 2);
        char b[100]; snprintf(b, sizeof b, "ok %zu", FbleMaxTotalBytesAllocated());
        if (write(result_fd, b, strlen(b)) < 0) {}
        fclose(errs);
        exit(0);
      }
      close(fds[1]);
      char b[1200]; size_t m = 0; ssize_t g;
      while ((g = read(fds[0], b + m, sizeof b - 1 - m)) > 0) m += g;
      b[m] = 0; close(fds[0]);
      int st; waitpid(pid, &st, 0);
      bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!good) failures++;
      if (good || !strncmp(b, "FAIL", 4)) printf("%ld %s\n", id, b);
      else printf("%ld FAIL crashed or leaked (status %d) %s\n", id, st, b);
    }
  }
  free(all); free(text);
  return 0;
}
