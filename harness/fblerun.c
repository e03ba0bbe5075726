/* Runs fble programs and prints what is observable of each.
 *
 *  fblerun run ROOT JOBS        each job: "id<tab>flags<tab>module<tab>shape"
 *  fblerun gen ROOT JOBS OUT    writes the C code of each job's modules to OUT/<id>_<k>.c
 *  fblerun load - JOBS          each job: "id<tab>-<tab>module<tab>dir:dir.."; prints also "D file read"
 *
 * flags: p: with profiling; m: the value is a function of enums, applied to each list of the
 * fifth column "0,1;2,3;.." (the shapes of the results are separated by ; too), printing for each "V value" and "M bytes stack": the most memory
 * and the most C stack the application used.  shape: what the value looks like, - if unknown:
 * Sn(..) struct, Ut/n(..) union, anything else: not looked into.
 * Compiled with -DCOMPILED, run uses the compiled modules of fblerun_table.
 *
 * Output: "J id", then lines "O module" (load order), "R outcome" and
 * "V value", "P count line col block source", "X wait-status", and
 * "E n" followed by n bytes: what was written to stderr.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fble/fble-alloc.h>
#include <fble/fble-compile.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-loc.h>
#include <fble/fble-module-path.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-string.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>

#ifdef COMPILED
typedef struct { const char* id; FbleGeneratedModule** module; } Entry;
extern Entry fblerun_table[];
#endif

/* Prints v as s describes it; returns the rest of s. */
static const char* Skip(const char* s)
{
  int depth = 0;
  while (*s) {
    if (*s == '(') depth++;
    if (*s == ')') { if (depth == 0) return s; if (--depth == 0) return s + 1; }
    if (*s == ',' && depth == 0) return s;
    s++;
  }
  return s;
}

static const char* Show(FILE* out, FbleValue* v, const char* s)
{
  if (v == NULL) { fprintf(out, "NULL"); return Skip(s); }
  if (*s == 'S') {
    char* e; size_t n = strtoul(s + 1, &e, 10);
    s = e + 1;
    fprintf(out, "S%zu(", n);
    for (size_t i = 0; i < n; ++i) {
      if (i) { fputc(',', out); s++; }
      s = Show(out, FbleStructValueField(v, i), s);
    }
    fputc(')', out);
    return s + 1;
  }
  if (*s == 'U') {
    char* e; size_t t = strtoul(s + 1, &e, 10);
    size_t n = strtoul(e + 1, &e, 10);
    size_t got = FbleUnionValueTag(v);
    fprintf(out, "U%zu/%zu(", got, n);
    if (got != t) { fprintf(out, "?)"); return Skip(s); }
    s = Show(out, FbleUnionValueArg(v), e + 1);
    fputc(')', out);
    return s + 1;
  }
  fputc(*s, out);
  return s + 1;
}

/* Prints a name on one line: a new line in it is printed as the byte 1. */
static void PrintName(FILE* out, FbleName name)
{
  char* words = NULL;
  size_t size = 0;
  FILE* mem = open_memstream(&words, &size);
  FblePrintName(mem, name);
  fclose(mem);
  for (size_t i = 0; i < size; ++i) fputc(words[i] == '\n' ? 1 : words[i], out);
  free(words);
}

static void Order(FILE* out, FbleLoadedProgram* p)
{
  for (size_t i = 0; i < p->modules.size; ++i) {
    fprintf(out, "O ");
    FblePrintModulePath(out, p->modules.xs[i].path);
    fprintf(out, "\n");
  }
}

/* Applies a function to enums on a stack of its own. */
#define STACK_SIZE ((size_t)256 << 20)
typedef struct { FILE* out; FbleValueHeap* heap; FbleValue* func; FbleProfile* profile; const char* shape; const char* args; size_t max; } Job;
static void* Apply(void* data)
{
  Job* job = (Job*)data;
  FblePushFrame(job->heap);
  FbleValue* args[64];
  size_t argc = 0;
  for (const char* s = job->args; *s && *s != ';' && argc < 64; ) {
    char* e;
    args[argc++] = FbleNewEnumValue(job->heap, strtoul(s, &e, 10));
    s = *e == ',' ? e + 1 : e;
  }
  FbleResetMaxTotalBytesAllocated();
  FbleValue* v = FbleApply(job->heap, job->func, argc, args, job->profile);
  job->max = FbleMaxTotalBytesAllocated();
  if (v == NULL) {
    fprintf(job->out, "V abort\n");
  } else {
    fprintf(job->out, "V ");
    Show(job->out, v, job->shape);
    fprintf(job->out, "\n");
  }
  FblePopFrame(job->heap, NULL);
  return NULL;
}

static void Measure(FILE* out, FbleValueHeap* heap, FbleValue* func, FbleProfile* profile, const char* shape, const char* lists)
{
  for (const char* s = lists; *s; ) {
    Job job = { out, heap, func, profile, shape, s, 0 };
    char* stack = mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    assert(stack != MAP_FAILED);
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, stack, STACK_SIZE);
    pthread_t thread;
    int rc = pthread_create(&thread, &attr, Apply, &job);
    assert(rc == 0);
    (void)rc;
    pthread_join(thread, NULL);
    pthread_attr_destroy(&attr);
    /* The pages that were touched are at the top, without gaps larger than one big frame. */
    unsigned char in[STACK_SIZE / 4096];
    mincore(stack, STACK_SIZE, in);
    size_t low = 0;
    while (low < STACK_SIZE / 4096 && !(in[low] & 1)) low++;
    size_t k = low * 4096;
    while (k < STACK_SIZE && stack[k] == 0) k++;
    fprintf(out, "M %zu %zu\n", job.max, STACK_SIZE - k);
    munmap(stack, STACK_SIZE);
    const char* next = strchr(shape, ';');
    if (next != NULL) shape = next + 1;
    s = strchr(s, ';');
    if (s == NULL) break;
    s++;
  }
}

static void Run(FILE* out, const char* root, const char* id, const char* flags, const char* module, const char* shape, const char* lists)
{
  (void)id;
  FbleModulePath* path = FbleParseModulePath(module);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, root);
  FbleGeneratedModule* gen = NULL;
#ifdef COMPILED
  for (Entry* e = fblerun_table; e->id != NULL; ++e) {
    if (strcmp(e->id, id) == 0) gen = *e->module;
  }
  assert(gen != NULL);
#else
  /* The order of loading; what it writes to stderr is discarded. */
  fflush(stderr);
  int keep = dup(2);
  FILE* drop = tmpfile();
  dup2(fileno(drop), 2);
  FbleLoadedProgram* loaded = FbleLoad(sp, path, NULL);
  fflush(stderr);
  dup2(keep, 2);
  close(keep);
  fclose(drop);
  if (loaded) {
    Order(out, loaded);
    FbleFreeLoadedProgram(loaded);
  }
  bool unloadable = loaded == NULL;
#endif
  FbleProfile* profile = FbleNewProfile(strchr(flags, 'p') != NULL);
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* linked = FbleLink(heap, profile, gen, gen ? NULL : sp, gen ? NULL : path);
  FbleFreeSearchPath(sp);
  FbleFreeModulePath(path);
  if (linked == NULL) {
#ifndef COMPILED
    fprintf(out, "R %s\n", unloadable ? "unloadable" : "rejected");
#else
    fprintf(out, "R rejected\n");
#endif
  } else {
#ifndef COMPILED
    if (unloadable) fprintf(out, "R inconsistent\n");
#endif
    FbleValue* v = strchr(flags, 'c') ? NULL : FbleEval(heap, linked, profile);
    if (strchr(flags, 'c')) {
      fprintf(out, "R accepted\n");
    } else if (v == NULL) {
      fprintf(out, "R abort\n");
    } else if (strchr(flags, 'm')) {
      fprintf(out, "R value\n");
      Measure(out, heap, v, profile, shape, lists);
    } else {
      fprintf(out, "R value\nV ");
      Show(out, v, shape);
      fprintf(out, "\n");
    }
    for (size_t i = 0; i < profile->blocks.size; ++i) {
      FbleBlockProfile* b = profile->blocks.xs[i];
      fprintf(out, "P %lu %zu %zu ", (unsigned long)b->block.count, (size_t)b->name.loc.line, (size_t)b->name.loc.col);
      PrintName(out, b->name);
      fprintf(out, "\t%s\n", b->name.loc.source ? b->name.loc.source->str : "");
    }
  }
  FbleFreeValueHeap(heap);
  FbleFreeProfile(profile);
}

/* As fble-compile does: each module is loaded and compiled by itself. */
static void Gen(FILE* out, const char* root, const char* id, const char* module, const char* dir, bool a64)
{
  FbleModulePath* path = FbleParseModulePath(module);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, root);
  FbleLoadedProgram* all = FbleLoad(sp, path, NULL);
  size_t n = all ? all->modules.size : 0;
  bool ok = n > 0;
  for (size_t i = 0; i < n; ++i) {
    FbleModulePath* mine = all->modules.xs[i].path;
    FbleLoadedProgram* loaded = FbleLoad(sp, mine, NULL);
    FbleCompiledModule* m = loaded ? FbleCompileModule(loaded) : NULL;
    if (m != NULL) {
      char name[strlen(dir) + strlen(id) + 40];
      sprintf(name, "%s/%s_%zu.%s", dir, id, i, a64 ? "a64" : "c");
      FILE* f = fopen(name, "w");
      assert(f != NULL);
      if (a64) FbleGenerateAArch64(f, m);
      else FbleGenerateC(f, m);
      if (i + 1 == n) {
        char export[strlen(id) + 40];
        sprintf(export, "fblerun_main_%s", id);
        if (a64) FbleGenerateAArch64Export(f, export, mine);
        else FbleGenerateCExport(f, export, mine);
        sprintf(name, "%s/%s.main", dir, id);
        FILE* g = fopen(name, "w");
        assert(g != NULL);
        if (a64) FbleGenerateAArch64Main(g, "fblerun_entry", mine);
        else FbleGenerateCMain(g, "fblerun_entry", mine);
        fclose(g);
      }
      fclose(f);
      FbleFreeCompiledModule(m);
    } else {
      ok = false;
    }
    if (loaded) FbleFreeLoadedProgram(loaded);
  }
  fprintf(out, "R %s\n", ok ? "compiled" : "rejected");
  if (all) FbleFreeLoadedProgram(all);
  FbleFreeSearchPath(sp);
  FbleFreeModulePath(path);
}

/* Loads a module: what is loaded and the files read. */
static void Load(FILE* out, const char* module, char* dirs)
{
  FbleModulePath* path = FbleParseModulePath(module);
  FbleSearchPath* sp = FbleNewSearchPath();
  for (char* d = strtok(dirs, ":"); d != NULL; d = strtok(NULL, ":")) FbleAppendToSearchPath(sp, d);
  FbleStringV deps;
  FbleInitVector(deps);
  FbleLoadedProgram* p = FbleLoad(sp, path, &deps);
  fprintf(out, "R %s\n", p == NULL ? "unloadable" : "loaded");
  if (p != NULL) Order(out, p);
  for (size_t i = 0; i < deps.size; ++i) {
    fprintf(out, "D %s\n", deps.xs[i]->str);
    FbleFreeString(deps.xs[i]);
  }
  FbleFreeVector(deps);
  FbleFreeLoadedProgram(p);
  FbleFreeSearchPath(sp);
  FbleFreeModulePath(path);
}

int main(int argc, char** argv)
{
  assert(argc >= 4);
  bool a64 = strcmp(argv[1], "gena64") == 0;
  bool gen = strcmp(argv[1], "gen") == 0 || a64;
  bool load = strcmp(argv[1], "load") == 0;
  const char* sep = "\t";
  FILE* jobs = fopen(argv[3], "r");
  assert(jobs != NULL);
  char* line = NULL;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, jobs)) > 0) {
    if (line[len - 1] == '\n') line[len - 1] = 0;
    char* id = strtok(line, sep);
    char* flags = strtok(NULL, sep);
    char* module = strtok(NULL, sep);
    char* shape = strtok(NULL, sep);
    if (id == NULL || module == NULL) continue;
    char* lists = shape ? strtok(NULL, sep) : NULL;
    if (shape == NULL) shape = "-";
    if (lists == NULL) lists = "";
    printf("J %s\n", id);
    fflush(stdout);
    FILE* err = tmpfile();
    assert(err != NULL);
    pid_t pid = fork();
    assert(pid >= 0);
    if (pid == 0) {
      fclose(jobs);
      dup2(fileno(err), 2);
      fclose(err);
      alarm(60);
      struct rlimit rl = { 4ul << 30, 4ul << 30 };
#ifndef __SANITIZE_ADDRESS__
      setrlimit(RLIMIT_AS, &rl);
#endif
      (void)rl;
      if (load) {
        Load(stdout, module, shape);
      } else if (gen) {
        Gen(stdout, argv[2], id, module, argv[4], a64);
      } else {
        Run(stdout, argv[2], id, flags, module, shape, lists);
      }
      fflush(stdout);
      exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    printf("X %d\n", status);
    fseek(err, 0, SEEK_END);
    long n = ftell(err);
    rewind(err);
    printf("E %ld\n", n);
    char buf[4096];
    size_t m;
    while ((m = fread(buf, 1, sizeof(buf), err)) > 0) fwrite(buf, 1, m, stdout);
    printf("\n");
    fclose(err);
    fflush(stdout);
  }
  free(line);
  fclose(jobs);
  return 0;
}
