// Drives the profiler through histories and prints what it recorded.
//   profrun FILE
// A history is: "hist ID ON FACTOR SEED", events ("block NAME SOURCE LINE COL", "blocks N" followed by N "block" lines,
// "thread", "free T", "enter T B", "replace T B", "exit T", "sample T TIME", "random T COUNT"), "end".
// Sample times are multiplied by FACTOR; recorded times are divided by it ("bad" is printed if that leaves a rest).
#include <assert.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fble/fble-alloc.h>
#include <fble/fble-loc.h>
#include <fble/fble-name.h>
#include <fble/fble-profile.h>
#include <fble/fble-string.h>
#include <fble/fble-vector.h>

static uint64_t factor;
static int bad;
static uint64_t scale(uint64_t t) { if (t % factor) bad = 1; return t / factor; }
static uint64_t selfs(FbleProfile* p) {
  uint64_t s = 0;
  for (size_t i = 0; i < p->blocks.size; ++i) s += p->blocks.xs[i]->self;
  return s;
}
static FbleName name(FILE* f) {
  char n[200], src[200]; int line, col;
  assert(fscanf(f, "%199s %199s %d %d", n, src, &line, &col) == 4);
  FbleName r = { .name = FbleNewString(n), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleNewLoc(src, line, col) };
  return r;
}

int main(int argc, char** argv)
{
  FILE* f = fopen(argv[1], "r");
  char word[200];
  while (fscanf(f, "%199s", word) == 1) {
    assert(strcmp(word, "hist") == 0);
    long id; int on; unsigned seed;
    assert(fscanf(f, "%ld %d %" SCNu64 " %u", &id, &on, &factor, &seed) == 4);
    srand(seed);
    bad = 0;
    FbleProfile* p = FbleNewProfile(on);
    FbleProfileThread* ts[16]; size_t tc = 0;
    printf("%ld ", id);
    while (fscanf(f, "%199s", word) == 1 && strcmp(word, "end") != 0) {
      size_t t, b; uint64_t u;
      if (strcmp(word, "block") == 0) { FbleAddBlockToProfile(p, name(f)); continue; }
      if (strcmp(word, "blocks") == 0) {
        FbleNameV v; int k; size_t before = p->blocks.size;
        FbleInitVector(v);
        assert(fscanf(f, "%d", &k) == 1);
        for (int i = 0; i < k; ++i) { assert(fscanf(f, "%199s", word) == 1); FbleAppendToVector(v, name(f)); }
        if (FbleAddBlocksToProfile(p, v) != before) bad = 1;
        for (int i = 0; i < k; ++i) FbleFreeName(v.xs[i]);
        FbleFreeVector(v);
        continue;
      }
      if (strcmp(word, "thread") == 0) { ts[tc] = FbleNewProfileThread(p); if ((ts[tc] == NULL) != !on) bad = 1; tc++; continue; }
      assert(fscanf(f, "%zu", &t) == 1); t--;
      if (strcmp(word, "free") == 0) { FbleFreeProfileThread(ts[t]); ts[t] = NULL; }
      else if (strcmp(word, "enter") == 0) { assert(fscanf(f, "%zu", &b) == 1); FbleProfileEnterBlock(ts[t], b); }
      else if (strcmp(word, "replace") == 0) { assert(fscanf(f, "%zu", &b) == 1); FbleProfileReplaceBlock(ts[t], b); }
      else if (strcmp(word, "exit") == 0) FbleProfileExitBlock(ts[t]);
      else if (strcmp(word, "sample") == 0) { assert(fscanf(f, "%" SCNu64, &u) == 1); FbleProfileSample(ts[t], u * factor); }
      else if (strcmp(word, "random") == 0) {
        uint64_t before = selfs(p);
        assert(fscanf(f, "%" SCNu64, &u) == 1); FbleProfileRandomSample(ts[t], u);
        printf("r%" PRIu64 " ", selfs(p) - before);
      }
      else assert(0);
    }
    for (size_t i = 0; i < tc; ++i) FbleFreeProfileThread(ts[i]);
    printf("table");
    for (size_t i = 0; i < p->blocks.size; ++i) {
      FbleBlockProfile* k = p->blocks.xs[i];
      if (k->block.id != i) bad = 1;
      printf(" %" PRIu64 " %" PRIu64 " %" PRIu64 " %zu", scale(k->self), k->block.count, scale(k->block.time), k->callees.size);
      for (size_t j = 0; j < k->callees.size; ++j)
        printf(" %zu %" PRIu64 " %" PRIu64, k->callees.xs[j]->id, k->callees.xs[j]->count, scale(k->callees.xs[j]->time));
    }
    printf(" %s\n", bad ? "bad" : "end");
    FbleGenerateProfileReport(stdout, p);
    printf("~~~\n");
    FbleFreeProfile(p);
  }
  fclose(f);
  return 0;
}
