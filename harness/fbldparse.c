// Parses many documents with FbldParse, each in a child process, and prints the structure it returns.
// usage: fbldparse DOCS SCRATCH
// DOCS: repeated: number of files (u32), then for each file its size (u32, ffffffff for a file that is not there) and bytes.
// Output per document, one line: {"rc":..,"m":[...],"err":"<stderr bytes, hex>"}
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

#include "fbld/fbld.h"

static void Str(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fprintf(f, "\\n");
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static void Dump(FILE* f, FbldMarkup* m)
{
  switch (m->tag) {
    case FBLD_MARKUP_PLAIN:
      fprintf(f, "{\"t\":\"p\",\"s\":");
      Str(f, m->text->str);
      fprintf(f, "}");
      break;
    case FBLD_MARKUP_COMMAND:
      fprintf(f, "{\"t\":\"c\",\"n\":");
      Str(f, m->text->str);
      fprintf(f, ",\"f\":");
      Str(f, m->text->loc.file);
      fprintf(f, ",\"l\":[%zu,%zu],\"a\":[", m->text->loc.line, m->text->loc.column);
      for (size_t i = 0; i < m->markups.size; ++i) {
        if (i) fputc(',', f);
        Dump(f, m->markups.xs[i]);
      }
      fprintf(f, "]}");
      break;
    case FBLD_MARKUP_SEQUENCE:
      fprintf(f, "{\"t\":\"s\",\"m\":[");
      for (size_t i = 0; i < m->markups.size; ++i) {
        if (i) fputc(',', f);
        Dump(f, m->markups.xs[i]);
      }
      fprintf(f, "]}");
      break;
  }
}

static unsigned U32(FILE* f)
{
  unsigned char b[4];
  if (fread(b, 1, 4, f) != 4) exit(0);
  return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24;
}

int main(int argc, char* argv[])
{
  FILE* in = fopen(argv[1], "rb");
  const char* dir = argv[2];
  char outname[4096], errname[4096];
  snprintf(outname, sizeof outname, "%s/out", dir);
  snprintf(errname, sizeof errname, "%s/err", dir);
  while (1) {
    unsigned n = U32(in);
    const char* names[16] = {0};
    for (unsigned i = 0; i < n; ++i) {
      unsigned size = U32(in);
      char* name = malloc(strlen(dir) + 16);
      sprintf(name, "%s/f%u", dir, i);
      if (size == 0xffffffffu) {
        remove(name);
        names[i] = name;
        continue;
      }
      char* buf = malloc(size + 1);
      if (fread(buf, 1, size, in) != size) return 2;
      FILE* f = fopen(name, "wb");
      fwrite(buf, 1, size, f);
      fclose(f);
      free(buf);
      names[i] = name;
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(20);
      freopen(errname, "wb", stderr);
      FbldMarkup* m = FbldParse(names);
      FILE* o = fopen(outname, "wb");
      if (m != NULL) Dump(o, m);
      fclose(o);
      fflush(stderr);
      int rc = m == NULL ? 1 : 0;
      FbldFreeMarkup(m);
      _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    printf("{\"rc\":%d,\"m\":", rc);
    if (rc == 0) {
      FILE* o = fopen(outname, "rb");
      int c;
      while ((c = fgetc(o)) != EOF) putchar(c);
      fclose(o);
    } else {
      printf("null");
    }
    printf(",\"err\":\"");
    FILE* e = fopen(errname, "rb");
    for (int c, k = 0; e && (c = fgetc(e)) != EOF && k < 4000; ++k) printf("%02x", c);
    if (e) fclose(e);
    printf("\"}\n");
    for (unsigned i = 0; i < n; ++i) free((void*)names[i]);
  }
}
