/* What a generated main calls: says what it is given. */
#include <stdio.h>
#include <fble/fble-generate.h>
#include <fble/fble-module-path.h>

int fblerun_entry(int argc, const char** argv, FbleGeneratedModule* module)
{
  printf("%i", argc);
  for (int i = 1; i < argc; ++i) printf(" [%s]", argv[i]);
  printf(" ");
  FblePrintModulePath(stdout, module->path);
  printf("\n");
  fflush(stdout);
  return 40 + argc;
}
