// A display, keyboard, mouse and clock that exist only on paper: stands in for the parts of SDL and GL fble-app uses.
// What happens comes from the file named by SDLSTUB; what is drawn is written to stdout, in window coordinates.
#include <SDL.h>
#include <GL/gl.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAX 4096
typedef struct { Uint32 at; SDL_Event e; } Arrival;
typedef struct { Uint32 due; Uint32 interval; SDL_TimerCallback cb; void* arg; int live; } Timer;
static Arrival gScript[MAX];
static int gScriptN, gScriptI;
static Timer gTimers[MAX];
static int gTimersN;
static SDL_Event gQueue[MAX];
static int gQueueA, gQueueB;
static Uint32 gNow = 1;
static Uint32 gSwapCost[MAX];
static int gSwapN, gSwapI;
static int gWidth = 640, gHeight = 480, gFail, gLoaded;
static SDL_Window* const WINDOW = (SDL_Window*)gScript;

static void Load(void)
{
  if (gLoaded) return;
  gLoaded = 1;
  const char* name = getenv("SDLSTUB");
  FILE* f = name ? fopen(name, "r") : NULL;
  if (f == NULL) { fprintf(stderr, "sdlstub: no script\n"); exit(70); }
  char line[256];
  while (fgets(line, sizeof(line), f)) {
    char op[32];
    int at, a = 0, b = 0, c = 0, d = 0;
    sscanf(line, "%31s %d %d %d %d %d", op, &at, &a, &b, &c, &d);
    if (!strcmp(op, "start")) { gNow = at; continue; }
    if (!strcmp(op, "size")) { gWidth = at; gHeight = a; continue; }
    if (!strcmp(op, "fail")) { gFail = 1; continue; }
    if (!strcmp(op, "swap")) { gSwapCost[gSwapN++] = at; continue; }
    Arrival* x = gScript + gScriptN++;
    memset(x, 0, sizeof(*x));
    x->at = at;
    SDL_Event* e = &x->e;
    e->type = !strcmp(op, "key_down") ? SDL_KEYDOWN : !strcmp(op, "key_up") ? SDL_KEYUP
      : !strcmp(op, "mouse_down") ? SDL_MOUSEBUTTONDOWN : !strcmp(op, "mouse_up") ? SDL_MOUSEBUTTONUP
      : !strcmp(op, "window") ? SDL_WINDOWEVENT : !strcmp(op, "motion") ? SDL_MOUSEMOTION
      : !strcmp(op, "other") ? a : 0;
    switch (e->type) {
      case SDL_KEYDOWN: case SDL_KEYUP:
        e->key.keysym.scancode = a;
        e->key.keysym.sym = SDL_SCANCODE_TO_KEYCODE(a);
        e->key.state = e->type == SDL_KEYDOWN ? SDL_PRESSED : SDL_RELEASED;
        break;
      case SDL_MOUSEBUTTONDOWN: case SDL_MOUSEBUTTONUP:
        e->button.button = a; e->button.x = b; e->button.y = c; e->button.clicks = 1;
        e->button.state = e->type == SDL_MOUSEBUTTONDOWN ? SDL_PRESSED : SDL_RELEASED;
        break;
      case SDL_WINDOWEVENT: e->window.event = a; e->window.data1 = b; e->window.data2 = c; break;
      case SDL_MOUSEMOTION: e->motion.x = a; e->motion.y = b; e->motion.xrel = c; e->motion.yrel = d; break;
      case 0: fprintf(stderr, "sdlstub: bad script: %s", line); exit(70);
    }
  }
  fclose(f);
}

static int Push(const SDL_Event* e)
{
  if (gQueueB == MAX) { fprintf(stderr, "sdlstub: queue\n"); exit(70); }
  gQueue[gQueueB++] = *e;
  return 1;
}

static void Take(SDL_Event* e)
{
  // The window has its new size from when the program is told of it.
  SDL_Event* x = gQueue + gQueueA;
  if (x->type == SDL_WINDOWEVENT && x->window.event == SDL_WINDOWEVENT_RESIZED) {
    gWidth = x->window.data1;
    gHeight = x->window.data2;
  }
  if (e == NULL) return;
  *e = *x;
  gQueueA++;
}

static int Next(Uint32* at)
{
  // The earliest thing still to happen: an arrival before a timer, an earlier timer before a later one.
  int k = -1;
  *at = 0;
  if (gScriptI < gScriptN) { k = MAX; *at = gScript[gScriptI].at; }
  for (int i = 0; i < gTimersN; ++i) {
    if (gTimers[i].live && (k < 0 || gTimers[i].due < *at)) { k = i; *at = gTimers[i].due; }
  }
  return k;
}

static void Happen(int k)
{
  if (k == MAX) {
    Push(&gScript[gScriptI++].e);
    return;
  }
  Timer* t = gTimers + k;
  Uint32 again = t->cb(t->interval, t->arg);
  if (again) { t->due += again; t->interval = again; } else t->live = 0;
}

static void Advance(Uint32 to)
{
  Uint32 at;
  for (int k = Next(&at); k >= 0 && at <= to; k = Next(&at)) {
    if (at > gNow) gNow = at;
    Happen(k);
  }
  if (to > gNow) gNow = to;
}

int SDL_Init(Uint32 flags) { Load(); (void)flags; if (gFail) SDL_SetError("nothing to show it on"); return gFail ? -1 : 0; }
void SDL_Quit(void) { printf("quit\n"); }
SDL_Window* SDL_CreateWindow(const char* title, int x, int y, int w, int h, Uint32 flags)
{ Load(); (void)title; (void)x; (void)y; (void)w; (void)h; (void)flags; return WINDOW; }
void SDL_DestroyWindow(SDL_Window* w) { (void)w; }
void SDL_SetWindowResizable(SDL_Window* w, SDL_bool r) { (void)w; (void)r; }
SDL_GLContext SDL_GL_CreateContext(SDL_Window* w) { (void)w; return (SDL_GLContext)gTimers; }
void SDL_GL_DeleteContext(SDL_GLContext c) { (void)c; }
int SDL_ShowCursor(int t) { (void)t; return 0; }
void SDL_GetWindowSize(SDL_Window* win, int* w, int* h) { Load(); (void)win; if (w) *w = gWidth; if (h) *h = gHeight; }
SDL_Surface* SDL_GetWindowSurface(SDL_Window* w) { (void)w; return NULL; }
Uint32 SDL_GetTicks(void) { Load(); return gNow; }
Uint64 SDL_GetTicks64(void) { Load(); return gNow; }
int SDL_PushEvent(SDL_Event* e) { return Push(e); }

SDL_TimerID SDL_AddTimer(Uint32 interval, SDL_TimerCallback cb, void* arg)
{
  if (gTimersN == MAX) { fprintf(stderr, "sdlstub: timers\n"); exit(70); }
  Timer t = { gNow + interval, interval, cb, arg, 1 };
  if (t.due < gNow) t.due = 0xffffffffu;
  gTimers[gTimersN++] = t;
  return gTimersN;
}
SDL_bool SDL_RemoveTimer(SDL_TimerID id) { gTimers[id - 1].live = 0; return SDL_TRUE; }

int SDL_WaitEvent(SDL_Event* e)
{
  Load();
  Advance(gNow);
  while (gQueueA == gQueueB) {
    Uint32 at;
    if (Next(&at) < 0 || at > 0x70000000u) {
      printf("stuck\n");
      fflush(stdout);
      _Exit(77);
    }
    Advance(at);
  }
  Take(e);
  return 1;
}
int SDL_PollEvent(SDL_Event* e)
{
  Load();
  Advance(gNow);
  if (gQueueA == gQueueB) return 0;
  Take(e);
  return 1;
}
int SDL_WaitEventTimeout(SDL_Event* e, int timeout)
{
  Load();
  Advance(gNow);
  Uint32 at, end = gNow + timeout;
  while (gQueueA == gQueueB && Next(&at) >= 0 && at <= end) Advance(at);
  if (gQueueA == gQueueB) { Advance(end); return 0; }
  Take(e);
  return 1;
}
void SDL_Delay(Uint32 ms) { Advance(gNow + ms); }

void SDL_GL_SwapWindow(SDL_Window* w)
{
  (void)w;
  printf("show\n");
  Advance(gNow + (gSwapI < gSwapN ? gSwapCost[gSwapI++] : 0));
}

// GL: a pen colour, an affine projection and a viewport.
static double gA[2] = { 1, 1 }, gB[2], gPen[3] = { 1, 1, 1 };
static int gView[4] = { 0, 0, 640, 480 };
static GLenum gMode;
static int gV[64][2], gVN;

static void Map(double x, double y, int out[2])
{
  double nx = gA[0] * x + gB[0], ny = gA[1] * y + gB[1];
  out[0] = (int)lround(gView[0] + (nx + 1) / 2 * gView[2]);
  out[1] = (int)lround(gHeight - (gView[1] + (ny + 1) / 2 * gView[3]));
}
static int Less(const int* p, const int* q) { return p[0] < q[0] || (p[0] == q[0] && p[1] < q[1]); }
static void Pen(void)
{
  for (int i = 0; i < 3; ++i) printf(" %ld", lround(gPen[i] * 256));
  printf("\n");
}
static void Triangle(int v[3][2])
{
  long area = (long)(v[1][0] - v[0][0]) * (v[2][1] - v[0][1]) - (long)(v[2][0] - v[0][0]) * (v[1][1] - v[0][1]);
  if (area == 0) return;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2 - i; ++j) if (Less(v[j + 1], v[j])) {
    for (int k = 0; k < 2; ++k) { int t = v[j][k]; v[j][k] = v[j + 1][k]; v[j + 1][k] = t; }
  }
  printf("tri");
  for (int i = 0; i < 3; ++i) printf(" %d %d", v[i][0], v[i][1]);
  Pen();
}
void glColor3f(GLfloat r, GLfloat g, GLfloat b) { gPen[0] = r; gPen[1] = g; gPen[2] = b; }
void glColor3d(GLdouble r, GLdouble g, GLdouble b) { gPen[0] = r; gPen[1] = g; gPen[2] = b; }
void glBegin(GLenum mode) { gMode = mode; gVN = 0; }
void glVertex2i(GLint x, GLint y)
{
  Map(x, y, gV[gVN++]);
  if (gMode != GL_TRIANGLES) { fprintf(stderr, "sdlstub: mode\n"); exit(70); }
  if (gVN == 3) { Triangle(gV); gVN = 0; }
}
void glVertex2f(GLfloat x, GLfloat y) { glVertex2i(lround(x), lround(y)); }
void glEnd(void) { gMode = 0; gVN = 0; }
void glRecti(GLint x1, GLint y1, GLint x2, GLint y2)
{
  int p[2], q[2];
  Map(x1, y1, p);
  Map(x2, y2, q);
  if (p[0] == q[0] || p[1] == q[1]) return;
  for (int k = 0; k < 2; ++k) if (p[k] > q[k]) { int t = p[k]; p[k] = q[k]; q[k] = t; }
  printf("rect %d %d %d %d", p[0], p[1], q[0], q[1]);
  Pen();
}
void glShadeModel(GLenum m) { (void)m; }
void glClear(GLbitfield m) { (void)m; }
void glFlush(void) { }
static int gProjection;
void glMatrixMode(GLenum m) { gProjection = (m == GL_PROJECTION); }
void glLoadIdentity(void) { if (gProjection) { gA[0] = gA[1] = 1; gB[0] = gB[1] = 0; } }
void glOrtho(GLdouble l, GLdouble r, GLdouble b, GLdouble t, GLdouble n, GLdouble f)
{
  (void)n; (void)f;
  if (!gProjection) return;
  double s[2] = { 2 / (r - l), 2 / (t - b) }, o[2] = { -(r + l) / (r - l), -(t + b) / (t - b) };
  for (int i = 0; i < 2; ++i) { gB[i] += gA[i] * o[i]; gA[i] *= s[i]; }
}
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { gView[0] = x; gView[1] = y; gView[2] = w; gView[3] = h; }
