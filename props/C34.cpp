// C34: showing an image
#include <SDL/SDL.h>
#include "hcv.h"
#include "highgui/hypercv_gui.h"
typedef simple_mat S;
// the script of events of one call, and what is on the screen
enum { NOTHING, MOVE, DRAG, KEY, BUTTON, EXPOSE, USER, ESC, QUIT, RESIZE };
static std::vector<int> script; static size_t pos; static bool closed, damaged, repaint; static int polls_after, delays; static Bytes shown; static int sw, sh;
static S mat; static std::string wrong; static int W, Hh; static std::vector<uint32_t> want;
static void take() {
  SDL_Surface* s = SDL_GetVideoSurface(); if (!s) return;
  sw = s->w; sh = s->h; shown.resize((size_t)sw * sh * 3);
  for (int i = 0; i < sh; i++) for (int j = 0; j < sw; j++) { const Uint8* p = (const Uint8*)s->pixels + i * s->pitch + j * s->format->BytesPerPixel; Uint32 v = 0; switch (s->format->BytesPerPixel) { case 1: v = *p; break; case 2: v = *(const Uint16*)p; break; case 3: v = p[0] | p[1] << 8 | p[2] << 16; break; default: v = *(const Uint32*)p; } Uint8* q = &shown[((size_t)i * sw + j) * 3]; SDL_GetRGB(v, s->format, q, q + 1, q + 2); }
}
static void check(const char* when) {
  if (!wrong.empty()) return;
  char b[300];
  if (shown.empty()) { snprintf(b, sizeof b, "nothing is on the screen %s", when); wrong = b; return; }
  if (sw != W || sh != Hh) { snprintf(b, sizeof b, "the window is %dx%d for an image of %dx%d", sw, sh, W, Hh); wrong = b; return; }
  const uint8_t* d = (const uint8_t*)mat->data; int ch = mat->channels;
  for (int i = 0; i < W * Hh; i++) for (int k = 0; k < 3; k++) if (shown[i * 3 + k] != d[i * ch + (ch == 1 ? 0 : k)]) { snprintf(b, sizeof b, "%s, row %d column %d shows %d,%d,%d", when, i / W, i % W, shown[i * 3], shown[i * 3 + 1], shown[i * 3 + 2]); wrong = b; return; }
}
static int next(SDL_Event* e) {
  if (closed) { polls_after++; if (polls_after > 3) { wrong = "the window stays open after it was closed"; e->type = SDL_QUIT; return 1; } e->type = SDL_QUIT; return 1; }
  if (pos == 0) check("before the first event"); else if (!damaged || repaint) { check(repaint ? "after dragging" : "while it is open"); damaged = repaint = false; }
  memset(e, 0, sizeof *e); int k = pos < script.size() ? script[pos] : QUIT; pos++;
  switch (k) {
    case NOTHING: return 0;
    case MOVE: e->type = SDL_MOUSEMOTION; e->motion.state = (Uint8)(draw(2) ? SDL_BUTTON(3) : 0); break;
    case DRAG: e->type = SDL_MOUSEMOTION; e->motion.state = (Uint8)(SDL_BUTTON(1) | (draw(2) ? SDL_BUTTON(2) : 0));
      if (SDL_Surface* s = SDL_GetVideoSurface()) { if (draw(2)) { memset(s->pixels, 0x5a, (size_t)s->pitch * s->h); take(); damaged = true; } } repaint = true; break;
    case KEY: e->type = draw(2) ? SDL_KEYUP : SDL_KEYDOWN; e->key.keysym.sym = e->type == SDL_KEYDOWN && draw(2) ? SDLK_ESCAPE : pick({SDLK_a, SDLK_RETURN, SDLK_SPACE, SDLK_F1}); break;
    case BUTTON: e->type = draw(2) ? SDL_MOUSEBUTTONDOWN : SDL_MOUSEBUTTONUP; break;
    case EXPOSE: e->type = SDL_ACTIVEEVENT; break;
    case USER: e->type = SDL_USEREVENT; break;
    case ESC: e->type = SDL_KEYUP; e->key.keysym.sym = SDLK_ESCAPE; closed = true; break;
    case RESIZE: e->type = SDL_VIDEORESIZE; e->resize.w = W + 5; e->resize.h = Hh + 1; closed = true; break;
    default: e->type = SDL_QUIT; closed = true;
  }
  return 1;
}
extern "C" {
int __wrap_SDL_PollEvent(SDL_Event* e) { return next(e); }
int __wrap_SDL_WaitEvent(SDL_Event* e) { while (!next(e)) {} return 1; }
void __wrap_SDL_Delay(Uint32) { delays++; }
void __real_SDL_UpdateRect(SDL_Surface*, Sint32, Sint32, Uint32, Uint32); int __real_SDL_Flip(SDL_Surface*); void __real_SDL_UpdateRects(SDL_Surface*, int, SDL_Rect*);
void __wrap_SDL_UpdateRect(SDL_Surface* s, Sint32 x, Sint32 y, Uint32 w, Uint32 h) { __real_SDL_UpdateRect(s, x, y, w, h); take(); }
void __wrap_SDL_UpdateRects(SDL_Surface* s, int n, SDL_Rect* r) { __real_SDL_UpdateRects(s, n, r); take(); }
int __wrap_SDL_Flip(SDL_Surface* s) { int r = __real_SDL_Flip(s); take(); return r; }
}
static void body() {
  script.clear(); pos = 0; closed = damaged = repaint = false; polls_after = delays = 0; shown.clear(); wrong.clear(); sw = sh = 0;
  if (chance(1, 200)) { describe("no image"); label("no image"); must_reject("showing no image", [] { smshow("w", NULL); }); nontrivial(); return; }
  int ch = pick({1, 3, 3, 4}); Dims2 d; do d = gen_dims2(3000, 400); while (d.r > 4000 || d.c > 4000); mat = new_u8(d.r, d.c, ch); fill_u8(U8(mat), mat_elems(mat)); W = d.c; Hh = d.r; Bytes snap = snapshot(mat);
  label(ch == 1 ? "gray" : ch == 3 ? "red, green, blue" : "four channels");
  bool none = chance(1, 40); setenv("SDL_VIDEODRIVER", none ? "no-such-driver" : "dummy", 1);
  int n = (int)draw(9); for (int i = 0; i < n; i++) script.push_back((int)draw(7)); script.push_back(ESC + (int)draw(3));
  std::string ev; static const char* nm[] = {"-", "move", "drag", "key", "button", "expose", "user", "escape", "quit", "resize"}; for (int k : script) ev += std::string(ev.empty() ? "" : " ") + nm[k];
  describe("%dx%d image, %d channels; events %s%s", d.r, d.c, ch, ev.c_str(), none ? "; no display" : "");
  char name[] = "a window"; smshow(name, mat);
  REQUIRE(unchanged(snap, mat), "showing an image changed it");
  if (none) { label("no display"); REQUIRE(pos == 0 && shown.empty(), "an image was shown without a display"); }
  else {
    label_if(n > 0, "events before closing");
    REQUIRE(wrong.empty(), "%s", wrong.c_str());
    REQUIRE(closed, "the call returned after %zu events, before the window was closed", pos);
    REQUIRE(pos == script.size(), "the call went on after it was closed"); REQUIRE(polls_after == 0, "events were taken after the window was closed");
    check("at the end"); REQUIRE(wrong.empty() || damaged, "%s", wrong.c_str());
    REQUIRE(SDL_WasInit(SDL_INIT_VIDEO) == 0, "the display is still in use after the window was closed");
  }
  nontrivial(); delete_simple_mat(mat);
}
namespace pbt { Property property_under_test = {"C34",
  "an image with 1, 3 or 4 channels and a sequence of up to 8 events before the one that closes the window (or no display at all); what is on the (memory) screen is read back before every event and compared with the image pixel by pixel; every case is non-trivial",
  24000, 144000, 50, body, {"the display is SDL's in-memory driver; events come from the generator, one per poll", "8-bit images of up to 4000 rows and columns"}}; }
