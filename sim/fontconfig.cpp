// A stand-in for the machine's font configuration: no system font is ever found, so that no run
// depends on which fonts, caches or configuration files the machine happens to have.
extern "C" {
static int gFc[64];
int FcCharSetHasChar(const void*, unsigned) { return 0; }
int FcConfigSubstitute(void*, void*, int) { return 1; }
void FcDefaultSubstitute(void*) {}
void FcFontSetDestroy(void*) {}
void* FcFontSort(void*, void*, int, void**, int* res) {
  static struct { int nfont, sfont; void** fonts; } none = {0, 0, nullptr};
  if (res) *res = 1;   // FcResultNoMatch
  return &none;
}
int FcLangSetAdd(void*, const unsigned char*) { return 1; }
int FcLangSetContains(const void*, const void*) { return 0; }
void* FcLangSetCreate() { return gFc; }
void FcLangSetDestroy(void*) {}
int FcPatternAddInteger(void*, const char*, int) { return 1; }
void* FcPatternBuild(void*, ...) { return gFc; }
void FcPatternDestroy(void*) {}
int FcPatternGetCharSet(const void*, const char*, int, void**) { return 1; }
int FcPatternGetInteger(const void*, const char*, int, int*) { return 1; }
int FcPatternGetLangSet(const void*, const char*, int, void**) { return 1; }
int FcPatternGetString(const void*, const char*, int, unsigned char**) { return 1; }
}
