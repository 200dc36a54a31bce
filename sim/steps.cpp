// Knows which step of the program is running: the linker (--wrap) routes the calls of the steps
// through here. A step that no longer exists under its name is simply not observed.
#include <memory>
#include <optional>
#include <string>
#include <type_traits>

#include <goo/GooString.h>
#include <OutputDev.h>
#include <PDFDoc.h>
#include <PDFDocFactory.h>

#include "./world.h"

namespace sim {

static const int MAXDEPTH = 8;

void stepEnter(const char* name) {
  if (!gActive) return;
  Enter e;
  StepLog s;
  s.name = name;
  s.proc = gProc;
  PR.stepStack.push_back(name);
  s.begin = W->clockMono;
  s.alloc0 = PR.opCount[OP_ALLOC];
  decide(OP_STEP, name);
  event(OP_STEP, name, "enter", 0, 0);
  s.end = -1;
  W->stepLog.push_back(s);
  PR.stepAt.push_back(W->stepLog.size() - 1);
}

void stepLeave(const char* name) {
  if (!gActive) return;
  Enter e;
  decide(OP_STEP, name);
  event(OP_STEP, name, "leave", 0, 0);
  if (PR.stepStack.empty()) return;
  W->stepLog[PR.stepAt.back()].end = W->clockMono;
  W->stepLog[PR.stepAt.back()].alloc1 = PR.opCount[OP_ALLOC];
  PR.stepStack.pop_back();
  PR.stepAt.pop_back();
  PR.lastStep = name;
}

struct Step {
  const char* n;
  explicit Step(const char* name) : n(name) { stepEnter(n); }
  ~Step() { stepLeave(n); }
};

}  // namespace sim

#define STEP(ID, SYM, NAME) \
  long real##ID(void*) __asm__("__real_" SYM) __attribute__((weak)); \
  long wrap##ID(void* self) __asm__("__wrap_" SYM); \
  long wrap##ID(void* self) { sim::Step s(NAME); return real##ID(self); }

STEP(1a, "_ZNK3ppp7modules27GlyphsStatisticsCalculation7processEv", "Calculate glyph statistics")
STEP(1b, "_ZN3ppp7modules27GlyphsStatisticsCalculation7processEv", "Calculate glyph statistics")
STEP(2a, "_ZNK3ppp7modules23DiacriticalMarksMerging7processEv", "Merge combining diacritics")
STEP(2b, "_ZN3ppp7modules23DiacriticalMarksMerging7processEv", "Merge combining diacritics")
STEP(3a, "_ZNK3ppp7modules14WordsDetection7processEv", "Detect words")
STEP(3b, "_ZN3ppp7modules14WordsDetection7processEv", "Detect words")
STEP(4a, "_ZNK3ppp7modules26WordsStatisticsCalculation7processEv", "Calculate words statistics")
STEP(4b, "_ZN3ppp7modules26WordsStatisticsCalculation7processEv", "Calculate words statistics")
STEP(5a, "_ZNK3ppp7modules16PageSegmentation7processEv", "Segment pages")
STEP(5b, "_ZN3ppp7modules16PageSegmentation7processEv", "Segment pages")
STEP(6a, "_ZNK3ppp7modules18TextLinesDetection7processEv", "Detect lines")
STEP(6b, "_ZN3ppp7modules18TextLinesDetection7processEv", "Detect lines")
STEP(7a, "_ZNK3ppp7modules24SubSuperScriptsDetection7processEv", "Detect sub/superscripts")
STEP(7b, "_ZN3ppp7modules24SubSuperScriptsDetection7processEv", "Detect sub/superscripts")
STEP(8a, "_ZNK3ppp7modules30TextLinesStatisticsCalculation7processEv", "Calculate text line statistics")
STEP(8b, "_ZN3ppp7modules30TextLinesStatisticsCalculation7processEv", "Calculate text line statistics")
STEP(9a, "_ZNK3ppp7modules19TextBlocksDetection7processEv", "Detect text blocks")
STEP(9b, "_ZN3ppp7modules19TextBlocksDetection7processEv", "Detect text blocks")
STEP(10a, "_ZNK3ppp7modules21ReadingOrderDetection7processEv", "Detect reading order")
STEP(10b, "_ZN3ppp7modules21ReadingOrderDetection7processEv", "Detect reading order")
STEP(11a, "_ZNK3ppp7modules18WordsDehyphenation7processEv", "Dehyphenate words")
STEP(11b, "_ZN3ppp7modules18WordsDehyphenation7processEv", "Dehyphenate words")

#define SERIALIZE(ID, SYM) \
  bool real##ID(void*, void*, void*, void*, void*) __asm__("__real_" SYM) __attribute__((weak)); \
  bool wrap##ID(void*, void*, void*, void*, void*) __asm__("__wrap_" SYM); \
  bool wrap##ID(void* self, void* a, void* b, void* c, void* d) { \
    sim::Step s("Serialize"); return real##ID(self, a, b, c, d); }

SERIALIZE(12a, "_ZNK3ppp13serialization10Serializer9serializeEPKNS_5types11PdfDocumentERKSt13unordered_setINS2_12SemanticRoleESt4hashIS7_ESt8equal_toIS7_ESaIS7_EERKS6_INS2_14PdfElementTypeES8_ISG_ESA_ISG_ESaISG_EERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")

// Poppler's part.
using Abort = bool (*)(void*);
using Decide = bool (*)(Annot*, void*);
void realDisplay(PDFDoc*, OutputDev*, int, int, double, double, int, bool, bool, bool, Abort, void*, Decide, void*)
  __asm__("__real__ZN6PDFDoc12displayPagesEP9OutputDeviiddibbbPFbPvES2_PFbP5AnnotS2_ES2_");
void wrapDisplay(PDFDoc*, OutputDev*, int, int, double, double, int, bool, bool, bool, Abort, void*, Decide, void*)
  __asm__("__wrap__ZN6PDFDoc12displayPagesEP9OutputDeviiddibbbPFbPvES2_PFbP5AnnotS2_ES2_");
void wrapDisplay(PDFDoc* d, OutputDev* o, int f, int l, double h, double v, int r, bool m, bool c, bool p,
                 Abort a, void* ad, Decide dc, void* dd) {
  sim::Step s("Parse PDF");
  realDisplay(d, o, f, l, h, v, r, m, c, p, a, ad, dc, dd);
}

std::unique_ptr<PDFDoc> realLoad(PDFDocFactory*, const GooString&, const std::optional<GooString>&,
                                 const std::optional<GooString>&, void*)
  __asm__("__real__ZN13PDFDocFactory12createPDFDocERK9GooStringRKSt8optionalIS0_ES6_Pv");
std::unique_ptr<PDFDoc> wrapLoad(PDFDocFactory*, const GooString&, const std::optional<GooString>&,
                                 const std::optional<GooString>&, void*)
  __asm__("__wrap__ZN13PDFDocFactory12createPDFDocERK9GooStringRKSt8optionalIS0_ES6_Pv");
std::unique_ptr<PDFDoc> wrapLoad(PDFDocFactory* self, const GooString& u, const std::optional<GooString>& o,
                                 const std::optional<GooString>& p, void* g) {
  // The visualization loads the PDF once more.
  sim::Step s(sim::gActive && sim::stepSeen("Serialize") ? "Reload PDF" : "Load PDF");
  return realLoad(self, u, o, p, g);
}
