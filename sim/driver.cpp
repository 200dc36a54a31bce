// The scenario server. Reads a scenario from stdin, forks a process that owns the simulated world,
// forks one more per simulated process lifetime, and reports what happened.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <execinfo.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <poppler/ErrorCodes.h>
#include <utf8proc.h>

#include "Config.h"
#include "PdfDocumentSerialization.h"
#include "PdfDocumentVisualization.h"
#include "PdfToTextPlusPlus.h"
#include "SemanticRolesPrediction.h"
#include "Types.h"

#include <cppflow/cppflow.h>
#include "./world.h"

extern int ppp_main(int argc, char* argv[]);

using sim::Enter;
using sim::Str;
using sim::W;

typedef std::pair<std::string, std::string> KV;

// --- raw I/O to the orchestrator -----------------------------------------------------------------

static bool readAll(int fd, void* b, size_t n) {
  char* p = static_cast<char*>(b);
  while (n) {
    ssize_t k = syscall(SYS_read, fd, p, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    p += k; n -= k;
  }
  return true;
}
static void writeAll(int fd, const void* b, size_t n) {
  const char* p = static_cast<const char*>(b);
  while (n) {
    ssize_t k = syscall(SYS_write, fd, p, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(93); }
    p += k; n -= k;
  }
}

static std::string gResp;
static void put(const std::string& k, const char* v, size_t n) {
  unsigned char kl = k.size();
  uint32_t vl = n;
  gResp.append(reinterpret_cast<char*>(&kl), 1);
  gResp += k;
  gResp.append(reinterpret_cast<char*>(&vl), 4);
  gResp.append(v, n);
}
static void put(const std::string& k, const std::string& v) { put(k, v.data(), v.size()); }
static void put(const std::string& k, const Str& v) { put(k, v.data(), v.size()); }

// --- the simulated model party -------------------------------------------------------------------

namespace cppflow {

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}

model::model(const std::string& path) {
  bool fail = false;
  {
    Enter e;
    sim::Fault* f = sim::decide(sim::OP_MODEL_LOAD, "model");
    sim::event(sim::OP_MODEL_LOAD, Str(path.c_str()), "load", 0, 0);
    fail = (f && f->act == sim::ACT_ERR) || W->modelMode == 5;
  }
  if (!fail) {
    FILE* fp = fopen((path + "/saved_model.pb").c_str(), "rb");
    char b[64];
    if (!fp) fail = true;
    else {
      if (fread(b, 1, sizeof(b), fp) < 8 || memcmp(b, "SIMMODEL", 8)) fail = true;
      fclose(fp);
    }
  }
  if (fail) {
    throw std::runtime_error("Could not find SavedModel .pb or .pbtxt at supplied export directory "
      "path: " + path);
  }
}
model::~model() {}

std::vector<tensor> model::operator()(
    std::vector<std::tuple<std::string, tensor>> in, std::vector<std::string> outs) {
  int mode;
  uint64_t salt;
  {
    Enter e;
    sim::Fault* f = sim::decide(sim::OP_MODEL_RUN, "model");
    mode = W->modelMode;
    if (f && f->act == sim::ACT_ERR) mode = 4;
    salt = W->modelSalt;
  }
  const tensor* lay = nullptr;
  const tensor* wrd = nullptr;
  for (const auto& t : in) {
    if (std::get<0>(t).find("layout") != std::string::npos) lay = &std::get<1>(t);
    if (std::get<0>(t).find("words") != std::string::npos) wrd = &std::get<1>(t);
  }
  if (!lay || !wrd || lay->dims.size() != 2 || wrd->dims.size() != 2 ||
      lay->f.size() != static_cast<size_t>(lay->dims[0] * lay->dims[1]) ||
      wrd->i.size() != static_cast<size_t>(wrd->dims[0] * wrd->dims[1])) {
    throw std::runtime_error("simulated model: malformed input tensors");
  }
  int64_t n = lay->dims[0];
  {
    Enter e;
    sim::event(sim::OP_MODEL_RUN, "model", "rows", n, wrd->dims[0]);
    sim::noteHash(lay->f.data(), lay->f.size() * sizeof(float));
    sim::noteHash(wrd->i.data(), wrd->i.size() * sizeof(int));
  }
  if (mode == 4) throw std::runtime_error("simulated model: inference failed");
  std::string asks;
  const int R = 14;
  int64_t cols = R;
  if (mode == 3) cols = R + 1 + W->modelArg;      // more answers than there are roles
  if (mode == 8) cols = W->modelArg % R;          // fewer
  int64_t rows = n;
  if (mode == 6) rows = n / 2;                    // fewer rows than blocks
  if (mode == 7) rows = 0;
  std::vector<float> v;
  for (int64_t i = 0; i < rows; i++) {
    uint64_t h = salt;
    if (mode != 1) {
      for (int64_t k = 0; k < lay->dims[1]; k++) {
        float x = lay->f[i * lay->dims[1] + k];
        uint32_t b;
        memcpy(&b, &x, 4);
        h = mix(h, b);
      }
      for (int64_t k = 0; k < wrd->dims[1]; k++) h = mix(h, wrd->i[i * wrd->dims[1] + k]);
    }
    int64_t best = mode == 1 ? W->modelArg : static_cast<int64_t>(h % (cols ? cols : 1));
    if (mode == 3) best = cols - 1 - (h % (cols - R));
    if (mode == 0 && W->modelArg > 0 && h % 100 < static_cast<uint64_t>(W->modelArg)) best = 0;
    float top = -1;
    for (int64_t c = 0; c < cols; c++) {
      float p = c == best ? 0.9f : 0.1f / cols;
      if (mode == 11) {                            // arbitrary pairwise different ratings
        p = static_cast<float>((mix(h, c) % 1000003) + 1) / 1000004.0f *
          (W->modelArg ? 1.0f / W->modelArg : 1.0f);
        if (p > top) { top = p; best = c; }
      }
      if (mode == 12 || mode == 13) {              // as 11, but none is positive, or some are not
        p = static_cast<float>((mix(h, c) % 1000003) + 1) / 1000004.0f;
        p = mode == 12 ? (p - 1.5f) * (W->modelArg ? W->modelArg : 1.0f) : (p - 0.9f) * 7;
        if (c == 0 || p > top) { top = p; best = c; }
      }
      if (mode == 2) p = NAN;
      if (mode == 9) p = -1.0f;
      if (mode == 10) p = (c == best) ? INFINITY : 0.5f;
      v.push_back(p);
    }
    if (W->modelAsk) {
      asks += std::to_string(best) + "\t";
      for (int64_t k = 0; k < wrd->dims[1]; k++) {
        asks += std::to_string(wrd->i[i * wrd->dims[1] + k]) + " ";
      }
      asks += "\n";
    }
  }
  if (W->modelAsk) {
    Enter e;
    W->dumps.push_back(std::make_pair(Str("asks"), Str(asks.c_str(), asks.size())));
  }
  tensor out(v, std::vector<int64_t>{rows, cols});
  std::vector<tensor> r;
  r.push_back(out);
  (void) outs;
  return r;
}

}  // namespace cppflow

// --- looking at a document through the public data structures -------------------------------------

using namespace ppp::types;  // NOLINT

static std::string num(double d) {
  char b[48];
  snprintf(b, sizeof(b), "%.6g", d);
  return b;
}

static std::string posStr(const PdfPosition* p) {
  if (!p) return "-";
  return num(p->pageNum) + ":" + num(p->leftX) + "," + num(p->upperY) + "," + num(p->rightX) + "," +
    num(p->lowerY) + "r" + num(p->rotation) + "w" + num(p->wMode);
}

static std::string charStr(const PdfCharacter* c) {
  return "c " + posStr(c->pos) + " rank=" + num(c->rank) + " fs=" + num(c->fontSize) + " " +
    c->fontName + " name=" + c->name + " base=" + num(c->base) + " sub=" + num(c->isSubscript) +
    num(c->isSuperscript) + " '" + c->text + "' d='" + c->textWithDiacriticMark + "' op=" +
    num(c->opacity);
}

static std::string kin(const char* what, const PdfTextLine* l) {
  return l ? std::string(" ") + what + "='" + l->text + "'" : "";
}

static std::string cutStr(const Cut* c) {
  return std::string("cut ") + (c->dir == ppp::types::CutDir::X ? "x " : "y ") + num(c->pageNum) + ":" + num(c->x1) +
    "," + num(c->y1) + "," + num(c->x2) + "," + num(c->y2) + " chosen=" + num(c->isChosen) + " gap=" +
    num(c->gapWidth) + "," + num(c->gapHeight) + " pos=" + num(c->posInElements) + "\n";
}

static std::string dumpDoc(const PdfDocument* d) {
  std::string o;
  o += "doc avg=" + num(d->avgCharWidth) + "," + num(d->avgCharHeight) + " mf=" +
    num(d->mostFreqFontSize) + "," + d->mostFreqFontName + " wd=" + num(d->mostFreqWordDistance) +
    " eld=" + num(d->mostFreqEstimatedLineDistance) + " ld=" + num(d->mostFreqLineDistance) +
    " wh=" + num(d->mostFreqWordHeight) + " lm=" + num(d->mostFreqLineLeftMargin) + "\n";
  std::vector<std::string> v;
  for (const auto& e : d->mostFreqLineDistancePerFontSize) {
    v.push_back("ldfs " + num(e.first) + "=" + num(e.second) + "\n");
  }
  for (const auto& e : d->fontInfos) {
    const PdfFontInfo* f = e.second;
    std::string s = "font " + e.first;
    if (f) {
      s += " " + f->fontName + " " + f->normFontName + " " + f->fontBaseName + " asc=" +
        num(f->ascent) + " desc=" + num(f->descent) + " w=" + num(f->weight) + " fl=" +
        num(f->isFixedWidth) + num(f->isSerif) + num(f->isSymbolic) + num(f->isItalic) +
        num(f->isType3);
      std::vector<std::string> g;
      for (const auto& b : f->glyphBoundingBoxes) {
        g.push_back(b.first + "=" + num(std::get<0>(b.second)) + "," + num(std::get<1>(b.second)) +
          "," + num(std::get<2>(b.second)) + "," + num(std::get<3>(b.second)));
      }
      std::sort(g.begin(), g.end());
      for (auto& x : g) s += " " + x;
    }
    v.push_back(s + "\n");
  }
  std::sort(v.begin(), v.end());
  for (auto& s : v) o += s;
  for (const auto* p : d->pages) {
    o += "page " + num(p->pageNum) + " " + num(p->clipLeftX) + "," + num(p->clipUpperY) + "," +
      num(p->clipRightX) + "," + num(p->clipLowerY) + "\n";
    for (const auto* c : p->characters) o += charStr(c) + "\n";
    for (const auto* f : p->figures) {
      o += "fig " + posStr(f->pos) + " clip=" + num(f->clipLeftX) + "," + num(f->clipUpperY) + "," +
        num(f->clipRightX) + "," + num(f->clipLowerY) + " n=" + num(f->characters.size()) + "," +
        num(f->shapes.size()) + "," + num(f->graphics.size()) + "\n";
    }
    for (const auto* s : p->shapes) o += "shape " + posStr(s->pos) + "\n";
    for (const auto* s : p->graphics) o += "graphic " + posStr(s->pos) + "\n";
    for (const auto* w : p->words) {
      o += "word " + posStr(w->pos) + " '" + w->text + "' fs=" + num(w->fontSize) + " " +
        w->fontName + " rank=" + num(w->rank) + " n=" + num(w->characters.size()) + " base=" + num(w->base) +
        (w->isPartOfStackedMathSymbol ? " part" : "") +
        (w->isFirstPartOfHyphenatedWord ? " hy1=" + w->isFirstPartOfHyphenatedWord->text : "") +
        (w->isSecondPartOfHyphenatedWord ? " hy2" : "") + "\n";
    }
    for (const auto* s : p->segments) {
      o += "seg " + posStr(s->pos) + " n=" + num(s->elements.size()) + " l=" +
        num(s->lines.size()) + " trim=" + num(s->trimLeftX) + "," + num(s->trimUpperY) + "," +
        num(s->trimRightX) + "," + num(s->trimLowerY) + "\n";
      for (const auto* l : s->lines) {
        o += " line " + posStr(l->pos) + " '" + l->text + "' fs=" + num(l->fontSize) + " " +
          l->fontName + " max=" + num(l->maxFontSize) + " base=" + num(l->base) + " m=" +
          num(l->leftMargin) + "," + num(l->rightMargin) + " rank=" + num(l->rank) + kin("prev", l->prevLine) +
          kin("next", l->nextLine) + kin("parent", l->parentLine) + kin("prevs", l->prevSiblingLine) +
          kin("nexts", l->nextSiblingLine) + "\n";
      }
    }
    for (const auto* b : p->blocks) {
      o += "block " + posStr(b->pos) + " role=" + num(static_cast<int>(b->role)) + " fs=" +
        num(b->fontSize) + " " + b->fontName + " c=" + num(b->isLinesCentered) + " e=" +
        num(b->isEmphasized) + " h=" + num(b->hangingIndent) + " trim=" + num(b->trimLeftX) + "," +
        num(b->trimUpperY) + "," + num(b->trimRightX) + "," + num(b->trimLowerY) + " rank=" +
        num(b->rank) + " '" + b->text + "' lines=" + num(b->lines.size()) + "\n";
    }
    for (const auto* c : p->blockDetectionCuts) o += "seg-" + cutStr(c);
    for (const auto* c : p->readingOrderCuts) o += "ro-" + cutStr(c);
  }
  return o;
}

// The number of code points of the fully decomposed text (-1: no valid UTF-8).
static int decomposed(const std::string& t) {
  uint8_t* o = nullptr;
  ssize_t n = utf8proc_map(reinterpret_cast<const uint8_t*>(t.data()), t.size(), &o,
    static_cast<utf8proc_option_t>(UTF8PROC_STABLE | UTF8PROC_DECOMPOSE));
  if (n < 0 || !o) return -1;
  int k = 0;
  for (ssize_t i = 0; i < n; i++) k += (o[i] & 0xc0) != 0x80;
  free(o);
  return k;
}

// The conservation laws over a finished document.
static void checkDoc(const PdfDocument* d, const std::string& flags) {
  auto off = [&](const char* f) { return flags.find(f) != std::string::npos; };
  int bad = 0;
  auto fail = [&](const std::string& m) { if (bad++ < 5) sim::note("invariant: " + m); };
  auto joined = [](const auto& parts) {
    std::string t;
    for (size_t i = 0; i < parts.size(); i++) t += (i ? " " : "") + parts[i]->text;
    return t;
  };
  // The box of an element encloses exactly its parts.
  auto box = [&](const PdfPosition* b, const auto& parts, const char* what, const std::string& text) {
    double l = INFINITY, u = INFINITY, r = -INFINITY, o = -INFINITY;
    for (const auto* e : parts) {
      for (double v : {e->pos->leftX, e->pos->upperY, e->pos->rightX, e->pos->lowerY}) {
        if (!std::isfinite(v) || std::fabs(v) > 1e9) return;
      }
      l = std::min({l, e->pos->leftX, e->pos->rightX});
      r = std::max({r, e->pos->leftX, e->pos->rightX});
      u = std::min({u, e->pos->upperY, e->pos->lowerY});
      o = std::max({o, e->pos->upperY, e->pos->lowerY});
    }
    if (parts.empty()) return;
    if (std::fabs(std::min(b->leftX, b->rightX) - l) < 0.001 && std::fabs(std::min(b->upperY, b->lowerY) - u) < 0.001 &&
        std::fabs(std::max(b->leftX, b->rightX) - r) < 0.001 && std::fabs(std::max(b->upperY, b->lowerY) - o) < 0.001) return;
    fail(std::string("the box of ") + what + " '" + text + "', " + posStr(b) + ", does not enclose its parts: " +
         num(l) + "," + num(u) + "," + num(r) + "," + num(o));
  };
  // All parts of an element stand on its page and have its orientation.
  // (Stacked symbols are kept together whatever they are.)
  auto stacked = [](const auto* e) {
    if constexpr (requires { e->isPartOfStackedMathSymbol; }) {
      return e->isPartOfStackedMathSymbol || !e->isBaseOfStackedMathSymbol.empty();
    }
    return false;
  };
  auto same = [&](const PdfPosition* b, const auto& parts, const char* what, const std::string& text) {
    for (const auto* e : parts) if (stacked(e)) return;
    for (const auto* e : parts) {
      if (e->pos->pageNum == b->pageNum && e->pos->rotation == b->rotation) continue;
      fail(std::string(what) + " '" + text + "', " + posStr(b) + ", has a part of another orientation: " + posStr(e->pos));
      return;
    }
  };
  for (const auto* p : d->pages) {
    std::string at = " on page " + num(p->pageNum);
    std::unordered_map<const PdfCharacter*, int> cc;
    for (const auto* c : p->characters) {
      if (cc.count(c)) fail("a character is listed twice" + at);
      cc[c] = 0;
    }
    if (off("words-detection,")) continue;
    std::unordered_map<const PdfWord*, int> wc;
    for (const auto* w : p->words) {
      if (wc.count(w)) fail("a word is listed twice" + at);
      wc[w] = 0;
      if (w->characters.empty()) fail("an empty word" + at);
      box(w->pos, w->characters, "word", w->text);
      if (w->pos->pageNum != p->pageNum) fail("a word of another page" + at);
      same(w->pos, w->characters, "word", w->text);
      std::string parts;
      for (const auto* c : w->characters) {
        if (c->isBaseCharOfDiacriticMark) parts += c->textWithDiacriticMark;
        else if (!c->isDiacriticMarkOfBaseChar) parts += c->text;
      }
      if (w->text != parts) fail("word '" + w->text + "' consists of the characters '" + parts + "'" + at);
      for (const auto* c : w->characters) {
        auto it = cc.find(c);
        if (it == cc.end()) { fail("a word holds a foreign character '" + c->text + "'" + at); continue; }
        it->second++;
        if (c->word != w) fail("character '" + c->text + "' does not refer to its word" + at);
      }
    }
    for (const auto* c : p->characters) {
      int n = cc[c];
      if (n > 1) fail("character '" + c->text + "' is in " + num(n) + " words" + at);
      bool ws = c->text.find_first_not_of(" \t\n\r\f\v") == std::string::npos;
      if (n == 0 && !ws && !c->isDiacriticMarkOfBaseChar) {
        fail("character '" + c->text + "' at " + posStr(c->pos) + " is in no word" + at);
      }
    }
    // A merged diacritical mark is part of the text of a character that is in a word.
    std::unordered_map<const PdfCharacter*, int> marks;
    for (const auto* c : p->characters) {
      const PdfCharacter* b = c->isDiacriticMarkOfBaseChar;
      if (!b) continue;
      if (!cc.count(b)) { fail("mark '" + c->text + "' is merged with a foreign character" + at); continue; }
      if (b->isDiacriticMarkOfBaseChar) {
        fail("mark '" + c->text + "' at " + posStr(c->pos) + " is merged with a mark that is in no word" + at);
        continue;
      }
      marks[b]++;
    }
    for (const auto& e : marks) {
      int plain = decomposed(e.first->text), full = decomposed(e.first->textWithDiacriticMark);
      if (plain >= 0 && full < plain + e.second) {
        fail("character '" + e.first->text + "' at " + posStr(e.first->pos) + " has " + num(e.second) +
             " marks, but is output as '" + e.first->textWithDiacriticMark + "'" + at);
      }
    }
    if (off("page-segmentation,") || off("text-lines-detection,")) continue;
    std::unordered_map<const PdfTextLine*, int> lc;
    for (const auto* s : p->segments) {
      for (const auto* l : s->lines) {
        if (lc.count(l)) fail("a line is in two segments" + at);
        box(l->pos, l->words, "line", l->text);
        same(l->pos, l->words, "line", l->text);
        for (size_t i = 1; i < l->words.size(); i++) {
          double x = l->words[i - 1]->pos->getRotLeftX(), y = l->words[i]->pos->getRotLeftX();
          if (l->pos->rotation < 2 ? x > y : x < y) {
            fail("the words '" + l->words[i - 1]->text + "' and '" + l->words[i]->text + "' of a line are out of order" + at);
          }
        }
        if (l->text != joined(l->words)) {
          fail("line '" + l->text + "' consists of the words '" + joined(l->words) + "'" + at);
        }
        lc[l] = 0;
        for (const auto* w : l->words) {
          auto it = wc.find(w);
          if (it == wc.end()) { fail("a line holds a foreign word '" + w->text + "'" + at); continue; }
          it->second++;
          if (w->line != l) fail("word '" + w->text + "' does not refer to its line" + at);
        }
      }
    }
    for (const auto* w : p->words) {
      if (wc[w] == 0) fail("word '" + w->text + "' at " + posStr(w->pos) + " is in no line" + at);
      if (wc[w] > 1) fail("word '" + w->text + "' is in " + num(wc[w]) + " lines" + at);
    }
    if (off("text-blocks-detection,")) continue;
    std::unordered_set<const PdfTextBlock*> bs;
    for (const auto* b : p->blocks) {
      if (!bs.insert(b).second) fail("a block is listed twice" + at);
      box(b->pos, b->lines, "block", b->text);
      same(b->pos, b->lines, "block", b->text);
      if (b->prevBlock && b->prevBlock->nextBlock != b) fail("the block before '" + b->text + "' does not refer to it" + at);
      if (b->nextBlock && b->nextBlock->prevBlock != b) fail("the block after '" + b->text + "' does not refer to it" + at);
      if (b->text != joined(b->lines)) {
        fail("block '" + b->text + "' consists of the lines '" + joined(b->lines) + "'" + at);
      }
      if (b->pos && b->pos->pageNum != p->pageNum) fail("a block of another page" + at);
      for (const auto& l : b->lines) {
        auto it = lc.find(l);
        if (it == lc.end()) { fail("a block holds a foreign line '" + l->text + "'" + at); continue; }
        it->second++;
        size_t i = &l - &b->lines[0], n = b->lines.size();
        if (l->prevLine != (i > 0 ? b->lines[i - 1] : nullptr) || l->nextLine != (i + 1 < n ? b->lines[i + 1] : nullptr)) {
          fail("line '" + l->text + "' refers to other neighbours than it has in its block" + at);
        }
        if (l->block != b) fail("line '" + l->text + "' does not refer to its block" + at);
      }
    }
    for (const auto& e : lc) {
      if (e.second == 0) fail("line '" + e.first->text + "' is in no block" + at);
      if (e.second > 1) fail("line '" + e.first->text + "' is in " + num(e.second) + " blocks" + at);
    }
    if (!off("reading-order-detection,")) {
      for (const auto* b : p->blocks) {
        int r = static_cast<int>(b->role);
        if (r < 0 || r >= static_cast<int>(SEMANTIC_ROLE_NAMES.size())) fail("a role out of range" + at);
      }
    }
  }
  for (size_t i = 0; i < d->pages.size(); i++) {
    if (d->pages[i]->pageNum != static_cast<int>(i) + 1) fail("page numbers out of order");
  }
}

// --- operations ----------------------------------------------------------------------------------

static std::vector<std::string> split0(const std::string& s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (true) {
    size_t j = s.find('\0', i);
    if (j == std::string::npos) { r.push_back(s.substr(i)); return r; }
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
}

struct Slot {
  ppp::config::Config conf;
  PdfDocument* doc = nullptr;
  std::vector<Timing> timings;
  std::string flags;
  int rc = 0;
};
static Slot* gSlots[16];

static void configure(ppp::config::Config* c, const std::string& f) {
  auto has = [&](const char* k) { return f.find(std::string("skip-") + k + ",") != std::string::npos; };
  auto lvl = f.find("trace,") != std::string::npos ? ppp::utils::log::TRACE : ppp::utils::log::ERROR;
  c->pdfParsing.logLevel = lvl;
  c->pdfParsing.skipEmbeddedFontFilesParsing = has("embedded-font-files-parsing");
  c->glyphsStatisticsCalculation.disabled = has("glyphs-statistics-calculation");
  c->diacriticalMarksMerging.disabled = has("diacritic-marks-merging");
  c->wordsDetection.disabled = has("words-detection");
  c->wordsStatisticsCalculation.disabled = has("words-statistics-calculation");
  c->pageSegmentation.disabled = has("page-segmentation");
  c->textLinesDetection.disabled = has("text-lines-detection");
  c->subSuperScriptsDetection.disabled = has("sub-super-scripts-detection");
  c->textLinesStatisticsCalculation.disabled = has("text-lines-statistics-calculation");
  c->textBlocksDetection.disabled = has("text-blocks-detection");
  c->readingOrderDetection.disabled = has("reading-order-detection");
  c->semanticRolesPrediction.disabled = has("semantic-roles-prediction");
  c->wordsDehyphenation.disabled = has("words-dehyphenation");
  c->semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
  c->glyphsStatisticsCalculation.logLevel = lvl;
  c->diacriticalMarksMerging.logLevel = lvl;
  c->wordsDetection.logLevel = lvl;
  c->wordsStatisticsCalculation.logLevel = lvl;
  c->pageSegmentation.logLevel = lvl;
  c->textLinesDetection.logLevel = lvl;
  c->subSuperScriptsDetection.logLevel = lvl;
  c->textLinesStatisticsCalculation.logLevel = lvl;
  c->textBlocksDetection.logLevel = lvl;
  c->readingOrderDetection.logLevel = lvl;
  c->semanticRolesPrediction.logLevel = lvl;
  c->wordsDehyphenation.logLevel = lvl;
}

static void addDump(const std::string& name, const std::string& v) {
  Enter e;
  W->dumps.push_back(std::make_pair(Str(name.c_str(), name.size()), Str(v.data(), v.size())));
  sim::noteHash(v.data(), v.size());
}

static int runMain(const std::vector<std::string>& a) {
  std::vector<std::vector<char>> store;
  std::vector<char*> argv;
  store.push_back(std::vector<char>{'p', 'p', 'p', 0});
  for (size_t i = 1; i < a.size(); i++) {
    store.push_back(std::vector<char>(a[i].begin(), a[i].end()));
    store.back().push_back(0);
  }
  for (auto& s : store) argv.push_back(s.data());
  int argc = argv.size();
  argv.push_back(nullptr);
  return ppp_main(argc, argv.data());
}

static int runOp(const std::string& op) {
  std::vector<std::string> a = split0(op);
  if (a[0] == "main") return runMain(a);
  if (a[0] == "calm") {          // from here on an observer looks at what was left
    Enter e;
    W->calm = 1;
    W->cap = W->outCap = -1;
    return 0;
  }
  if (a[0] == "doc") {           // doc <slot> <pdf> <flags>
    int s = atoi(a[1].c_str());
    Slot* sl = new Slot();
    gSlots[s] = sl;
    sl->flags = a[3];
    configure(&sl->conf, a[3]);
    sl->doc = new PdfDocument(a[2]);
    ppp::PdfToTextPlusPlus engine(&sl->conf);
    try {
      sl->rc = engine.process(sl->doc, &sl->timings);
    } catch (const std::exception& ex) {
      sl->rc = -1;
    }
    addDump("rc" + a[1], std::to_string(sl->rc));
    return 0;
  }
  Slot* sl = a.size() > 1 ? gSlots[atoi(a[1].c_str())] : nullptr;
  if (!sl) return 0;
  if (a[0] == "ser" && sl->rc == 0) {   // ser <slot> <format> <path>
    auto fmt = a[2] == "txt" ? SerializationFormat::TXT : SerializationFormat::TXT_EXTENDED;
    ppp::serialization::Serializer* ser = ppp::serialization::getSerializer(fmt);
    std::unordered_set<SemanticRole> roles;
    for (size_t i = 0; i < SEMANTIC_ROLE_NAMES.size(); i++) roles.insert(SemanticRole(i));
    std::unordered_set<PdfElementType> types;
    for (size_t i = 0; i < PDF_ELEMENT_TYPE_NAMES.size(); i++) types.insert(PdfElementType(i));
    ser->serialize(sl->doc, roles, types, a[3]);
  } else if (a[0] == "dump" && sl->rc == 0) {
    addDump(a[2], dumpDoc(sl->doc));
  } else if (a[0] == "check" && sl->rc == 0) {
    std::string f = sl->flags;
    checkDoc(sl->doc, f);
  } else if (a[0] == "words" && sl->rc == 0) {   // what the output must consist of
    std::string o;
    for (const auto* p : sl->doc->pages) {
      o += "P\n";
      for (const auto* b : p->blocks) {
        o += "B " + num(static_cast<int>(b->role)) + (b->isEmphasized ? " e" : " -") + "\n";
        for (const auto* l : b->lines) {
          o += "L\n";
          for (const auto* w : l->words) {
            std::string t;
            for (const auto* c : w->characters) {
              if (c->isBaseCharOfDiacriticMark) t += c->textWithDiacriticMark;
              else if (!c->isDiacriticMarkOfBaseChar) t += c->text;
            }
            o += std::string("W ") + (w->isFirstPartOfHyphenatedWord ? "1" : "-") +
              (w->isSecondPartOfHyphenatedWord ? "2" : "-") + " " +
              (w->isFirstPartOfHyphenatedWord ? w->isFirstPartOfHyphenatedWord->text : "") + "\t" + t + "\n";
          }
        }
      }
    }
    addDump(a[2], o);
  } else if (a[0] == "roles") {
    std::string o;
    for (const auto* p : sl->doc->pages)
      for (const auto* b : p->blocks) o += num(static_cast<int>(b->role)) + " " + b->text + "\n";
    addDump(a[2], o);
  } else if (a[0] == "predict" && sl->rc == 0) {   // one predictor for all documents of the process
    static ppp::config::SemanticRolesPredictionConfig conf;
    conf.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
    static ppp::modules::SemanticRolesPrediction predictor(&conf);
    std::string how = "ok";
    try {
      predictor.predict(sl->doc);
    } catch (const std::exception& ex) {
      how = "failed";
    }
    addDump(a[2], how);
  } else if (a[0] == "timings") {
    std::string o;
    for (auto& t : sl->timings) o += t.name + "\t" + std::to_string(t.time) + "\n";
    addDump(a[2], o);
  } else if (a[0] == "free") {
    delete sl->doc;
    delete sl;
    gSlots[atoi(a[1].c_str())] = nullptr;
  }
  return 0;
}

__attribute__((noinline)) static void dirtyStack(int pat) {
  volatile unsigned char b[384 * 1024];
  for (size_t i = 0; i < sizeof(b); i++) b[i] = pat;
}

static std::vector<KV> gReq;
static int gCpu = 20;

static void parse(const std::string& s) {
  gReq.clear();
  size_t i = 0;
  while (i < s.size()) {
    unsigned kl = static_cast<unsigned char>(s[i]);
    i++;
    std::string k = s.substr(i, kl);
    i += kl;
    uint32_t vl;
    memcpy(&vl, s.data() + i, 4);
    i += 4;
    gReq.push_back(KV(k, s.substr(i, vl)));
    i += vl;
  }
}

static Str S(const std::string& s) { return Str(s.data(), s.size()); }

static void buildWorld() {
  W = new (sim::shmAlloc(sizeof(sim::World))) sim::World();
  for (auto& kv : gReq) {
    const std::string& k = kv.first;
    const std::string& v = kv.second;
    long long n = atoll(v.c_str());
    if (k == "seed") W->seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "heap") {
      long long p = 0, g = 0, f = 0, sh = 0;
      sscanf(v.c_str(), "%lld %lld %lld %lld", &p, &g, &f, &sh);
      W->heapPolicy = p; W->heapGap = g; W->heapFill = f; W->heapShift = sh;
    }
    else if (k == "heaplimit") W->heapLimit = n;
    else if (k == "clock") {
      long long b = 0, st = 0, io = 0;
      sscanf(v.c_str(), "%lld %lld %lld", &b, &st, &io);
      W->clockBase = b; W->clockStep = st; W->ioStep = io;
    }
    else if (k == "pid") W->pid = n;
    else if (k == "cwd") W->cwd = S(v);
    else if (k == "cap") W->cap = n;
    else if (k == "outcap") W->outCap = n;
    else if (k == "outerr") W->outErr = n;
    else if (k == "outsig") W->outSig = n;
    else if (k == "ask") W->modelAsk = n;
    else if (k == "par") { W->par = 1; W->preempt = n; }
    else if (k == "sched") { for (char c : v) W->sched.push_back(static_cast<unsigned char>(c)); }
    else if (k == "maxsteps") W->maxSteps = n;
    else if (k == "cpu") gCpu = n;
    else if (k == "log") W->logOn = n;
    else if (k == "model") {
      long long m = 0, ar = 0; unsigned long long sa = 0;
      sscanf(v.c_str(), "%lld %lld %llu", &m, &ar, &sa);
      W->modelMode = m; W->modelArg = ar; W->modelSalt = sa;
    }
    else if (k == "dir" || k == "rodir") {
      sim::Node& d = W->fs[S(v)];
      d.dir = 1;
      d.ino = ++W->ino;
      d.denyWrite = k == "rodir";
      d.mtime = W->clockBase;
    }
    else if (k == "link") {
      size_t z = v.find('\0');
      sim::Node& f = W->fs[S(v.substr(0, z))];
      f.data.assign(v.data() + z + 1, v.size() - z - 1);
      f.link = 1;
      f.ino = ++W->ino;
      f.mtime = W->clockBase;
      W->links = 1;
    }
    else if (k == "file" || k == "rofile" || k == "wofile") {
      size_t z = v.find('\0');
      sim::Node& f = W->fs[S(v.substr(0, z))];
      f.data.assign(v.data() + z + 1, v.size() - z - 1);
      f.ino = ++W->ino;
      f.denyWrite = k == "rofile";
      f.denyRead = k == "wofile";
      f.mtime = W->clockBase;
    }
    else if (k == "fault") {
      char op[32], path[512], act[32];
      long long nth = 0, arg = 0;
      int st = 0;
      if (sscanf(v.c_str(), "%31s %511s %lld %31s %lld %d", op, path, &nth, act, &arg, &st) < 4) {
        fprintf(stderr, "bad fault: %s\n", v.c_str());
        _exit(94);
      }
      sim::Fault f;
      f.op = -1; f.act = -1;
      for (int i = 0; i < sim::OP_N; i++) if (!strcmp(op, sim::OP_NAMES[i])) f.op = i;
      for (int i = 0; i < sim::ACT_N; i++) if (!strcmp(act, sim::ACT_NAMES[i])) f.act = i;
      if (f.op < 0 || f.act < 0) { fprintf(stderr, "bad fault: %s\n", v.c_str()); _exit(94); }
      f.path = path; f.nth = nth; f.arg = arg; f.sticky = st; f.seen = 0; f.fired = 0;
      // "%20" stands for a space inside a path.
      size_t q;
      while ((q = f.path.find("%20")) != Str::npos) f.path.replace(q, 3, " ");
      W->faults.push_back(f);
      if (f.op == sim::OP_ALLOC) W->allocFaults = 1;
      if (f.op == sim::OP_CLOCK) W->clockFaults = 1;
    }
  }
  uint64_t x = W->seed;
  for (int i = 0; i < 4; i++) {
    x += 0x9E3779B97F4A7C15ULL;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    W->rng[i] = z ^ (z >> 31);
  }
  W->now = W->startNow = W->clockBase;
  W->randState = W->seed;
  for (const char* d : {"/", "/work", "/tmp", "/home", "/var"}) {
    sim::Node& n = W->fs[d];
    n.dir = 1;
    if (!n.ino) n.ino = ++W->ino;
  }
}

#ifndef SIM_NO_HEAP
// Says where a process died, so that a crash can be attributed.
static void onCrash(int sig) {
  sim::gSimDepth++;
  void* f[64];
  int n = backtrace(f, 64);
  static const char m[] = "crash frames:\n";
  syscall(SYS_write, 2, m, sizeof(m) - 1);
  backtrace_symbols_fd(f, n, 2);
  signal(sig, SIG_DFL);
  sigset_t u;
  sigemptyset(&u);
  sigaddset(&u, sig);
  sigprocmask(SIG_UNBLOCK, &u, nullptr);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
}
#endif

static void lifetime(const std::vector<std::string>& ops, int errFd) {
  struct rlimit rl = {static_cast<rlim_t>(gCpu), static_cast<rlim_t>(gCpu) + 2};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 64ULL << 20;
  setrlimit(RLIMIT_STACK, &rl);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPIPE, SIGXCPU}) {
#ifdef SIM_NO_HEAP
    if (s == SIGPIPE || s == SIGXCPU)
#endif
    signal(s, SIG_DFL);
#ifndef SIM_NO_HEAP
    if (s != SIGPIPE && s != SIGXCPU) {
      static char alt[256 * 1024];
      stack_t ss = {};
      ss.ss_sp = alt;
      ss.ss_size = sizeof(alt);
      sigaltstack(&ss, nullptr);
      struct sigaction sa = {};
      sa.sa_handler = onCrash;
      sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
      sigaction(s, &sa, nullptr);
    }
#endif
  }
  dup2(errFd, 2);
  const char* lp = getenv("LOCPATH");
  const std::string locpath = lp ? lp : "";
  clearenv();
  setenv("LOCPATH", locpath.c_str(), 1);
  setenv("TZ", "UTC", 1);
  setenv("PATH", "/usr/bin:/bin", 1);
  setenv("HOME", "/work", 1);
  for (auto& kv : gReq) {
    if (kv.first == "env") {
      size_t q = kv.second.find('=');
      setenv(kv.second.substr(0, q).c_str(), kv.second.substr(q + 1).c_str(), 1);
    }
  }
  dirtyStack(W->heapFill < 6 ? (int[]){0, 0xA5, 0xFF, 1, 0x7F, 0x3E}[W->heapFill] : 0x40);
  sim::heapStart();
  sim::stdioStart();
  if (W->par) sim::waitTurn();
  sim::gActive = true;
  int rc = 0;
  for (auto& op : ops) rc = runOp(op);
  exit(rc);
}

static void scenario(int respFd) {
  sim::shmInit(2ULL << 30);
  buildWorld();
  std::vector<std::vector<std::string>> procs;
  for (auto& kv : gReq) {
    if (kv.first == "proc") procs.push_back({});
    if (kv.first == "op") {
      if (procs.empty()) procs.push_back({});
      procs.back().push_back(kv.second);
    }
  }
  if (procs.size() > static_cast<size_t>(sim::MAXPROC)) _exit(95);
  int n = procs.size();
  std::vector<int> errFd(n), pids(n, -1), status(n, 0);
  for (int i = 0; i < n; i++) errFd[i] = memfd_create("err", 0);
  auto start = [&](int i) {
    sim::gProc = i;
    W->heapBytes = 0;
    for (auto& f : W->faults) f.seen = 0;
    W->procs[i].alive = 1;
    pid_t pid = fork();
    if (pid == 0) lifetime(procs[i], errFd[i]);
    pids[i] = pid;
  };
  if (!W->par) {
    for (int i = 0; i < n; i++) {
      start(i);
      while (waitpid(pids[i], &status[i], 0) < 0 && errno == EINTR) {}
      W->procs[i].alive = 0;
    }
  } else {
    for (int i = 0; i < n; i++) start(i);
    sim::passTurn(-1);
    for (int left = n; left > 0; left--) {
      int st = 0;
      pid_t pid;
      while ((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
      int i = 0;
      while (i < n && pids[i] != pid) i++;
      status[i] = st;
      W->procs[i].alive = 0;
      if (W->turn == i) sim::passTurn(i);
    }
  }
  for (int i = 0; i < n; i++) {
    sim::Proc& pr = W->procs[i];
    int st = status[i];
    std::string how;
    if (pr.exceeded) how = "hang steps";
    else if (pr.crashed) how = "crash";
    else if (WIFSIGNALED(st)) {
      how = (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? "hang cpu"
        : "signal " + std::to_string(WTERMSIG(st));
    } else {
      how = "exit " + std::to_string(WEXITSTATUS(st));
    }
    put("life", how);
    put("stdout", pr.out);
    put("stderr", pr.err);
    put("steps", std::to_string(pr.steps));
    off_t len = syscall(SYS_lseek, errFd[i], 0, SEEK_END);
    if (len > 0) {
      if (len > 20000) len = 20000;
      std::string raw(len, 0);
      syscall(SYS_pread64, errFd[i], raw.data(), len, 0);
      put("rawerr", raw);
    }
    std::string cnt;
    for (int k = 0; k < sim::OP_N; k++) {
      if (pr.opCount[k]) {
        cnt += std::string(sim::OP_NAMES[k]) + " " + std::to_string(pr.opCount[k]) + "\n";
      }
    }
    put("counts", cnt);
    sim::noteHash(how.data(), how.size());
  }
  if (W->par) {
    put("sched", std::to_string(W->switches) + " " + std::to_string(W->schedHash));
    put("schedlog", reinterpret_cast<const char*>(W->schedLog.data()), W->schedLog.size());
  }
  put("hash", std::to_string(W->hash ^ W->heapHash));
  put("simns", std::to_string(W->clockMono));
  for (auto& f : W->faults) put("fired", std::to_string(f.fired));
  for (auto& n : W->fs) {
    if (n.second.changed) {
      Str v = n.first;
      v += '\0';
      v += n.second.dir ? "D" : n.second.link ? "L" : "F";
      v += n.second.data;
      put("node", v);
    }
  }
  std::string all;
  for (auto& n : W->fs) { all += n.first.c_str(); all += n.second.dir ? "/\n" : "\n"; }
  put("tree", all);
  for (auto& n : W->notes) put("note", n);
  for (auto& c : W->shell) put("shell", c);
  for (auto& d : W->dumps) { Str v = d.first; v += '\0'; v += d.second; put("dump", v); }
  std::string st;
  for (auto& x : W->stepLog) {
    st += std::to_string(x.proc) + "\t" + x.name + "\t" + std::to_string(x.begin) + "\t" + std::to_string(x.end) + "\n";
  }
  put("steplog", st);
  st.clear();
  for (auto& x : W->stepLog) {
    st += std::string(x.name) + "\t" + std::to_string(x.alloc0) + "\t" + std::to_string(x.alloc1) + "\n";
  }
  put("stepallocs", st);
  st.clear();
  for (auto& x : W->delayLog) {
    st += std::to_string(x.proc) + "\t" + x.step + "\t" + x.last + "\t" + sim::OP_NAMES[x.op] + "\t" +
      x.path.c_str() + "\t" + std::to_string(x.ns) + "\n";
  }
  put("delaylog", st);
  std::string clk;
  for (auto c : W->clockReads) clk += std::to_string(c) + " ";
  put("clock", clk);
  put("heap", std::to_string(W->heapAllocs) + " " + std::to_string(W->heapPeak) + " " +
    std::to_string(W->heapReused));
  if (W->logOn) {
    Str l;
    for (auto& s : W->log) { l += s; l += '\n'; }
    put("log", l);
  }
  uint32_t rn = gResp.size();
  writeAll(respFd, &rn, 4);
  writeAll(respFd, gResp.data(), rn);
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  (void) argc;
#ifndef SIM_NO_HEAP
  void* prime[4];
  backtrace(prime, 4);
#endif
  signal(SIGPIPE, SIG_IGN);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  while (true) {
    uint32_t n;
    if (!readAll(0, &n, 4)) return 0;
    std::string s(n, 0);
    if (!readAll(0, s.data(), n)) return 0;
    pid_t pid = fork();
    if (pid == 0) {
      parse(s);
      scenario(1);
      _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      // The simulator itself failed: say so, never guess.
      uint32_t z = 0xffffffffu;
      writeAll(1, &z, 4);
      int32_t v = st;
      writeAll(1, &v, 4);
    }
  }
}
