// DASH output: the manifest and the folder (D01, D03), the content of the segments (D02), the description of the streams (D04).
#include "fs.h"
#include "filters.h"
#include "modules/dasher/Dasher.hh"
#include "AudioFrame.hh"
#include <tinyxml2.h>
using namespace sim;
namespace {
const int64_t VTB = 12800;
// ---- segment files -----------------------------------------------------------------------------
uint32_t u32(const std::string &s, size_t p) { return (uint8_t)s[p] << 24 | (uint8_t)s[p + 1] << 16 | (uint8_t)s[p + 2] << 8 | (uint8_t)s[p + 3]; }
uint64_t u64(const std::string &s, size_t p) { return (uint64_t)u32(s, p) << 32 | u32(s, p + 4); }
struct Box { std::string type; size_t pos, len; };       // whole box
bool boxes(const std::string &s, size_t from, size_t to, std::vector<Box> &v) { v.clear(); while (from < to) { if (to - from < 8) return false; size_t n = u32(s, from); if (n < 8 || n > to - from) return false; v.push_back(Box{s.substr(from + 4, 4), from, n}); from += n; } return true; }
const Box *box(const std::vector<Box> &v, const char *t) { for (auto &b : v) if (b.type == t) return &b; return nullptr; }
struct Smp { std::string data; uint32_t dur = 0, flags = 0; int32_t cto = 0; };
struct Seg { uint32_t seq = 0; uint64_t tfdt = 0, ept = 0, dur = 0; std::vector<Smp> s; };
std::string parse_seg(const std::string &f, Seg &g)      // "" or what is wrong
{
    std::vector<Box> top, mf, tr; if (f.empty()) return "empty"; if (!boxes(f, 0, f.size(), top)) return "cut off";
    const Box *moof = box(top, "moof"), *mdat = box(top, "mdat"), *sidx = box(top, "sidx"); if (!moof || !mdat || !box(top, "styp")) return "without its media data";
    if (!boxes(f, moof->pos + 8, moof->pos + moof->len, mf)) return "with a damaged fragment header";
    const Box *mfhd = box(mf, "mfhd"), *traf = box(mf, "traf"); if (!mfhd || !traf || !boxes(f, traf->pos + 8, traf->pos + traf->len, tr)) return "with a damaged fragment header";
    const Box *tfdt = box(tr, "tfdt"), *trun = box(tr, "trun"); if (!tfdt || !trun || mfhd->len < 16) return "with a damaged track fragment";
    g.seq = u32(f, mfhd->pos + 12); g.tfdt = f[tfdt->pos + 8] ? u64(f, tfdt->pos + 12) : u32(f, tfdt->pos + 12);
    uint32_t fl = u32(f, trun->pos + 8) & 0xffffff, n = u32(f, trun->pos + 12); size_t p = trun->pos + 16, end = trun->pos + trun->len; size_t off = 0;
    if (fl & 1) { off = moof->pos + u32(f, p); p += 4; } else off = mdat->pos + 8; if (fl & 4) p += 4;
    for (uint32_t i = 0; i < n; i++) {
        Smp x; size_t need = 4 * (!!(fl & 0x100) + !!(fl & 0x200) + !!(fl & 0x400) + !!(fl & 0x800)); if (end - p < need) return "with a damaged sample table"; uint32_t sz = 0;
        if (fl & 0x100) x.dur = u32(f, p), p += 4; if (fl & 0x200) sz = u32(f, p), p += 4; if (fl & 0x400) x.flags = u32(f, p), p += 4; if (fl & 0x800) x.cto = (int32_t)u32(f, p), p += 4;
        if (off < mdat->pos + 8 || off + sz > mdat->pos + mdat->len) return "whose samples lie outside of its media data";
        x.data = f.substr(off, sz); off += sz; g.dur += x.dur; g.s.push_back(std::move(x));
    }
    if (off != mdat->pos + mdat->len) return "with media data that belongs to no sample";
    g.ept = g.tfdt; if (sidx && sidx->len >= 28) { g.ept = u64(f, sidx->pos + 20); if (u32(f, sidx->pos + 40) != moof->len + mdat->len) return "with a wrong index"; }
    return "";
}
std::string parse_init(const std::string &f) { std::vector<Box> top; if (f.empty()) return "empty"; if (!boxes(f, 0, f.size(), top)) return "cut off"; if (!box(top, "ftyp") || !box(top, "moov")) return "without a movie header"; return ""; }
// ---- manifest ----------------------------------------------------------------------------------
struct Rep { std::string codecs; int w, h, bw, sr, ch; };
struct Root { std::string type, upd, depth, minBuf, ast, start; };
struct MSet { std::map<std::string, Rep> rep; std::string mime; int maxW, maxH; std::string id, media, init; uint64_t ts; bool video; std::vector<std::pair<uint64_t, uint64_t>> s; std::vector<std::string> reps; };
bool parse_mpd(const std::string &f, std::vector<MSet> &out, Root &root)
{
    tinyxml2::XMLDocument d; out.clear(); if (d.Parse(f.data(), f.size()) != tinyxml2::XML_SUCCESS) return false;
    auto *r = d.RootElement(); if (!r || strcmp(r->Name(), "MPD")) return false; auto *p = r->FirstChildElement("Period"); if (!p) return false;
    auto at = [](tinyxml2::XMLElement *e, const char *k) { const char *v = e ? e->Attribute(k) : nullptr; return std::string(v ? v : ""); };
    root = Root{at(r, "type"), at(r, "minimumUpdatePeriod"), at(r, "timeShiftBufferDepth"), at(r, "minBufferTime"), at(r, "availabilityStartTime"), at(p, "start")};
    for (auto *a = p->FirstChildElement("AdaptationSet"); a; a = a->NextSiblingElement("AdaptationSet")) {
        MSet m; const char *id = a->Attribute("id"), *mt = a->Attribute("mimeType"); m.id = id ? id : ""; m.video = mt && !strncmp(mt, "video", 5);
        auto *t = a->FirstChildElement("SegmentTemplate"); if (!t) return false; m.media = t->Attribute("media") ? t->Attribute("media") : ""; m.init = t->Attribute("initialization") ? t->Attribute("initialization") : ""; m.ts = t->IntAttribute("timescale");
        auto *l = t->FirstChildElement("SegmentTimeline"); if (l) for (auto *s = l->FirstChildElement("S"); s; s = s->NextSiblingElement("S")) m.s.push_back({strtoull(s->Attribute("t") ? s->Attribute("t") : "0", 0, 10), strtoull(s->Attribute("d") ? s->Attribute("d") : "0", 0, 10)});
        for (auto *x = a->FirstChildElement("Representation"); x; x = x->NextSiblingElement("Representation")) { m.reps.push_back(at(x, "id")); m.rep[at(x, "id")] = Rep{at(x, "codecs"), x->IntAttribute("width"), x->IntAttribute("height"), x->IntAttribute("bandwidth"), x->IntAttribute("audioSamplingRate"), atoi(at(x->FirstChildElement("AudioChannelConfiguration"), "value").c_str())}; }
        m.mime = at(a, "mimeType"); m.maxW = a->IntAttribute("maxWidth"); m.maxH = a->IntAttribute("maxHeight");
        out.push_back(m);
    }
    return true;
}
std::string subst(std::string s, const std::string &id, uint64_t t) { auto rep = [&](const char *k, const std::string &v) { size_t p; while ((p = s.find(k)) != std::string::npos) s.replace(p, strlen(k), v); }; rep("$RepresentationID$", id); rep("$Time$", std::to_string(t)); return s; }
// ---- inputs ------------------------------------------------------------------------------------
struct Au { int64_t pts, dts; bool key; };
struct Timeline { std::vector<Au> au; int64_t start, period, next; int gop, nb, jit, gapDen; int64_t gapMax; int k = 0; bool useDts; };
void more(Timeline &t)       // one more group of pictures' worth of access units in decoding order
{
    auto disp = [&](bool first = true) { int64_t x = t.next; t.next += t.period; if (first && t.gapDen && chance(W, 1, t.gapDen)) { t.next += range(W, 1000, t.gapMax); probe("gap"); } return x + (t.jit ? (int64_t)choose(W, t.jit) : 0); };
    int64_t delay = t.nb * t.period + t.jit;
    if (!t.nb) { int64_t x = disp(); t.au.push_back(Au{x, t.useDts ? x : -1, t.k % t.gop == 0}); t.k++; return; }
    // key frames are displayed in their turn; P frames ahead of the B frames before them
    if (t.k % t.gop == 0) { int64_t x = disp(); t.au.push_back(Au{x + delay, x, true}); t.k++; return; }
    int nb = std::min<int>(t.nb, t.gop - t.k % t.gop - 1); std::vector<int64_t> d; for (int i = 0; i <= nb; i++) d.push_back(disp(i == nb));
    t.au.push_back(Au{d[nb] + delay, d[0], false}); for (int i = 0; i < nb; i++) t.au.push_back(Au{d[i] + delay, d[i + 1], false}); t.k += nb + 1;
}
struct Nal { std::string b; int64_t pts, dts; int w = 0, h = 0; };
struct VQ : public VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n, unsigned len) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(si->video.codec, len); } };
struct AQ : public AudioFrameQueue { AQ(ConnectionData c, const StreamInfo *si, unsigned n) : AudioFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedAudioFrame::createNew(si->audio.channels, si->audio.sampleRate, 1024, AAC, S16); } };
struct Conf { std::string vps, sps, pps; };
struct MS { std::string data; int64_t pts, dts; bool key; int w = 0, h = 0; size_t conf = 0; };       // expected sample
struct In {                  // one input of the dasher and what the model knows about it
    int rid; bool video, hevc; std::unique_ptr<hf::Head> h; std::shared_ptr<Timeline> tl; size_t pos = 0; std::deque<Nal> out; unsigned slice; int aud, sei, slices, noParams, param = 0, paramEvery; bool startCode3;
    bool connected = false, fed = true; FrameQueue *q = nullptr; unsigned qlen, flen;
    int w = 640, hgt = 360; int sr = 48000, ch = 2, fd = 1024; double apos = 0; int64_t astart = 0; int ajit; uint64_t aser = 0; int sfi;
    // model, from what the dasher was given
    std::vector<Conf> confs; Conf newc; size_t lastConf = 0, lastFirst = 0; bool bad = false; int resize = 0; bool params = false, started = false, lossy = false, mixed = false; std::vector<MS> au; MS cur; bool open = false; int64_t curTime = 0; size_t next = 0; uint32_t lastSeq = 0; bool anySeg = false; uint64_t lastEnd = 0; int64_t segDur; std::string conf; int64_t lastGiven = 0; bool skipAu = false; std::vector<std::pair<int64_t, int64_t>> keys; size_t nals = 0, segBytes = 0, segSamples = 0; bool broken = false; std::pair<uint64_t, std::string> lastFile{0, ""}; int64_t joined = 0; int gone = 0; bool last = false;
};
struct Src : public hf::Head { In *in; Src(int id) : Head(id) {} FrameQueue *allocQueue(ConnectionData c) override { Harness h; Sut u; in->q = in->video ? (FrameQueue *)new VQ(c, &si, in->qlen, in->flen) : (FrameQueue *)new AQ(c, &si, in->qlen); return in->q; } };
std::string blob(unsigned n, uint64_t seed) { std::string s(n, 0); uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345; for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)(x >> 24); } return s; }
uint64_t g_ser;
struct Run;
Run *R;
struct TapDasher : public Dasher { TapDasher() : Dasher(MAX_READERS) {} bool doProcessFrame(std::map<int, Frame *> &o, std::vector<int> n, int &ret) override; };
struct Run {
    TapDasher *d = nullptr; std::vector<std::unique_ptr<In>> ins; std::map<int, In *> byId; int64_t offset = 0; bool haveOffset = false;
    std::string folder, base; unsigned maxSeg = 2; int64_t segDur = 1; bool conf = false; bool multi = false, everUnaligned = false, bigMode = false, deadMode = false, mt = false; bool d1, d2, d3, d4; bool cleanSince = true; long minBuf = 0; std::string ast; int64_t wall0 = 0; std::map<int, std::vector<int>> bitrates;
    struct Pub { std::vector<MSet> sets; bool ok = false; }; std::map<std::string, Pub> pub;    // manifests, by path
    std::map<std::string, std::pair<uint64_t, uint64_t>> good;  // verified files: node version and content hash
    std::map<std::string, Seg> segs; std::map<std::string, std::string> listed;  // listed file -> manifest
    std::set<std::string> grand, inherited;   // files of earlier configurations; listed by the manifest of a process that died
    std::map<std::string, uint64_t> failSince; bool changed = false; uint64_t pubs = 0, pubsAtStep = 0, failedAtStep = 0, failedAtManifest = 0; int samples = 0; std::map<std::string, uint64_t> lastFail; uint64_t lastReaderChange = 0; std::map<std::string, unsigned> minWin, maxWin; std::map<std::string, bool> flushed; std::map<std::string, bool> trimmed; uint64_t videoPubs = 0; bool audioClean = true; std::map<std::string, std::map<std::string, uint64_t>> seenHash;
    std::string mpd() { return folder + base + ".mpd"; }
    In *in(const std::string &id) { auto it = byId.find(atoi(id.c_str())); return it == byId.end() ? nullptr : it->second; }
    // -- model of what has to end up in the segments
    int64_t tick(In *i, int64_t us) { return i->video ? (us - offset) * VTB / 1000000 : (us - offset) * i->sr / 1000000; }
    void closeAu(In *i)
    {
        if (!i->open) return; i->open = false; if (i->skipAu) return;
        if (!i->started) { if (!i->cur.key || !i->params || i->curTime < offset) return; i->started = true; }
        if (i->cur.key) { // representations are aligned while their key frames, and the frames before them, have the same times
            i->keys.push_back({i->cur.dts, i->au.empty() ? 0 : i->au.back().dts}); size_t n = i->keys.size() - 1; for (auto &x : ins) if (x.get() != i && x->video && x->connected && x->keys.size() > n && x->keys[n] != i->keys[n]) everUnaligned = true;
        }
        i->au.push_back(i->cur);
        // a representation that is two whole segments ahead of what is written waits, and is cut elsewhere than the others from then on
        if (i->cur.key) { size_t c = cut(i, i->next); if (c && cut(i, c)) everUnaligned = true; }
    }
    size_t cut(In *i, size_t from) { for (size_t k = from + 1; k < i->au.size(); k++) if (i->au[k].key && tick(i, i->au[k].dts) - tick(i, i->au[from].dts) + tick(i, i->au[k].dts) - tick(i, i->au[k - 1].dts) + 2 >= i->segDur * VTB) return k; return 0; }
    void given(In *i, Frame *f)
    {
        int64_t pts = f->getPresentationTime().count(), dts = f->getDecodeTime().count(), ft = dts != -1 && dts <= pts ? dts : pts; std::string b((char *)f->getDataBuf(), f->getLength());
        if (!haveOffset) { haveOffset = true; offset = ft; log("time zero %lld", (long long)offset); }
        i->lastGiven = now_ns(); i->nals++;
        if (!i->video && (b.size() < 7 || b[0] != (char)0xff || b[1] != (char)0xf1)) { probe("no_adts"); return; }
        if (!i->video) { if (ft < offset) { probe("audio_before_start"); return; } i->started = true; i->au.push_back(MS{b.substr(7), pts, pts, true}); return; }
        b = b.substr(b[2] == 1 ? 3 : 4); if (b.empty()) { probe("empty_nal"); return; }
        int t = i->hevc ? (b[0] & 0x7e) >> 1 : b[0] & 0x1f;
        bool aud = i->hevc ? t == 35 : t == 9, slice = i->hevc ? t < 32 : t == 1 || t == 5, key = i->hevc ? t >= 19 && t <= 21 : t == 5;
        if (i->hevc ? t == 38 : t == 12) { probe("filler"); return; }
        if (aud || (i->open && ft > i->curTime)) closeAu(i);
        if (i->hevc && t == 32) i->newc.vps = b; if (i->hevc ? t == 33 : t == 7) i->newc.sps = b; if (i->hevc ? t == 34 : t == 8) i->newc.pps = b;
        if (!i->newc.sps.empty() && !i->newc.pps.empty() && (!i->hevc || !i->newc.vps.empty())) { i->params = true; if (i->confs.empty() || i->confs.back().sps != i->newc.sps) i->confs.push_back(i->newc); i->newc = Conf(); }
        if (slice) {
            if (!i->open) { i->open = true; i->cur = MS{"", pts, dts == -1 ? pts : dts, false}; i->curTime = ft; i->skipAu = false; }
            uint32_t n = b.size(); char l[4] = {(char)(n >> 24), (char)(n >> 16), (char)(n >> 8), (char)n}; i->cur.data.append(l, 4); i->cur.data += b; if (key) i->cur.key = true; VideoFrame *v = dynamic_cast<VideoFrame *>(f); i->cur.w = v->getWidth(); i->cur.h = v->getHeight(); i->cur.conf = i->confs.empty() ? 0 : i->confs.size() - 1;
        }
    }
    // -- what is on the disk
    static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
    const char *stateOf(const std::string &p, bool init, Seg **sg, std::string &why)
    {
        auto it = simfs::files.find(p); if (it == simfs::files.end()) { why = "that does not exist"; return "missing"; }
        auto &g = good[p]; uint64_t v = it->second->ver + 1; if (g.first == v && (init || segs.count(p))) { if (sg) *sg = &segs[p]; return nullptr; }
        Seg s; std::string w = init ? parse_init(it->second->data) : parse_seg(it->second->data, s); if (!w.empty()) { why = "that is " + w; return "incomplete"; }
        g.first = v; g.second = fnv(it->second->data); if (!init) { segs[p] = s; if (sg) *sg = &segs[p]; } return nullptr;
    }
    void disk(const char *op, const std::string &p)
    {
        if (p.size() > 4 && p.substr(p.size() - 4) == ".mpd") { manifest(op, p); return; }
        uint64_t was = good.count(p) ? good[p].second : 0; arrived(p); auto l = listed.find(p); if (l == listed.end()) return;
        std::string why; bool init = p.find("_init.") != std::string::npos; Seg *g = nullptr;
        if (stateOf(p, init, &g, why)) { if (d1) violation(init ? "listed-init-lost" : "listed-segment-lost", "after '%s' the manifest %s lists %s %s", op, l->second.c_str(), p.c_str(), why.c_str()); return; }
        if (!init && was && was != good[p].second && d1 && !inherited.count(p) && !everUnaligned)   // (segments that are not aligned share names)
            violation("listed-segment-changed", "%s changes its content while the manifest lists it", p.c_str());
    }
    // a complete segment appears on the disk
    void arrived(const std::string &p)
    {
        std::string pre = folder + base + "_"; if ((!d2 && !d1 && !d4) || p.compare(0, pre.size(), pre) || simfs::opened(p) || p.size() < 5 || (p.compare(p.size() - 4, 4, ".m4v") && p.compare(p.size() - 4, 4, ".m4a"))) return;
        size_t u = p.find('_', pre.size()); if (u == std::string::npos || !isdigit(p[u + 1])) return; std::string id = p.substr(pre.size(), u - pre.size()), why; In *i = in(id); Seg *g; if (!i || stateOf(p, false, &g, why)) return;
        auto &h = seenHash[id][p]; if (h == good[p].second) return; h = good[p].second; if (i->lastFile.first == h) info[p] = info[i->lastFile.second]; else content(i, p); i->lastFile = {h, p}; unl[i->rid].push_back(p);   // (the same one once more after the path changed)
    }
    struct Info { int64_t ep; uint64_t dur; }; std::map<std::string, Info> info; std::map<int, std::vector<std::string>> unl;   // of segments; those not listed yet
    void manifest(const char *op, const std::string &p)
    {
        auto it = simfs::files.find(p); Pub &P = pub[p];
        if (it == simfs::files.end()) { if (P.ok && d1 && p == mpd()) violation("manifest-lost", "'%s' removes the manifest", op); P.ok = false; P.sets.clear(); return; }
        std::vector<MSet> m; Root root; if (!parse_mpd(it->second->data, m, root)) { if (d1) violation("manifest-incomplete", "after '%s' the manifest %s is not a complete document (%zu bytes)", op, p.c_str(), it->second->data.size()); return; }
        std::string dir = p.substr(0, p.rfind('/') + 1), why; pubs++; changed = true; cleanSince = simfs::failed == failedAtManifest; failedAtManifest = simfs::failed;
        for (auto l = listed.begin(); l != listed.end();) if (l->second == p) listed.erase(l++); else ++l;
        int nseg = 0;
        for (MSet &s : m) for (auto &r : s.reps) {
            if (s.s.empty()) continue;
            std::string ini = dir + subst(s.init, r, 0); Seg *g; if (stateOf(ini, true, nullptr, why)) { if (d1) violation("no-init-segment", "the manifest lists the initialisation segment %s %s", ini.c_str(), why.c_str()); return; }
            listed[ini] = p;
            for (auto &e : s.s) { std::string f = dir + subst(s.media, r, e.first); uint64_t was = good.count(f) ? good[f].second : 0; const char *st = stateOf(f, false, &g, why); if (st) { if (d1) violation("no-segment", "the manifest lists the segment %s %s", f.c_str(), why.c_str()); return; } listed[f] = p; inherited.erase(f); nseg++; }
        }
        std::vector<MSet> old = P.sets; bool had = P.ok; P.sets = m; P.ok = true; log("manifest: %zu sets, %d segments", m.size(), nseg);
        if (d4 && p == mpd()) describe(root);
        for (MSet &s : m) { const MSet *o = nullptr; for (auto &x : old) if (x.id == s.id) o = &x; published(p, dir, s, had ? o : nullptr); }
    }
    void published(const std::string &p, const std::string &dir, MSet &s, const MSet *o)
    {
        std::vector<std::pair<uint64_t, uint64_t>> L; if (o) L = o->s; std::string key = p + s.id; bool fl = flushed[key], tr = trimmed[key]; flushed[key] = trimmed[key] = false;
        for (auto &x : ins) if (x->video == s.video && x->gone >= 1 && x->gone < (mt ? 4 : 2)) (x->last ? flushed : trimmed)[key] = true;   // (each reader that leaves has a manifest of its own)
        if (fl && (s.s.empty() || !(L.size() && s.s.size() >= L.size() && std::equal(L.begin(), L.end(), s.s.begin())))) L.clear();
        // what is new
        size_t ov = std::min(L.size(), s.s.size()); while (ov && !std::equal(s.s.begin(), s.s.begin() + ov, L.end() - ov)) ov--;
        if (tr) L.erase(L.begin(), L.end() - ov);   // what only a removed representation had
        size_t fresh = s.s.size() - ov; unsigned win = std::max(maxSeg, 2u);
        if (d3) {
            unsigned high = win; if (lastFail.count(key) && maxWin.count(key)) high = std::max(high, maxWin[key]); if (fresh && s.s.size() > high) violation("window-too-long", "the manifest lists %zu segments, the window has %u", s.s.size(), win);
            unsigned low = win; if (minWin.count(key)) low = std::min(low, minWin[key]);   // (it may have been smaller when a manifest could not be written)
            if (fresh && L.size() + fresh >= low ? s.s.size() < low : s.s.size() < L.size() + fresh) if (fresh || s.s.size() != L.size()) violation("window-too-short", "the manifest lists %zu segments after %zu and %zu new ones, the window has %u", s.s.size(), L.size(), fresh, win);
            if (!everUnaligned) for (size_t i = 1; i < s.s.size(); i++) { if (s.s[i].first <= s.s[i - 1].first) violation("window-order", "the manifest lists segment %llu after %llu", (unsigned long long)s.s[i].first, (unsigned long long)s.s[i - 1].first); if (s.s[i - 1].first + s.s[i - 1].second > s.s[i].first + 2) violation("window-overlap", "segment %llu+%llu reaches into the next one at %llu", (unsigned long long)s.s[i - 1].first, (unsigned long long)s.s[i - 1].second, (unsigned long long)s.s[i].first); }
            if (!L.empty() && !ov && fresh && !lastFail.count(key) && !everUnaligned) violation("window-restart", "the manifest drops all %zu listed segments at once", L.size());
        }
        if (d4 && p == mpd() && cleanSince) {
            if (!s.s.empty() && s.reps.empty()) violation("representation-missing", "the manifest lists %zu segments of no representation", s.s.size());
            for (auto &x : ins) if (x->connected && x->video == s.video && !s.s.empty()) { std::string id = std::to_string(x->rid); bool all = in(id) == x.get(); for (auto &e : s.s) { std::string f = dir + subst(s.media, id, e.first); arrived(f); if (!simfs::files.count(f) || !seenHash[id].count(f)) all = false; } if (all && std::find(s.reps.begin(), s.reps.end(), id) == s.reps.end()) violation("representation-missing", "the manifest does not list representation %s, all of whose segments are there", id.c_str()); }
        }
        bool fails = lastFail.count(key); if (d4 && fresh && cleanSince && p == mpd()) for (auto &r : s.reps) describe(s, r, p);
        if (fresh) { lastFail.erase(key); minWin.erase(key); maxWin.erase(key); if (s.video) videoPubs++; }
        for (auto &r : s.reps) {
            In *i = in(r); if (!i) { bool leaving = false; for (auto &x : ins) if (x->gone >= 1 && x->gone < (mt ? 4 : 2) && x->rid == atoi(r.c_str())) leaving = true; if (d3 && !leaving) violation("unknown-representation", "the manifest lists representation %s, which is no input", r.c_str()); continue; }
            std::string ini = dir + subst(s.init, r, 0); if (d2 && !s.s.empty()) checkInit(i, simfs::files[ini]->data, ini);
            bool known = o && std::find(o->reps.begin(), o->reps.end(), r) != o->reps.end();
            for (auto &e : s.s) { std::string f = dir + subst(s.media, r, e.first); arrived(f); std::vector<std::string> &w = unl[i->rid]; auto it = std::find(w.begin(), w.end(), f); if (it == w.end()) continue; if (d2 && it != w.begin() && known && !fails) violation("segment-skipped", "%s is complete but is not listed before %s", w[0].c_str(), f.c_str()); w.erase(w.begin(), it + 1); segment(i, s, e, f); }
        }
    }
    // what the manifest says about the presentation and its streams
    static std::string secs(long n) { return "PT" + std::to_string(n) + ".0S"; }
    void describe(const Root &r)
    {
        long win = std::max(maxSeg, 2u);
        if (r.type != "dynamic") violation("manifest-type", "the manifest has type '%s'", r.type.c_str());
        if (r.upd != secs(segDur)) violation("manifest-update-period", "the manifest says %s, segments last %lld s", r.upd.c_str(), (long long)segDur);
        if (r.depth != secs(win * segDur)) violation("manifest-depth", "the manifest says %s, the window has %ld segments of %lld s", r.depth.c_str(), win, (long long)segDur);
        if (r.minBuf != secs(minBuf)) violation("manifest-buffer", "the manifest says %s, a buffer of %ld s is configured", r.minBuf.c_str(), minBuf);
        if (r.start != secs(0) && r.start != "PT0S") violation("manifest-start", "the period starts at '%s', its segments at 0", r.start.c_str());
        struct tm t; memset(&t, 0, sizeof t); if (!strptime(r.ast.c_str(), "%Y-%m-%dT%H:%M:%S", &t)) violation("manifest-start", "the manifest is available from '%s' on", r.ast.c_str());
        if (!ast.empty() && ast != r.ast) violation("manifest-start", "the manifest was available from %s on and now is from %s on", ast.c_str(), r.ast.c_str());
        ast = r.ast; int64_t at = (int64_t)timegm(&t) * 1000000000LL; if (at > wall_ns() || at < wall0 - 1000000000LL) violation("manifest-start", "the manifest is available from %s on, its first segment was written otherwise", r.ast.c_str());
    }
    // a size that the frames have had with the parameter sets of the newest segment or later ones (it may change within one, and the sets may be lost with the queue)
    bool sized(In *i, int w, int h) { for (size_t k = 0; k < i->au.size(); k++) if (i->au[k].conf >= i->lastConf && i->au[k].w == w && i->au[k].h == h) return true; return false; }
    void describe(MSet &s, const std::string &id, const std::string &p)
    {
        In *i = in(id); if (!i) return; const Rep &r = s.rep[id]; const char *n = id.c_str(); probe("described");
        if (s.mime != (i->video ? "video/mp4" : "audio/mp4")) violation("manifest-mime", "representation %s lies in a set of type %s", n, s.mime.c_str());
        bool same = true; for (auto &x : ins) if (!i->video && !x->video && x->sr != i->sr) same = false;   // (a set has one time scale)
        if (same && (int64_t)s.ts != (i->video ? VTB : i->sr)) violation("manifest-timescale", "the set of representation %s has %llu ticks per second", n, (unsigned long long)s.ts);
        bool bw = false; if (bitrates[i->rid].empty()) bw = r.bw == 0; for (int b : bitrates[i->rid]) if (r.bw == b) bw = true; if (!bw) violation("manifest-bandwidth", "representation %s has bandwidth %d, %d was set", n, r.bw, bitrates[i->rid].empty() ? 0 : bitrates[i->rid].back());
        const std::string &f = simfs::files[p.substr(0, p.rfind('/') + 1) + subst(s.init, id, 0)]->data; size_t at = f.find("mdhd");
        if (at == std::string::npos || at + 20 > f.size() || (int64_t)u32(f, f[at + 4] ? at + 24 : at + 16) != (i->video ? VTB : i->sr)) violation("init-timescale", "the initialisation segment of representation %s has another time scale than its frames", n);
        at = f.find(i->video ? i->hevc ? r.codecs.substr(0, 4) : "avc1" : "mp4a"); if (at == std::string::npos || at + 36 > f.size()) violation("init-codec", "the initialisation segment of representation %s is not one of %s", n, r.codecs.c_str());
        if (i->video && !sized(i, u32(f, at + 28) >> 16, u32(f, at + 28) & 0xffff)) violation("init-size", "the initialisation segment of representation %s has size %ux%u, its frames have %dx%d", n, u32(f, at + 28) >> 16, u32(f, at + 28) & 0xffff, i->w, i->hgt);
        if (!i->video && (u32(f, at + 20) >> 16 != (unsigned)i->ch || u32(f, at + 28) >> 16 != (unsigned)i->sr)) violation("init-audio", "the initialisation segment of representation %s has %u channels and %u Hz, its frames have %d and %d", n, u32(f, at + 20) >> 16, u32(f, at + 28) >> 16, i->ch, i->sr);
        if (!i->video) { if (r.codecs.compare(0, 7, "mp4a.40")) violation("manifest-codec", "representation %s has codec %s", n, r.codecs.c_str()); if (r.sr != i->sr || r.ch != i->ch) violation("manifest-audio", "representation %s has %d Hz and %d channels, its frames have %d and %d", n, r.sr, r.ch, i->sr, i->ch); return; }
        std::string c = r.codecs.substr(0, 4); if (i->hevc ? c != "hev1" && c != "hvc1" : c != "avc1" && c != "avc3") violation("manifest-codec", "representation %s has codec %s", n, r.codecs.c_str());
        if (!sized(i, r.w, r.h)) violation("manifest-size", "representation %s has size %dx%d, its frames have %dx%d", n, r.w, r.h, i->w, i->hgt);
        if (s.maxW < r.w || s.maxH < r.h) violation("manifest-size", "the set has pictures of up to %dx%d, representation %s has %dx%d", s.maxW, s.maxH, n, r.w, r.h);
    }
    void described_state()
    {
        if (!d4) return; Jzon::Object st; { Sut u; d->getState(st); } probe("state_read");
        auto str = [&](const char *k, const std::string &v) { std::string x = st.Has(k) ? st.Get(k).ToString() : "(nothing)"; if (x != v) violation("state", "%s is %s in the state instead of %s", k, x.c_str(), v.c_str()); };
        auto num = [&](const char *k, long v) { long x = st.Has(k) ? st.Get(k).ToInt() : -1; if (x != v) violation("state", "%s is %ld in the state instead of %ld", k, x, v); };
        str("folder", folder); str("baseName", base); str("mpdURI", mpd()); num("segDurInSec", segDur); num("maxSegments", std::max(maxSeg, 2u)); num("minBufferTime", minBuf);
        std::set<int> have, want; if (st.Has("readers")) { Jzon::Array a = st.Get("readers").AsArray(); for (auto it = a.begin(); it != a.end(); ++it) have.insert((*it).ToInt()); } for (auto &x : byId) want.insert(x.first); if (have != want) violation("state", "the state lists %zu readers, %zu inputs are connected", have.size(), want.size());
    }
    // the decoder configuration record holds these parameter sets
    static bool record(bool hevc, const std::string &f, const Conf &c)
    {
        size_t at = f.find(hevc ? "hvcC" : "avcC"); if (at == std::string::npos || at < 4) return false; size_t n = u32(f, at - 4); if (n < 8 || at - 4 + n > f.size()) return false; std::string d = f.substr(at + 4, n - 8), w;
        auto len = [](size_t n) { return std::string{(char)(n >> 8), (char)n}; };
        if (!hevc) { w = std::string("\1") + c.sps.substr(1, 3) + "\xff\xe1" + len(c.sps.size()) + c.sps + "\1" + len(c.pps.size()) + c.pps; if (d != w) w[1] = c.sps[0], w[2] = c.sps[1], w[3] = c.sps[2]; return d == w; }
        if (d.size() < 23 || d[0] != 1 || (d[21] & 3) != 3) return false; size_t k = 23; std::map<int, std::string> have; for (int a = 0; a < d[22]; a++) { if (k + 5 > d.size()) return false; size_t m = (uint8_t)d[k + 3] << 8 | (uint8_t)d[k + 4]; if (k + 5 + m > d.size() || d[k + 1] || d[k + 2] != 1) return false; have[d[k] & 0x3f] = d.substr(k + 5, m); k += 5 + m; }
        return k == d.size() && have[32] == c.vps && have[33] == c.sps && have[34] == c.pps;
    }
    void checkInit(In *i, const std::string &f, const std::string &p)
    {
        if (i->video) { bool ok = false; for (size_t k = i->lastConf; k < i->confs.size() && !ok; k++) ok = record(i->hevc, f, i->confs[k]); if (!ok) violation("init-parameters", "%s does not contain the parameter sets of its stream", p.c_str()); }
        else { std::string c; c += (char)(2 << 3 | i->sfi >> 1); c += (char)((i->sfi & 1) << 7 | i->ch << 3); if (f.find(std::string("\x05\x02", 2) + c) == std::string::npos) violation("init-parameters", "%s does not hold the audio configuration of its stream (%d channels)", p.c_str(), i->ch); }
    }
    void segment(In *i, MSet &s, std::pair<uint64_t, uint64_t> e, const std::string &f)
    {
        const char *fn = f.c_str(); Info &n = info[f]; if (!d2 || everUnaligned) return;
        if (llabs((int64_t)e.first - n.ep) > 1) violation("listed-time", "%s is listed at %llu, it starts at %lld", fn, (unsigned long long)e.first, (long long)n.ep); if (llabs((int64_t)e.second - (int64_t)n.dur) > 1) violation("listed-duration", "%s is listed with duration %llu, it lasts %llu", fn, (unsigned long long)e.second, (unsigned long long)n.dur);
    }
    void content(In *i, const std::string &f)
    {
        if (!d2) { bool any = false; for (Smp &x : segs[f].s) for (size_t j = i->next; j < i->au.size(); j++) if (i->au[j].data == x.data) { if (!any) { any = true; i->lastFirst = j; i->lastConf = i->au[j].conf; } i->next = j + 1; break; } return; }   // (how far publication has got)
        Seg &g = segs[f]; samples += g.s.size(); log("segment %s: %zu samples seq %u", f.c_str(), g.s.size(), g.seq);
        const char *fn = f.c_str(); if (g.s.empty()) violation("empty-segment", "%s is published without any sample", fn);
        if (i->video && (g.s[0].flags & 0x10000)) violation("segment-start", "%s does not start with a key frame", fn);
        if (i->anySeg && g.seq <= i->lastSeq) violation("sequence-number", "%s has sequence number %u after %u", fn, g.seq, i->lastSeq);
        size_t first = i->next, before = i->segBytes, sum = 0;
        for (size_t k = 0; k < g.s.size(); k++) {
            Smp &x = g.s[k];
            if (i->lossy) while (i->next < i->au.size() && i->au[i->next].data != x.data) { // only what does not fit into 10 MB or 65536 samples may be left out
                size_t j = i->next; while (j < i->au.size() && i->au[j].data != x.data) j++; if (j >= i->au.size()) break; MS &lost = i->au[i->next]; size_t n = lost.data.size(); probe("segment_full");
                if ((k ? sum : before) + n < 10400000 && (k ? k : i->segSamples) < 65536 && !i->broken) violation("sample-lost", "access unit %zu is missing from %s, which has room for it", i->next, fn);
                i->broken = true; i->next++; }
            if (i->next >= i->au.size()) violation("sample-invented", "sample %zu of %s is no access unit that was given (or was already published)", k, fn);
            if (!k) first = i->next; MS &m = i->au[i->next];
            if (x.data != m.data) { size_t j = 0; while (j < i->au.size() && i->au[j].data != x.data) j++; if (j < i->next) violation("sample-twice", "sample %zu of %s was already published", k, fn); if (j < i->au.size()) violation("sample-lost", "sample %zu of %s is access unit %zu, but %zu was not published", k, fn, j, i->next); violation("sample-content", "sample %zu of %s differs from the access unit that was given", k, fn); }
            if (i->video) {
                if (!(x.flags & 0x10000) != m.key) violation("key-flag", "sample %zu of %s is %smarked as a key frame", k, fn, m.key ? "not " : "");
                bool last = i->next + 1 >= i->au.size(); int64_t nd = last ? (i->open && !i->skipAu ? i->cur.dts : -1) : i->au[i->next + 1].dts;
                if (i->lossy && (k + 1 >= g.s.size() || last || g.s[k + 1].data != i->au[i->next + 1].data)) nd = -1;
                if (nd >= 0) { int64_t ed = tick(i, nd) - tick(i, m.dts); if (llabs((int64_t)x.dur - ed) > 1) violation("sample-duration", "sample %zu of %s lasts %u ticks instead of %lld", k, fn, x.dur, (long long)ed); }
                int64_t ec = tick(i, m.pts) - tick(i, m.dts); if (llabs(x.cto - ec) > 1) violation("composition-time", "sample %zu of %s has composition offset %d instead of %lld", k, fn, x.cto, (long long)ec);
            } else if ((int)x.dur != i->fd) violation("sample-duration", "sample %zu of %s lasts %u instead of %d", k, fn, x.dur, i->fd);
            i->next++; sum += x.data.size() + 16; i->broken = false;
        }
        i->segBytes = sum; i->segSamples = g.s.size();
        size_t f0 = first; MS &m = i->au[f0];
        { int64_t et = tick(i, m.dts); if (llabs((int64_t)g.tfdt - et) > 1) violation("decode-time", "%s starts at %llu instead of %lld", fn, (unsigned long long)g.tfdt, (long long)et); }
        if (i->video && i->anySeg && !i->lossy && g.tfdt != i->lastEnd) violation("not-contiguous", "%s starts at %llu, the segment before it ends at %llu", fn, (unsigned long long)g.tfdt, (unsigned long long)i->lastEnd);
        info[f] = Info{tick(i, m.pts), g.dur};
        if (i->video && (int64_t)(g.dur + g.s.back().dur) < i->segDur * VTB) violation("segment-short", "%s lasts %llu ticks, the segment duration is %lld", fn, (unsigned long long)g.dur, (long long)(i->segDur * VTB));
        i->lastSeq = g.seq; i->lastEnd = g.tfdt + g.dur; i->anySeg = true; nontrivial(true);
        i->lastFirst = first; if (first < i->au.size()) i->lastConf = i->au[first].conf;
    }
    // between two calls: nothing in the folder that should not be there
    void quiescent(bool final)
    {
        if (!d3) return; uint64_t fails = simfs::failed; bool pubNow = changed; changed = false;
        if (!(pubNow && fails == failedAtStep) && !final) return; if (final && fails != failedAtManifest) return;   // (what failed is done again with the next publication)
        Pub &P = pub[mpd()]; std::set<std::string> want; want.insert(mpd());
        std::map<std::string, uint64_t> newest;
        for (auto &i : ins) if (i->connected) want.insert(folder + base + "_" + std::to_string(i->rid) + "_init" + (i->video ? ".m4v" : ".m4a"));
        if (P.ok) for (MSet &s : P.sets) for (auto &i : ins) if (i->connected && i->video == s.video) for (auto &e : s.s) want.insert(folder + subst(s.media, std::to_string(i->rid), e.first));
        for (auto &f : simfs::files) {
            if (f.first.compare(0, folder.size(), folder) || want.count(f.first) || grand.count(f.first)) continue;
            if (simfs::failed && !final) { // a segment that is complete but could not be published yet
                bool pend = false; for (auto &i : ins) if (i->connected) { std::string pre = folder + base + "_" + std::to_string(i->rid) + "_"; if (!f.first.compare(0, pre.size(), pre)) { uint64_t t = strtoull(f.first.c_str() + pre.size(), 0, 10), mx = 0; if (P.ok) for (MSet &s : P.sets) if (s.video == i->video && !s.s.empty()) mx = s.s.back().first; if (t > mx || !mx) pend = true; } } if (pend) continue;
            }
            violation("file-left-over", "%s is in the folder although no manifest needs it", f.first.c_str());
        }
    }
};
bool TapDasher::doProcessFrame(std::map<int, Frame *> &o, std::vector<int> n, int &ret)
{
    { Harness h; for (int id : n) { auto it = R->byId.find(id); if (it != R->byId.end()) R->given(it->second, o[id]); } }
    return Dasher::doProcessFrame(o, n, ret);
}
// produces the next piece of the input's stream, in stream time
void produce(In &i)
{
    if (!i.video) {
        int64_t pts = i.astart + (int64_t)(i.apos * 1e6 / i.sr) + (i.ajit ? (int64_t)choose(W, i.ajit) : 0); i.apos += i.fd; std::string pl = blob((i.lossy ? 12 : 1) + choose(W, 60), ++g_ser); unsigned n = pl.size() + 7;
        unsigned char h[7] = {0xff, 0xf1, (unsigned char)(1 << 6 | i.sfi << 2 | (i.ch >> 2 & 1)), (unsigned char)((i.ch & 3) << 6 | n >> 11), (unsigned char)(n >> 3), (unsigned char)((n & 7) << 5 | 0x1f), 0xfc};
        i.out.push_back(Nal{std::string((char *)h, 7) + pl, pts, -1});
        if (i.bad && chance(W, 1, 40)) { i.out.push_back(i.out.back()); std::string &b = i.out.back().b; if (chance(W, 1, 2)) b.resize(1 + choose(W, 6)); else b[choose(W, 2)] ^= 1 << choose(W, 8); }   // something else than an AAC frame
        return;
    }
    while (i.pos >= i.tl->au.size()) more(*i.tl);
    Au a = i.tl->au[i.pos]; auto put = [&](std::string b) { i.out.push_back(Nal{std::string(i.startCode3 ? "\0\0\1" : "\0\0\0\1", i.startCode3 ? 3 : 4) + b, a.pts, a.dts, i.w, i.hgt}); };
    auto nal = [&](int t, unsigned n) { std::string b = blob(n, ++g_ser); if (i.hevc) { b.insert(0, "\0\1", 2); b[0] = (char)(t << 1); } else b.insert(0, 1, (char)(0x60 | t)); return b; };
    if (a.key && i.resize && i.noParams == 0 && chance(W, 1, i.resize)) { int what = choose(W, 4); if (what != 1) i.w = 16 * (1 + choose(W, 120)); if (what != 2) i.hgt = 8 * (1 + choose(W, 135)); i.conf.clear(); probe("resized"); }
    if (i.bad && chance(W, 1, 40)) put("");
    if (i.aud) put(nal(i.hevc ? 35 : 9, 1));
    if (a.key) {
        if (i.noParams > 0) i.noParams--;
        else { bool fresh = i.conf.empty() || (i.paramEvery && ++i.param % i.paramEvery == 0); (void)fresh; if (i.conf.empty()) i.conf = std::to_string(++g_ser); uint64_t sv = g_ser; g_ser = strtoull(i.conf.c_str(), 0, 10) * 1000000; if (i.hevc) put(nal(32, 6)); put(nal(i.hevc ? 33 : 7, 9)); put(nal(i.hevc ? 34 : 8, 5)); g_ser = sv; }
    }
    if (i.sei && chance(W, 1, 2)) put(nal(i.hevc ? 39 : 6, 4));
    int n = i.slices > 1 ? 1 + choose(W, i.slices) : 1; int t = i.hevc ? (a.key ? (chance(W, 1, 2) ? 19 : 21) : choose(W, 2)) : a.key ? 5 : 1;
    for (int k = 0; k < n; k++) put(nal(t, i.slice > 100 ? i.slice / 2 + choose(W, i.slice / 2) : 8 + choose(W, i.slice)));
    if (i.hevc && i.sei && chance(W, 1, 2)) put(nal(40, 4));     // suffix SEI
    if (i.bad && chance(W, 1, 20)) put(nal(i.hevc ? 38 : 12, 20));        // filler data
    i.pos++;
}
int64_t peek(In &i) { while (i.out.empty()) produce(i); Nal &n = i.out.front(); return n.dts != -1 && n.dts <= n.pts ? n.dts : n.pts; }
void dash_run(Run &run, bool mt, bool crash)
{
    R = &run; g_ser = choose(W, 1000); run.mt = mt;
    std::string pr = property(); bool all = pr != "D01" && pr != "D02" && pr != "D03" && pr != "D04"; run.d4 = all || pr == "D04"; run.wall0 = wall_ns(); run.d1 = all || pr == "D01"; run.d2 = all || pr == "D02"; run.d3 = all || pr == "D03";
    simfs::faults = simfs::Faults(); simfs::failed = simfs::ops = 0; simfs::failed_on.clear(); simfs::crashed = false; simfs::crash_in = crash ? 1 + choose(F, chance(F, 1, 2) ? 40 : 1000) : 0;
    simfs::hook = [](const char *op, const std::string &p) { R->disk(op, p); };
    int ep = track_begin(); std::string leak;
    run.bigMode = !mt && !crash && chance(W, 1, 16); run.deadMode = !mt && !crash && !run.bigMode && chance(W, 1, 100);
    { Sut u; run.d = new TapDasher(); } run.d->setId(50);
    auto configure = [&](bool first) {
        Jzon::Object root, par; root.Add("action", "configure"); std::string f = run.folder, b = run.base; int64_t sd = run.segDur; unsigned ms = run.maxSeg;
        if (first || chance(W, 1, 3)) { f = chance(W, 3, 4) ? "/simfs/out" : "/simfs/two/"; if (chance(F, 1, 8) && !first) { f = "/simfs/none"; fault("unusable_folder"); } par.Add("folder", f); }
        if (first || chance(W, 1, 4)) { b = chance(W, 1, 2) ? "x" : "live"; par.Add("baseName", b); }
        if (first || chance(W, 1, 3)) { sd = 1 + choose(W, 3); par.Add("segDurInSec", (int)sd); }
        if (first || chance(W, 1, 2)) { ms = choose(W, 7); par.Add("maxSeg", (int)ms); }
        long mb = run.minBuf; if (chance(W, 1, 4)) { mb = choose(W, 20); par.Add("minBuffTime", (int)mb); }
        root.Add("params", par); if (f.back() != '/') f += '/'; bool ok = simfs::dirs.count(f.substr(0, f.size() - 1));
        if (ok) { // what it will mean: set before the call, no segment is written meanwhile
            if (first || f + b != run.folder + run.base) { run.grand.clear(); run.unl.clear(); for (auto &x : simfs::files) if (!x.first.compare(0, f.size(), f)) run.grand.insert(x.first); if (!first) { run.flushed[f + b + ".mpd0"] = run.flushed[f + b + ".mpd1"] = true; fault("reconfigured_path"); } }
            run.folder = f; run.base = b; run.segDur = sd; for (const char *k : {"0", "1"}) { unsigned &w = run.minWin[f + b + ".mpd" + k], &m = run.maxWin[f + b + ".mpd" + k]; m = std::max(m, std::max(run.maxSeg, 2u)); w = w ? std::min(w, std::max(run.maxSeg, 2u)) : std::max(run.maxSeg, 2u); } run.maxSeg = ms;
            run.minBuf = std::min<long>(std::max<long>(mb, 2 * sd), std::max(ms, 2u) * sd);   // at least two segments, at most the window
        }
        log("configure %s%s duration %lld window %u", f.c_str(), b.c_str(), (long long)sd, ms);
        Event e(root, std::chrono::system_clock::now(), 0); { Sut u; run.d->pushEvent(e); } if (!first) probe("reconfigured");
    };
    auto refused = [&](bool unconfigured) {
        StreamInfo si; si.type = VIDEO; si.video.codec = unconfigured ? H264 : VP8; static const ACodecType ac[] = {PCMU, OPUS, PCM, MP3}; if (!unconfigured && chance(W, 1, 2)) { si.type = AUDIO; si.audio.codec = ac[choose(W, 4)]; si.audio.sampleRate = 48000; si.audio.channels = 2; si.audio.sampleFormat = S16; }
        struct Other : public hf::Head { Other() : Head(90) {} FrameQueue *allocQueue(ConnectionData c) override { Harness h; Sut u; return si.type == VIDEO ? (FrameQueue *)new VQ(c, &si, 4, 100) : (FrameQueue *)new AQ(c, &si, 4); } } h; h.si = si; bool ok; { Sut u; ok = h.connectManyToMany(run.d, 99, 1); } if (ok && run.d4) violation("input-accepted", unconfigured ? "an input is connected to a segmenter that is not configured" : "an input whose codec cannot be segmented is connected"); if (ok) { Sut u; h.disconnectWriter(1); } probe("refused_input"); };
    if (run.d4 && chance(W, 1, 6)) refused(true);
    configure(true);
    int64_t t0 = wall_ns() / 1000 - choose(W, 5000000); int nv = choose(W, 3) + 0, na = choose(W, 3); if (nv + na == 0) nv = 1; if (mt) { nv = 1 + choose(W, 2); na = choose(W, 2); } if (run.bigMode) { nv = 1; na = choose(W, 2); } if (run.deadMode) { nv = 0; na = 1; }
    bool aligned = chance(W, 3, 4); std::shared_ptr<Timeline> shared; int maxGopUs = 0, srcId = 1, ridNext = 1; bool useDts = chance(W, 2, 3); int nbAll = useDts && chance(W, 1, 3) ? 1 + choose(W, 3) : 0; int gapAll = chance(W, 1, 4) ? 20 + choose(W, 100) : 0;
    auto newTl = [&](int64_t start) { static const int pe[] = {40000, 33333, 20000, 100000}; auto t = std::make_shared<Timeline>(); t->start = t->next = start; t->period = pe[choose(W, 4)]; t->gop = 1 + choose(W, 30); t->nb = nbAll; t->useDts = useDts; t->jit = chance(W, 1, 2) ? 1 + choose(W, t->period / 3) : 0; t->gapDen = gapAll; t->gapMax = 3000000; if (run.bigMode) { t->gop = 30 + choose(W, 300); } maxGopUs = std::max<int64_t>(maxGopUs, t->gop * t->period); return t; };
    auto addIn = [&](bool video, int rid, int64_t start) -> In * {
        std::unique_ptr<In> p(new In); In *i = p.get(); i->rid = rid; i->video = video; i->hevc = video && chance(W, 1, 3); i->slice = run.bigMode ? 300000 : 50; i->aud = choose(W, 2); i->sei = choose(W, 2); i->slices = 1 + choose(W, 3); i->noParams = chance(W, 1, 5) ? 1 + choose(W, 2) : 0; i->paramEvery = 1; i->startCode3 = chance(W, 1, 3); i->bad = chance(W, 1, 6); i->resize = video && !run.bigMode && chance(W, 1, 4) ? 1 + choose(W, 8) : 0;
        if (video) { i->w = 16 * (1 + choose(W, 120)); i->hgt = 8 * (1 + choose(W, 135)); } i->qlen = run.bigMode ? 6 : 8 + choose(W, 30); i->flen = run.bigMode ? 400000 : 100; i->joined = now_ns(); i->segDur = run.segDur; i->lossy = run.bigMode || run.deadMode;
        if (video) { if (aligned && shared) { i->tl = shared; while (shared->au.empty()) more(*shared); size_t k = 0; while (true) { while (k >= shared->au.size()) more(*shared); int64_t t = shared->au[k].dts != -1 ? shared->au[k].dts : shared->au[k].pts; if (t >= start) break; k++; } i->pos = k; } else { i->tl = newTl(start); if (aligned) shared = i->tl; else if (run.multi) run.everUnaligned = true; } run.multi = true; }
        else { static const int sr[] = {48000, 44100, 32000}; static const int sf[] = {3, 4, 5}; int k = choose(W, 3); i->sr = sr[k]; i->sfi = sf[k]; i->ch = chance(W, 1, 4) ? 1 + choose(W, 7) : 1 + choose(W, 2); i->fd = chance(W, 3, 4) ? 1024 : 960; i->astart = start; i->ajit = 0; }
        Src *s = new Src(srcId++); s->in = i; if (video) { s->si.type = VIDEO; s->si.video.codec = i->hevc ? H265 : H264; } else { s->si.type = AUDIO; s->si.audio.codec = AAC; s->si.audio.sampleRate = i->sr; s->si.audio.channels = i->ch; s->si.audio.sampleFormat = S16; }
        s->body = [i](std::map<int, Frame *> &d, int &) { peek(*i); Nal &n = i->out.front(); Frame *f = d.begin()->second; if (n.b.size() > f->getMaxLength()) { i->out.pop_front(); return false; } check_access(f->getDataBuf(), n.b.size(), true, __builtin_return_address(0)); memcpy(f->getDataBuf(), n.b.data(), n.b.size()); f->setLength(n.b.size()); f->setPresentationTime(std::chrono::microseconds(n.pts)); f->setDecodeTime(std::chrono::microseconds(n.dts)); if (AudioFrame *a = dynamic_cast<AudioFrame *>(f)) { a->setSamples(i->fd); a->setChannels(i->ch); a->setSampleRate(i->sr); } else { VideoFrame *v = dynamic_cast<VideoFrame *>(f); v->setSize(n.w, n.h); } f->setConsumed(true); i->out.pop_front(); return true; };
        i->h.reset(s); run.ins.push_back(std::move(p)); return i;
    };
    auto setBitrate = [&](int id, int b) { Jzon::Object root, par; root.Add("action", "setBitrate"); par.Add("id", id); par.Add("bitrate", b); root.Add("params", par); Event e(root, std::chrono::system_clock::now(), 0); if (mt || run.byId.count(id)) { std::vector<int> &v = run.bitrates[id]; if (!mt) v.clear(); else if (v.empty()) v.push_back(0); v.push_back(b); } { Sut u; run.d->pushEvent(e); } probe("event"); };
    auto connect = [&](In *i) { if (!mt) run.bitrates[i->rid].clear(); run.byId[i->rid] = i; run.seenHash.erase(std::to_string(i->rid)); i->joined = now_ns(); i->segDur = run.segDur; bool ok; { Sut u; ok = i->h->connectManyToMany(run.d, i->rid, 1); } i->connected = true; if (!ok) violation("connect", "input %d cannot be connected", i->rid); int others = 0; for (auto &x : run.ins) if (x.get() != i && x->connected && x->video == i->video) others++; if (others && !i->video) run.everUnaligned = true; log("input %d (%s) joins", i->rid, i->video ? i->hevc ? "hevc" : "avc" : "aac"); };
    auto drop = [&](In *i) {
        log("input %d leaves", i->rid); fault("input_removed"); int same = 0; for (auto &x : run.ins) if (x->connected && x->video == i->video) same++;
        std::string key = run.mpd() + (i->video ? "0" : "1"); i->last = same == 1; (i->last ? run.flushed : run.trimmed)[key] = true;
        i->connected = false; i->gone = 1; run.byId.erase(i->rid); { Sut u; i->h->disconnectWriter(1); } };
    (void)ridNext; int rid = 1; std::vector<In *> waiting;
    for (int k = 0; k < nv; k++) { In *i = addIn(true, rid++, t0 + (aligned ? 0 : choose(W, 400000))); if (k && chance(W, 1, 4)) waiting.push_back(i); else connect(i); }
    for (int k = 0; k < na; k++) { In *i = addIn(false, rid++, t0 + choose(W, 60000) - 30000); if (chance(W, 1, 6) && !run.byId.empty()) waiting.push_back(i); else connect(i); }
    for (In *i : waiting) if (i->video && aligned) { }
    bool disk = chance(F, 1, 2) || (run.d1 && chance(F, 1, 2)); int simsecs = 8 + choose(W, 50); if (mt) simsecs = 4 + choose(W, 6); if (run.bigMode) simsecs = 10 + choose(W, 20); if (run.deadMode) { simsecs = 1600; disk = true; }
    int64_t clock = t0, end = t0 + simsecs * 1000000LL, settle = end; int reconf = chance(W, 1, 3) ? 60 : 0, churn = chance(W, 1, 3) ? 80 : 0; if (run.deadMode) reconf = churn = 0;
    auto setFaults = [&] { simfs::Faults &f = simfs::faults; f = simfs::Faults(); if (!disk) return; if (run.deadMode) { f.dead = simfs::ops > 200; return; } switch (choose(F, 6)) { case 0: case 1: break; case 2: f.den = 2 + choose(F, 30); break; case 3: f.full = true; break; case 4: f.dead = true; break; case 5: f.den = 3 + choose(F, 10); f.open = chance(F, 1, 2); f.write = chance(F, 1, 2); f.close = chance(F, 1, 2); f.rename = chance(F, 1, 2); f.remove = chance(F, 1, 2); break; } f.shortw = chance(F, 1, 3); };
    auto calm = [&] { simfs::faults = simfs::Faults(); };
    auto failNote = [&] { if (simfs::failed != run.failedAtStep) for (auto &p : run.pub) for (const char *k : {"0", "1"}) run.lastFail[p.first + k] = 1; };
    auto step = [&] { run.failedAtStep = simfs::failed; int r = 0; { Sut u; run.d->processFrame(r); } for (auto &i : run.ins) if (i->gone > 0) i->gone++; failNote(); run.quiescent(false); return r; };
    int64_t finalPhase = 0; bool final = false; int64_t finalUs = 0;
    uint64_t failSeen = 0;
    auto control = [&](int64_t t) {
        if (disk && !final && chance(F, 1, 60)) setFaults();
        if (final) return;
        if (reconf && chance(W, 1, reconf)) { configure(false); }
        else if (run.d4 && chance(W, 1, 80)) { setBitrate(1 + (int)choose(W, 4), choose(W, 8000000)); step(); run.described_state(); }
        else if (run.d4 && chance(W, 1, 400)) refused(false);
        bool hit = churn && simfs::failed != failSeen && chance(W, 1, 3); failSeen = simfs::failed;   // an input may leave between a failure and the next attempt
        if (churn && (hit || chance(W, 1, churn))) {
            if (!waiting.empty() && !hit && chance(W, 1, 2)) { In *i = waiting.back(); waiting.pop_back(); bool used = false; for (auto &x : run.ins) if (x.get() != i && x->gone && x->rid == i->rid) used = true; if (used) step();   // the old reader leaves first
                if (i->video) { size_t k = i->pos; while (true) { while (k >= i->tl->au.size()) more(*i->tl); Au &a = i->tl->au[k]; if ((a.dts != -1 ? a.dts : a.pts) >= t) break; k++; } i->pos = k; } else i->apos = std::max<double>(0, (t - i->astart) * (i->sr / 1e6)); connect(i); probe("late_join"); }
            else { std::vector<In *> c; for (auto &i : run.ins) if (i->connected) c.push_back(i.get()); if (c.size() > 1 || (c.size() == 1 && chance(W, 1, 2))) { In *i = c[choose(W, c.size())]; bool v = i->video; int id = i->rid; drop(i); if (chance(W, 2, 3)) { bool same = chance(W, 1, 2); In *n = addIn(v, same ? id : rid++, t); waiting.push_back(n); } } run.failedAtStep = simfs::failed; run.changed = false; }
        }
    };
    if (!mt) {
        Sched s; s.access_gap = 0; s.sync_den = 0; configure_ok: sim::configure(s);
        int64_t extra = 0, pauseAt = chance(W, 1, 12) ? t0 + range(W, 500000, 6000000) : 0;
        while (true) {
            if (pauseAt && clock > pauseAt) { // nothing is sent for hours: 32 bit sample counts overflow
                pauseAt = 0; int64_t j = range(W, 3600, 100000) * 1000000LL; std::set<Timeline *> tls; for (auto &i : run.ins) if (i->tl) tls.insert(i->tl.get()); else i->apos += j * (i->sr / 1e6);
                for (Timeline *t : tls) t->next += j; end += j; probe("long_pause"); log("nothing is sent for %lld s", (long long)(j / 1000000)); }
            if (!final && clock >= end) { final = true; calm(); for (In *i : waiting) (void)i; finalPhase = now_ns(); finalUs = clock; settle = clock + 6000000LL + 4 * (maxGopUs + run.segDur * 1000000LL) + 2 * 3000000LL * (gapAll ? 1 : 0); for (auto &i : run.ins) settle = std::max<int64_t>(settle, clock + 4 * (maxGopUs + i->segDur * 1000000LL) + 4000000); if (gapAll) for (auto &i : run.ins) if (i->tl) i->tl->gapDen = 0; }
            if (final && clock >= settle) break;
            // the input whose next piece comes first delivers it
            In *b = nullptr; int64_t bt = 0; for (auto &i : run.ins) if (i->connected) { int64_t t = peek(*i); if (!b || t < bt) { b = i.get(); bt = t; } }
            if (!b) { clock += 20000; sleep_us(20000); control(clock); if (final && waiting.empty()) break; continue; }
            if (bt > clock) { int64_t d = std::min<int64_t>(bt - clock, 2000000); sleep_us(d); clock = bt; }
            { int r = 0; b->h->step(r); }
            if (simfs::crashed) break;
            control(clock);
            if (chance(W, 1, 3) || b->q->getElements() + 2 >= b->qlen) { for (int k = 0; k < 40; k++) { int r = step(); if (r > 0) { bool any = false; for (auto &i : run.ins) if (i->connected && i->q && i->q->getElements() > i->qlen / 2) any = true; if (!any) break; sleep_us(r); } } }
        }
        (void)extra;
        for (int k = 0; k < 200 && !simfs::crashed; k++) { int r = step(); if (r > 0) sleep_us(r); }
        if (simfs::crashed) { simfs::hook = nullptr; for (auto &i : run.ins) if (i->connected) { Sut u; i->h->disconnectWriter(1); } { Sut u; delete run.d; } for (auto &i : run.ins) i->h.reset(); R = nullptr; return; }
    }
    if (mt) {
        Sched sc = random_sched(true, true); if (sc.access_gap) sc.access_gap = 2000 + choose(W, 40000); sim::configure(sc);
        bool stop = false, fed = false; int nstep = 0;
        int wk = spawn("worker", [&] { while (!stop) { int r = step(); nstep++; sleep_us(r > 0 ? r : 200 + choose(W, 3000)); } for (int k = 0; k < 200; k++) { int r = step(); if (r > 0) sleep_us(r); } });
        std::vector<int> fd; int left = run.ins.size();
        for (auto &up : run.ins) { In *i = up.get(); fd.push_back(spawn("feeder", [&, i] {
            int64_t base = wall_ns() / 1000 - t0; (void)base; bool lag = chance(W, 1, 3);
            while (!fed) { if (!i->connected) { if (i->gone) break; sleep_us(5000); continue; } int64_t t = peek(*i); if (t >= end) break; int64_t d = t - (wall_ns() / 1000 - base); if (d > 0) sleep_us(std::min<int64_t>(d / 8, 100000)); else if (!lag) sleep_us(200);
                for (int k = 0; k < 500 && i->connected && i->q->getElements() + 2 >= i->qlen; k++) sleep_us(500);
                if (!i->connected) continue; int r = 0; i->h->step(r); }
            left--; })); }
        for (int k = 0, n = choose(W, 30); k < n && left; k++) {
            sleep_us(range(W, 100, 60000)); if (disk && chance(F, 1, 6)) setFaults();
            switch (choose(W, 6)) {
            case 0: { Jzon::Object st; { Sut u; run.d->getState(st); } break; }
            case 1: setBitrate(1 + (int)choose(W, 4), 1 + choose(W, 4000)); break;
            case 2: if (!waiting.empty()) { In *i = waiting.back(); waiting.pop_back(); connect(i); probe("late_join"); } break;
            case 3: if (chance(W, 1, 3)) { std::vector<In *> c; for (auto &i : run.ins) if (i->connected) c.push_back(i.get()); if (c.size() > 1) drop(c[choose(W, c.size())]); } break;
            default: break; }
        }
        for (In *i : waiting) i->gone = 1;
        wait_until([&] { return left == 0; }, 600000000LL, 20000); fed = true; calm(); for (int f : fd) join(f); sleep_us(100000); stop = true; join(wk);
    }
    if (run.d3) { run.quiescent(true); }
    // once the disk works again everything that is old enough is published
    bool videoIn = false; for (auto &i : run.ins) if (i->connected && i->video) videoIn = true;
    if (!mt && !run.bigMode) for (auto &i : run.ins) if (i->connected && i->started && run.d1) {
        if (!i->video && videoIn) continue;
        bool ready = true; for (auto &x : run.ins) if (x->connected && x->video == i->video && !x->started) ready = false; if (!ready) continue;
        if (i->next >= i->au.size()) continue;
        int64_t span = i->au.back().dts - i->au[i->next].dts, lim = 3 * (i->segDur * 1000000LL + maxGopUs) + 2000000; for (auto &x : run.ins) lim = std::max<int64_t>(lim, 3 * (x->segDur * 1000000LL + maxGopUs) + 2000000);
        if (gapAll) lim += 4000000;
        if (span > lim) violation("publication-stops", "input %d: %zu access units, %lld ms, are not published %lld ms after the last fault", i->rid, i->au.size() - i->next, (long long)span / 1000, (long long)(clock - finalUs) / 1000);
    }
    state(nv * 1000 + na * 100 + run.pubs % 10); if (run.pubs > 3) nontrivial(true);
    for (auto &i : run.ins) if (i->connected) { Sut u; i->h->disconnectWriter(1); i->connected = false; run.byId.erase(i->rid); }
    simfs::hook = nullptr; { Sut u; delete run.d; } for (auto &i : run.ins) i->h.reset();
    if (run.d3) { uint64_t n = live_in_epoch(ep, &leak); if (n) violation("memory-left", "%llu blocks are never freed: %s", (unsigned long long)n, leak.c_str()); }
    R = nullptr;
}
void dash(bool mt)
{
    set_step_limit(600000000); hf::warm(); simfs::files.clear(); simfs::dirs = {"/simfs", "/simfs/out", "/simfs/two"}; simfs::readonly.clear();
    bool crash = !mt && chance(F, 1, 5); std::map<std::string, std::string> listed;
    if (crash) { Run a; dash_run(a, mt, true); if (!simfs::crashed) return; listed = a.listed; sleep_us(range(W, 1000, 3000000)); log("restart with %zu files", simfs::files.size()); }
    Run b; b.listed = listed; for (auto &l : listed) b.inherited.insert(l.first); dash_run(b, mt, false);
}
}
SCENARIO(dash, "the segmenter writes to a disk that fails") { dash(false); }
SCENARIO(dash_mt, "the segmenter on its own thread, its inputs and its control on others") { dash(true); }
