#include "x26x.h"
#include <string.h>
#include <stdlib.h>
#include <algorithm>
using namespace sim;
namespace cod {
Hooks H; std::vector<Enc *> all; std::string lastPreset;
uint64_t hashBytes(const unsigned char *d, size_t n, uint64_t h) { for (size_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull; return h; }
Enc *current() { Enc *r = nullptr; for (Enc *e : all) if (e->open) r = e; return r; }
void reset() { for (Enc *e : all) delete e; all.clear(); all.shrink_to_fit(); H = Hooks(); std::string().swap(lastPreset); }
static unsigned char *sutAlloc(unsigned n) { Sut u; return (unsigned char *)malloc(n); }
static void sutFree(void *p) { Sut u; free(p); }
static bool parseInt(const char *v, int &x) { if (!v) return false; char *e; long l = strtol(v, &e, 0); x = (int)std::max<long>(-2147483647 - 1l, std::min<long>(2147483647, l)); return e != v && *e == 0; }
static Enc *open(const Par &p, bool h265)
{
    if (p.w <= 0 || p.h <= 0 || (p.csp < 3 && p.w % 2) || (p.csp < 2 && p.h % 2)) { log("encoder: bad size %dx%d", p.w, p.h); probe("size_refused"); H.failOpen = true; return nullptr; }
    if (p.bframes < 0 || p.fpsNum <= 0 || p.keyint == 0) { violation("bad-parameters", "the encoder library is opened with bframes %d, fps %d, keyint %d", p.bframes, p.fpsNum, p.keyint); }
    if (chance(F, 1, H.failP ? H.failP : 1) && H.failP) { fault("encoder_open"); H.failOpen = true; return nullptr; }
    Enc *e = new Enc; e->h265 = h265; e->p = p; e->serial = (int)all.size() + 1; e->bdelay = p.bframes ? (p.bframes > 1 ? 2 : 1) : 0; e->delay = std::max(e->bdelay ? std::max(e->bdelay, std::min(p.bframes, 4)) : 0, (int)choose(W, std::min(p.look, 6) + 1)); all.push_back(e);
    e->headLen = 40 + choose(W, 40); e->head = sutAlloc(e->headLen); for (unsigned i = 0; i < e->headLen; i++) e->head[i] = i == 3 ? 1 : i < 3 ? 0 : 1 + (e->serial * 31 + i * 7) % 250;
    log("encoder %d opened: %dx%d csp %d keyint %d bframes %d delay %d", e->serial, p.w, p.h, p.csp, p.keyint, p.bframes, e->delay); H.opened(*e); return e;
}
static void close(Enc *e) { if (!e || !e->open) violation("closed-encoder", "an encoder is closed twice"); H.closed(*e); e->open = false; log("encoder %d closed with %zu pictures inside", e->serial, e->pending.size() + e->ready.size()); if (e->buf) sutFree(e->buf); sutFree(e->head); e->buf = e->head = nullptr; }
// types and order of the next group of pictures
static void decide(Enc *e, bool flush)
{
    while (!e->pending.empty()) {
        size_t nb = e->p.bframes > 0 ? std::min(e->p.bframes, 4) : 0, n = 1; bool first = e->sinceKey == 0 || e->pending[0].idr || e->sinceKey >= e->p.keyint;
        if (first) { In i = e->pending.front(); i.idr = true; e->ready.push_back(i); e->pending.pop_front(); e->sinceKey = 1; continue; }
        if (nb) { n = 1 + choose(W, nb + 1); if (n > e->pending.size()) { if (!flush) return; n = e->pending.size(); } for (size_t k = 1; k < n; k++) if (e->pending[k].idr || e->sinceKey + (int)k >= e->p.keyint) { n = k; break; } }
        e->ready.push_back(e->pending[n - 1]); e->ready.back().idr = false; for (size_t k = 0; k + 1 < n; k++) { e->ready.push_back(e->pending[k]); e->ready.back().idr = false; } e->pending.erase(e->pending.begin(), e->pending.begin() + n); e->sinceKey += n;
        if (nb) return;
    }
}
// 1: a picture comes out, 0: none, -1: failed
static int encode(Enc *e, In in, unsigned char *const *planes, const int *stride, int csp, Coded &c)
{
    if (!e || !e->open) violation("closed-encoder", "a closed encoder is used");
    if (csp != e->p.csp) { H.failEncode = true; violation("wrong-format", "a picture with colour format %d is given to an encoder opened for %d", csp, e->p.csp); }
    int sw = csp < 3 ? 2 : 1, sh = csp < 2 ? 2 : 1; uint64_t h = 1469598103934665603ull; for (int k = 0; k < 3; k++) { int w = k ? (e->p.w + sw - 1) / sw : e->p.w, hh = k ? (e->p.h + sh - 1) / sh : e->p.h; for (int y = 0; y < hh; y++) { check_access(planes[k] + y * stride[k], w, false, __builtin_return_address(0)); h = hashBytes(planes[k] + y * stride[k], w, h); } } in.hash = h; H.given(*e, in, csp);
    if (H.slow) sleep_us(choose(W, H.slow)); if (H.failP && chance(F, 1, H.failP)) { fault("encoder_encode"); H.failEncode = true; return -1; }
    if (e->in && in.pts <= e->order.back()) violation("encoder-time", "the encoder gets picture time %lld after %lld", (long long)in.pts, (long long)e->order.back()); if (!e->in) e->first = in.pts; e->in++; e->order.push_back(in.pts); e->pending.push_back(in);
    if (e->in <= (uint64_t)e->delay) return 0; if (e->ready.empty()) { decide(e, false); if (e->ready.empty()) decide(e, true); }
    In o = e->ready.front(); e->ready.pop_front(); c.pts = o.pts; uint64_t k = e->out++; c.dts = k < (uint64_t)e->bdelay ? e->first - e->bdelay + (int64_t)k : e->order[k - e->bdelay]; if (c.dts > c.pts) c.dts = c.pts; c.key = o.idr;
    // the NAL units
    unsigned n = 1 + choose(W, 3); std::vector<unsigned> len; if (H.many && chance(F, 1, H.many)) { fault("many_nals"); n = 12 + choose(W, 10); } bool ps = o.idr && e->p.repeat; if (e->p.aud) len.push_back(6 + choose(W, 3)); if (ps) len.push_back(e->headLen); for (unsigned i = 0; i < n; i++) len.push_back(H.big && chance(F, 1, H.big) ? (fault("large_nal"), 560 + choose(W, 200)) : 48 + choose(W, chance(W, 1, 4) ? 550 : 120));
    unsigned tot = 0; for (unsigned l : len) tot += l; if (e->buf) sutFree(e->buf); e->buf = sutAlloc(tot); e->n4.clear(); e->n5.clear(); unsigned off = 0;
    for (unsigned i = 0; i < len.size(); i++) {
        unsigned char *d = e->buf + off; for (unsigned j = 0; j < len[i]; j++) d[j] = j < 3 ? 0 : j == 3 ? 1 : 1 + (o.pts * 53 + e->serial * 17 + i * 29 + j * 3) % 251; uint64_t x = o.hash; if (len[i] > 30) for (int j = 0; j < 8; j++) { d[10 + j] = 1 + (x & 127); x >>= 7; } d[4] = i == 0 && e->p.aud ? 9 : ps && i == 1 ? 7 : o.idr ? 5 : 1; if (!e->p.annexb) { unsigned l = len[i] - 4; for (int j = 0; j < 4; j++) d[j] = l >> (24 - 8 * j); }
        c.nals.push_back(Nal{hashBytes(d, len[i]), len[i]}); x264_nal_t a; memset(&a, 0, sizeof a); a.p_payload = d; a.i_payload = len[i]; e->n4.push_back(a); x265_nal b; memset(&b, 0, sizeof b); b.payload = d; b.sizeBytes = len[i]; e->n5.push_back(b); off += len[i]; }
    log("encoder %d: picture %lld, decode %lld%s, %zu NALs, %u bytes", e->serial, (long long)c.pts, (long long)c.dts, c.key ? " IDR" : "", c.nals.size(), tot); H.made(*e, c); return 1;
}
static int csp4(int c) { c &= X264_CSP_MASK; return c == X264_CSP_I420 ? 1 : c == X264_CSP_I422 ? 2 : c == X264_CSP_I444 ? 3 : 0; }
static int csp5(int c) { return c == X265_CSP_I420 ? 1 : c == X265_CSP_I422 ? 2 : c == X265_CSP_I444 ? 3 : 0; }
static const char *presets[] = {"ultrafast", "superfast", "veryfast", "faster", "fast", "medium", "slow", "slower", "veryslow", "placebo"};
static int presetNo(const char *p) { for (int i = 0; i < 10; i++) if (p && !strcmp(p, presets[i])) return i; return -1; }
}
using namespace cod;
extern "C" {
void x264_picture_init(x264_picture_t *p) { Harness h; check_access(p, sizeof *p, true, __builtin_return_address(0)); memset(p, 0, sizeof *p); }
int x264_param_default_preset(x264_param_t *p, const char *preset, const char *)
{
    Harness h; check_access(p, sizeof *p, true, __builtin_return_address(0)); memset(p, 0, sizeof *p); p->i_csp = X264_CSP_I420; p->i_keyint_max = 250; p->i_bframe = 3; p->i_fps_num = 25; p->i_fps_den = 1; p->b_repeat_headers = 1; p->b_annexb = 1; p->rc.i_lookahead = 40; lastPreset = preset ? preset : ""; int n = presetNo(preset); if (n == 0) { p->i_bframe = 0; p->rc.i_lookahead = 0; } return n < 0 && preset ? -1 : 0;
}
int x264_param_apply_profile(x264_param_t *p, const char *profile) { Harness h; int c = csp4(p->i_csp), m = !strcmp(profile, "high") || !strcmp(profile, "main") || !strcmp(profile, "baseline") ? 1 : !strcmp(profile, "high422") ? 2 : !strcmp(profile, "high444") ? 3 : -1; if (m < 0 || c > m) { log("x264: profile %s refused for csp %d", profile, c); return -1; } return 0; }
int x264_param_parse(x264_param_t *p, const char *name, const char *value)
{
    Harness h; std::string n = name; int x = 0; bool ok = parseInt(value, x); if (n == "fps") { int a, b; float f; if (sscanf(value, "%d/%d", &a, &b) == 2) { p->i_fps_num = a; p->i_fps_den = b; return 0; } if (sscanf(value, "%f", &f) == 1) { p->i_fps_num = (int)(f * 1000 + .5) % 1000 ? (int)(f * 1000 + .5) : (int)f; p->i_fps_den = p->i_fps_num == (int)f ? 1 : 1000; return 0; } return X264_PARAM_BAD_VALUE; }
    if (n == "keyint") p->i_keyint_max = x; else if (n == "threads") p->i_threads = x; else if (n == "aud") p->b_aud = x != 0; else if (n == "bitrate") { p->rc.i_bitrate = x; p->rc.i_rc_method = X264_RC_ABR; } else if (n == "bframes") p->i_bframe = x; else if (n == "open-gop") p->b_open_gop = x; else if (n == "repeat-headers") p->b_repeat_headers = x != 0; else if (n == "vbv-maxrate") p->rc.i_vbv_max_bitrate = x; else if (n == "vbv-bufsize") p->rc.i_vbv_buffer_size = x; else if (n == "rc-lookahead") p->rc.i_lookahead = x; else if (n == "annexb") p->b_annexb = x != 0; else return X264_PARAM_BAD_NAME; return ok ? 0 : X264_PARAM_BAD_VALUE;
}
static Par par4(const x264_param_t *p) { Par q; q.w = p->i_width; q.h = p->i_height; q.csp = csp4(p->i_csp); q.keyint = p->i_keyint_max; q.bframes = p->i_bframe; q.threads = p->i_threads; q.bitrate = p->rc.i_bitrate; q.fpsNum = p->i_fps_num; q.fpsDen = p->i_fps_den; q.look = p->rc.i_lookahead; q.repeat = p->b_repeat_headers; q.annexb = p->b_annexb; q.aud = p->b_aud; q.preset = lastPreset; return q; }
x264_t *x264_encoder_open(x264_param_t *p) { Harness h; return (x264_t *)open(par4(p), false); }
int x264_encoder_reconfig(x264_t *x, x264_param_t *p) { Harness h; Enc *e = (Enc *)x; if (!e || !e->open) violation("closed-encoder", "a closed encoder is reconfigured"); e->p.bitrate = p->rc.i_bitrate; return 0; }
void x264_encoder_close(x264_t *x) { Harness h; close((Enc *)x); }
int x264_encoder_headers(x264_t *x, x264_nal_t **n, int *k) { Harness h; Enc *e = (Enc *)x; if (!e || !e->open) violation("closed-encoder", "headers of a closed encoder"); if (H.failP && chance(F, 1, H.failP)) { fault("encoder_headers"); H.failHeaders = true; return -1; } x264_nal_t a; memset(&a, 0, sizeof a); a.p_payload = e->head; a.i_payload = e->headLen; e->n4.assign(1, a); *n = &e->n4[0]; *k = 1; return e->headLen; }
int x264_encoder_encode(x264_t *x, x264_nal_t **n, int *k, x264_picture_t *in, x264_picture_t *out)
{
    Harness h; Enc *e = (Enc *)x; Coded c; if (in->extra_sei.num_payloads || in->prop.quant_offsets || in->hrd_timing.cpb_initial_arrival_time != 0) violation("configuration", "a picture is given to the encoder library that was never initialised"); int r = encode(e, In{in->i_pts, 0, in->i_type == X264_TYPE_IDR}, in->img.plane, in->img.i_stride, csp4(in->img.i_csp), c); *k = 0; *n = nullptr; if (r <= 0) return r; *n = &e->n4[0]; *k = (int)e->n4.size(); memset(out, 0, sizeof *out); out->i_pts = c.pts; out->i_dts = c.dts; out->b_keyframe = c.key; int t = 0; for (auto &q : e->n4) t += q.i_payload; return t;
}
x265_param *x265_param_alloc(void) { Sut u; return (x265_param *)calloc(1, sizeof(x265_param)); }
void x265_param_free(x265_param *p) { Sut u; free(p); }
x265_picture *x265_picture_alloc(void) { Sut u; void *p = malloc(sizeof(x265_picture)); if (p) memset(p, 0xA5, sizeof(x265_picture)); return (x265_picture *)p; }   // (uninitialised, as in the library)
void x265_picture_free(x265_picture *p) { Sut u; free(p); }
void x265_cleanup(void) {}
int x265_param_default_preset(x265_param *p, const char *preset, const char *)
{
    Harness h; check_access(p, sizeof *p, true, __builtin_return_address(0)); memset(p, 0, sizeof *p); p->internalCsp = X265_CSP_I420; p->keyframeMax = 250; p->bframes = 4; p->bAnnexB = 1; p->lookaheadDepth = 20; lastPreset = preset ? preset : ""; int n = presetNo(preset); if (n == 0) { p->bframes = 3; p->lookaheadDepth = 5; } return n < 0 && preset ? -1 : 0;
}
int x265_param_apply_profile(x265_param *p, const char *profile) { Harness h; int c = csp5(p->internalCsp); std::string s = profile; int m = s == "main" || s == "main10" ? 1 : s.find("422") != std::string::npos ? 2 : s.find("444") != std::string::npos ? 3 : -1; if (m < 0 || c > m) { log("x265: profile %s refused for csp %d", profile, c); return -1; } return 0; }
int x265_param_parse(x265_param *p, const char *name, const char *value)
{
    Harness h; std::string n = name; int x = 0; bool ok = parseInt(value, x); if (n == "fps") { int a, b; float f; if (sscanf(value, "%d/%d", &a, &b) == 2) { p->fpsNum = a; p->fpsDenom = b; return 0; } if (sscanf(value, "%f", &f) == 1) { p->fpsNum = (int)(f * 1000 + .5) % 1000 ? (int)(f * 1000 + .5) : (int)f; p->fpsDenom = p->fpsNum == (uint32_t)f ? 1 : 1000; return 0; } return X265_PARAM_BAD_VALUE; }
    if (n == "input-res") { int a, b; if (sscanf(value, "%dx%d", &a, &b) != 2) return X265_PARAM_BAD_VALUE; p->sourceWidth = a; p->sourceHeight = b; return 0; } if (n == "input-csp") { std::string v = value; p->internalCsp = v == "i420" || v == "1" ? X265_CSP_I420 : v == "i422" || v == "2" ? X265_CSP_I422 : v == "i444" || v == "3" ? X265_CSP_I444 : 0; return 0; }
    if (n == "keyint") p->keyframeMax = x; else if (n == "frame-threads") p->frameNumThreads = x; else if (n == "aud") p->bEnableAccessUnitDelimiters = x != 0; else if (n == "bitrate") { p->rc.bitrate = x; p->rc.rateControlMode = X265_RC_ABR; } else if (n == "bframes") p->bframes = x; else if (n == "open-gop") p->bOpenGOP = x; else if (n == "repeat-headers") p->bRepeatHeaders = x != 0; else if (n == "vbv-maxrate") p->rc.vbvMaxBitrate = x; else if (n == "vbv-bufsize") p->rc.vbvBufferSize = x; else if (n == "rc-lookahead") p->lookaheadDepth = x; else if (n == "annexb") p->bAnnexB = x != 0; else return X265_PARAM_BAD_NAME; return ok ? 0 : X265_PARAM_BAD_VALUE;
}
static Par par5(const x265_param *p) { Par q; q.w = p->sourceWidth; q.h = p->sourceHeight; q.csp = csp5(p->internalCsp); q.keyint = p->keyframeMax; q.bframes = p->bframes; q.threads = p->frameNumThreads; q.bitrate = p->rc.bitrate; q.fpsNum = p->fpsNum; q.fpsDen = p->fpsDenom; q.look = p->lookaheadDepth; q.repeat = p->bRepeatHeaders; q.annexb = p->bAnnexB; q.aud = p->bEnableAccessUnitDelimiters; q.preset = lastPreset; return q; }
x265_encoder *x265_encoder_open(x265_param *p) { Harness h; return (x265_encoder *)open(par5(p), true); }
void x265_encoder_close(x265_encoder *x) { Harness h; close((Enc *)x); }
int x265_encoder_headers(x265_encoder *x, x265_nal **n, uint32_t *k) { Harness h; Enc *e = (Enc *)x; if (!e || !e->open) violation("closed-encoder", "headers of a closed encoder"); if (H.failP && chance(F, 1, H.failP)) { fault("encoder_headers"); H.failHeaders = true; return -1; } x265_nal a; memset(&a, 0, sizeof a); a.payload = e->head; a.sizeBytes = e->headLen; e->n5.assign(1, a); *n = &e->n5[0]; *k = 1; return e->headLen; }
void x265_picture_init(x265_param *p, x265_picture *c) { Harness h; check_access(c, sizeof *c, true, __builtin_return_address(0)); memset(c, 0, sizeof *c); c->bitDepth = 8; c->colorSpace = p->internalCsp; }
int x265_encoder_encode(x265_encoder *x, x265_nal **n, uint32_t *k, x265_picture *in, x265_picture *out)
{
    Harness h; Enc *e = (Enc *)x; Coded c; unsigned char *pl[3]; if (in->bitDepth != 8 || in->userSEI.numPayloads || in->quantOffsets) violation("configuration", "a picture is given to the encoder library that was never initialised"); for (int i = 0; i < 3; i++) pl[i] = (unsigned char *)in->planes[i]; int r = encode(e, In{in->pts, 0, in->sliceType == X265_TYPE_IDR}, pl, in->stride, csp5(in->colorSpace), c); *k = 0; *n = nullptr; if (r <= 0) return r; *n = &e->n5[0]; *k = (uint32_t)e->n5.size(); out->pts = c.pts; out->dts = c.dts; return 1;
}
}
