// Shared by the decoder harnesses: a decoder is run on an exact-size heap copy of a file and compared with an independent reference decoder.
#pragma once
#include "huira_prelude.hpp"
#include "huira/util/logger.hpp"
#include "huira/images/image.hpp"
#include "mc.hpp"
using namespace huira;
using Bytes = std::vector<unsigned char>;
struct Ref { enum Kind { OK, REJECT, EITHER } kind = REJECT; int w = 0, h = 0; bool alpha = false; std::vector<std::array<float, 4>> px; std::string why; };
static void put16(Bytes& b, std::size_t o, unsigned v) { b[o] = (unsigned char)v; b[o + 1] = (unsigned char)(v >> 8); }
static void put32(Bytes& b, std::size_t o, std::uint32_t v) { put16(b, o, v & 0xffff); put16(b, o + 2, v >> 16); }
static unsigned get16(const Bytes& b, std::size_t o) { return unsigned(b[o]) | unsigned(b[o + 1]) << 8; }
static std::uint32_t get32(const Bytes& b, std::size_t o) { return get16(b, o) | std::uint32_t(get16(b, o + 2)) << 16; }
struct Exact { unsigned char* p; std::size_t n; explicit Exact(const Bytes& b) : p(new unsigned char[b.size()]), n(b.size()) { if (n) std::memcpy(p, b.data(), n); } ~Exact() { delete[] p; } };
// mono_of: what the mono reader is documented to make of a colour
template <class Rgb, class Mono, class MonoOf> static void compare(const Bytes& file, const Ref& r, Rgb rgb, Mono mono, MonoOf mono_of, float tol)
{
    for (int al = 1; al >= 0; --al) {
        Exact e(file); bool threw = false; ImageBundle<RGB> b;
        try { b = rgb(e.p, e.n, al == 1); } catch (const std::bad_alloc&) { mc::fail("memory", "runs out of memory"); return; } catch (const std::exception&) { threw = true; }
        if (r.kind == Ref::REJECT) mc::check(threw, "accepted", "a malformed file is accepted (%s)", r.why.c_str());
        if (r.kind == Ref::OK) mc::check(!threw, "refused", "a valid file is refused");
        if (!threw) { mc::check(b.image.width() >= 0 && b.image.height() >= 0 && b.image.size() == std::size_t(b.image.width()) * std::size_t(b.image.height()) && (b.alpha.size() == 0 || b.alpha.size() == b.image.size()), "size", "inconsistent image size"); }
        if (!threw && r.kind == Ref::OK) {
            if (!mc::check(b.image.width() == r.w && b.image.height() == r.h, "size", "%dx%d, expected %dx%d", b.image.width(), b.image.height(), r.w, r.h)) continue;
            if (!al) mc::check(b.alpha.size() == 0, "alpha", "an alpha image although none was asked for"); else mc::check((b.alpha.size() != 0) == r.alpha, "alpha", "alpha image %s", b.alpha.size() ? "without alpha in the file" : "missing");
            for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) { auto& q = r.px[std::size_t(y) * std::size_t(r.w) + std::size_t(x)]; for (int c = 0; c < 3; ++c) { float g = b.image(x, y)[std::size_t(c)]; if (!(std::fabs(g - q[std::size_t(c)]) <= tol * (1 + std::fabs(q[std::size_t(c)])))) { mc::check(false, "pixel", "(%d,%d) channel %d is %.6g, expected %.6g", x, y, c, double(g), double(q[std::size_t(c)])); return; } } if (al && r.alpha && b.alpha.size()) if (!(std::fabs(b.alpha(x, y) - q[3]) <= tol)) { mc::check(false, "alpha-value", "(%d,%d) is %.6g, expected %.6g", x, y, double(b.alpha(x, y)), double(q[3])); return; } }
        }
        bool mthrew = false; ImageBundle<float> m; try { m = mono(e.p, e.n, al == 1); } catch (const std::bad_alloc&) { mc::fail("memory", "runs out of memory"); return; } catch (const std::exception&) { mthrew = true; }
        if (r.kind != Ref::EITHER) mc::check(mthrew == threw, "mono", "the mono reader %s", mthrew ? "refuses" : "accepts");
        if (!mthrew && r.kind == Ref::OK) { bool ok = m.image.width() == r.w && m.image.height() == r.h && (m.alpha.size() != 0) == (al == 1 && r.alpha); if (mc::check(ok, "mono", "mono size or alpha")) for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) { auto& q = r.px[std::size_t(y) * std::size_t(r.w) + std::size_t(x)]; float ex = mono_of(q[0], q[1], q[2]); if (!(m.image(x, y) == ex || std::fabs(m.image(x, y) - ex) <= tol * (1 + std::fabs(ex)) * 3) || (al && r.alpha && !(std::fabs(m.alpha(x, y) - q[3]) <= tol))) { mc::check(false, "mono", "(%d,%d) is %.6g, expected %.6g", x, y, double(m.image(x, y)), double(ex)); return; } } }
    }
}
