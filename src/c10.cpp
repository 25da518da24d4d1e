// C10: pixel access and pixel format conversion.
#include "img.h"
#include <map>

using namespace img;

namespace
{

struct Size { unsigned w, h; };
const Size sizes[] = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {5, 3}, {4, 4}, {7, 2}, {33, 2}, {2, 33}};
const std::size_t sizeCount = sizeof(sizes)/sizeof(*sizes);

Px background(const Desc& d, unsigned x, unsigned y)
{
	double a = double((x*7 + y*13) % 29)/29.0, b = double((x*5 + y*3) % 31)/31.0;
	if (d.kind == Int || d.kind == UInt)
		return Px{{std::floor(a*200), 0, 0, 1}};
	return Px{{a, b, 1 - a, 1 - b}};
}

// What a pixel must hold after writing v.
template <typename What>
void checkStored(mc::Ctx& ctx, const Desc& d, const Px& got, const Px& want, double tol,
	const std::string& key, const What& what)
{
	for (const Ch& c : d.chans)
	{
		double w = saturate(d, c, want[c.ch]);
		double g = got[c.ch];
		if (std::isinf(w) || std::isinf(g))
		{
			if (w != g)
				ctx.fail(mc::fmt("%s:%s", key.c_str(), d.name), "%s: channel %d is %.9g, expected %.9g",
					what().c_str(), c.ch, g, w);
			continue;
		}
		double half = stepSize(d, c, w)*(d.kind == Norm ? 0.5 + 1e-6 : 1.0);
		double t = std::max(half, tol);
		// Integers are the nearest whole number.
		bool ok = d.kind == Int || d.kind == UInt ? std::fabs(g - w) <= 0.5 : std::fabs(g - w) <= t;
		if (!ok)
			ctx.fail(mc::fmt("%s:%s", key.c_str(), d.name), "%s: channel %d is %.9g, expected %.9g",
				what().c_str(), c.ch, g, w);
	}
}

std::vector<Px> colors(const Desc& d, bool thorough)
{
	std::vector<double> v = lattice(d, thorough);
	std::vector<Px> out;
	// Values beyond the format's range, too.
	for (double x : {-1.0, -0.001, 1.001, 2.0, 1e5, -1e5, 32767.9, 32768.0, -32768.9, 65535.9, 65536.0,
		70000.0, 2147483647.9, 2147483648.0, -2147483649.0, 4294967295.9, 4294967296.0, 1e12, -1e12,
		1.5, 2.5, 0.999999, 1e-9, 254.5/255, 127.5/255, 0.4999/255, 0.5001/255})
		v.push_back(x);
	v.push_back(INFINITY);
	v.push_back(-INFINITY);
	for (double x : v)
	{
		out.push_back(Px{{x, 0.25, 0.5, 0.75}});
		out.push_back(Px{{0.75, x, 0.25, 0.5}});
		out.push_back(Px{{0.5, 0.75, x, 0.25}});
		out.push_back(Px{{0.25, 0.5, 0.75, x}});
		out.push_back(Px{{x, x, x, x}});
	}
	return out;
}

bool finite(const Px& p)
{
	for (double x : p.c)
	{
		if (!std::isfinite(x))
			return false;
	}
	return true;
}

void pixelCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx/sizeCount];
	Size s = sizes[idx % sizeCount];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned conv = ctx.choose(3); // 2: default argument
	std::string base = mc::fmt("%s %ux%u %s convertGrayscale=%u", d.name, s.w, s.h, csName(cs), conv);
	Image i(d.format, s.w, s.h, cs);
	shape(ctx, i, d.format, s.w, s.h, cs, base);
	for (unsigned y = 0; y < s.h; ++y)
	{
		for (unsigned x = 0; x < s.w; ++x)
			write(d, at(d, i, x, y), background(d, x, y));
	}
	// Every pixel can be read, through const and non-const scanlines alike.
	const Image& ci = i;
	for (unsigned y = 0; y < s.h; ++y)
	{
		if (ci.scanline(y) != i.scanline(y))
			ctx.fail("const-scanline", "%s", base.c_str());
	}
	std::vector<Px> all = colors(d, ctx.thorough());
	std::vector<std::pair<unsigned, unsigned>> positions;
	for (unsigned y = 0; y < s.h; ++y)
	{
		for (unsigned x = 0; x < s.w; ++x)
		{
			if (s.w*s.h <= 20 || x == 0 || x + 1 == s.w || (x == s.w/2))
				positions.push_back({x, y});
		}
	}
	std::vector<unsigned char> before = bytes(d, i);
	for (auto& pos : positions)
	{
		unsigned x = pos.first, y = pos.second;
		for (const Px& p : all)
		{
			bool gray = conv != 0 && d.gray;
			if (gray && !finite(p))
				continue; // The luminance of infinities is not a colour.
			ColorRGBAd c = color(p);
			bool r = conv == 2 ? i.setPixel(x, y, c) : i.setPixel(x, y, c, conv == 1);
			std::string what = base + mc::fmt(" (%u,%u) <- %s", x, y, str(p).c_str());
			if (!r)
				ctx.fail("setPixel-refused", "%s", what.c_str());
			Px want = p;
			if (gray)
				want[0] = want[1] = want[2] = luminance(p, cs);
			Px got = img::read(d, i, x, y);
			checkStored(ctx, d, got, want, gray ? std::fabs(want[0])*1e-6 : 0, "set", [&] { return what; });
			ColorRGBAd rd(-1, -1, -1, -1);
			if (!i.getPixel(rd, x, y))
				ctx.fail("getPixel-refused", "%s", what.c_str());
			Px g = px(rd);
			for (int k = 0; k < 4; ++k)
			{
				if (!(g[k] == got[k] || std::fabs(g[k] - got[k]) <= 1e-15*std::max(1.0, std::fabs(got[k]))))
					ctx.fail(mc::fmt("get:%s", d.name), "%s: channel %d reads %.9g, stored %.9g",
						what.c_str(), k, g[k], got[k]);
			}
			ctx.step();
		}
		// Nothing else changed.
		write(d, at(d, i, x, y), background(d, x, y));
		if (bytes(d, i) != before)
			ctx.fail("neighbour", "%s: writing (%u,%u) changed another pixel", base.c_str(), x, y);
	}
	// Outside.
	for (auto& o : {std::pair<unsigned, unsigned>{s.w, 0}, {0, s.h}, {s.w, s.h}, {~0u, 0}, {0, ~0u},
		{s.w + 1, 0}, {~0u, ~0u}})
	{
		ColorRGBAd c(0.5, 0.5, 0.5, 0.5);
		if (i.setPixel(o.first, o.second, c) || i.setPixel(o.first, o.second, c, false) ||
			i.getPixel(c, o.first, o.second))
			ctx.fail("outside", "%s: (%u,%u) accepted", base.c_str(), o.first, o.second);
		ctx.step(3);
	}
	if (bytes(d, i) != before)
		ctx.fail("outside-changed", "%s", base.c_str());
	ctx.state(mc::hashStr(base));
	if (ctx.wantSample())
		ctx.sample(base);
}

// Masks and shifts of the 16- and 32-bit formats select the channels.
void maskCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx];
	Image i(d.format, 3, 2);
	std::uint32_t masks[4] = {i.redMask(), i.greenMask(), i.blueMask(), i.alphaMask()};
	unsigned shifts[4] = {i.redShift(), i.greenShift(), i.blueShift(), i.alphaShift()};
	if (d.kind == Norm && d.chans.size() >= 3 && (d.bytes == 2 || d.bytes == 4))
	{
		for (const Ch& c : d.chans)
		{
			std::uint32_t want = std::uint32_t(((1ULL << c.bits) - 1) << c.shift);
			if (masks[c.ch] != want || shifts[c.ch] != unsigned(c.shift))
				ctx.fail(mc::fmt("mask:%s", d.name), "%s channel %d: mask %#x shift %u, stored at %#x shift %d",
					d.name, c.ch, masks[c.ch], shifts[c.ch], want, c.shift);
		}
		if (!d.alpha() && masks[3])
			ctx.fail("mask:alpha", "%s has an alpha mask", d.name);
	}
	ctx.step(8);
	// Every representable code of every channel survives a set and get.
	for (const Ch& c : d.chans)
	{
		if (c.bits > 16 || d.kind == Flt)
			continue;
		std::uint64_t n = 1ULL << c.bits;
		for (std::uint64_t v = 0; v < n; ++v)
		{
			double x = decode(d, c, v);
			Px p{{0.1, 0.2, 0.3, 0.4}};
			p[c.ch] = x;
			i.setPixel(1, 1, color(p), false);
			std::uint64_t r = raw(d, at(d, i, 1, 1), c);
			if (r != v)
				ctx.fail(mc::fmt("code:%s", d.name), "%s channel %d: code %llu (%.9g) became %llu", d.name,
					c.ch, (unsigned long long)v, x, (unsigned long long)r);
			// Just short of the middle of two codes.
			if (d.kind == Norm && v + 1 < n)
			{
				for (double f : {0.49, 0.51})
				{
					p[c.ch] = (double(v) + f)/double(n - 1);
					i.setPixel(1, 1, color(p), false);
					r = raw(d, at(d, i, 1, 1), c);
					if (r != v + (f > 0.5))
						ctx.fail(mc::fmt("code:%s", d.name), "%s channel %d: %.9g became code %llu", d.name,
							c.ch, p[c.ch], (unsigned long long)r);
				}
			}
			ctx.step(3);
		}
	}
	ctx.state(idx);
	// Invalid images.
	Image inv;
	ColorRGBAd c(0, 0, 0, 0);
	if (inv.getPixel(c, 0, 0) || inv.setPixel(0, 0, c) || inv.scanline(0) || inv.width() ||
		inv.height() || inv.bitsPerPixel() || inv.format() != IF::Invalid ||
		inv.convert(d.format).isValid())
		ctx.fail("invalid-image", "operations on an invalid image");
	if (i.convert(IF::Invalid).isValid() || inv.initialize(IF::Invalid, 2, 2) || inv.isValid())
		ctx.fail("invalid-format", "the invalid format was accepted");
}

void checkConverted(mc::Ctx& ctx, const Desc& s, const Desc& d, const Image& src, ColorSpace cs,
	bool gray, const std::string& base)
{
	std::vector<unsigned char> before = bytes(s, src);
	Image out = src.convert(d.format, gray);
	shape(ctx, out, d.format, src.width(), src.height(), cs, base);
	if (bytes(s, src) != before || src.format() != s.format || src.colorSpace() != cs)
		ctx.fail("source-changed", "%s", base.c_str());
	bool lumi = gray && d.gray && s.format != IF::Complex;
	std::string key = mc::fmt("convert:%s", s.name);
	for (unsigned y = 0; y < src.height(); ++y)
	{
		for (unsigned x = 0; x < src.width(); ++x)
		{
			Px p = img::read(s, src, x, y);
			Px want = p;
			if (lumi && !s.single())
			{
				if (!finite(p))
					continue;
				want[0] = want[1] = want[2] = luminance(p, cs);
			}
			Px got = img::read(d, out, x, y);
			double tol = 0;
			for (const Ch& c : s.chans)
			{
				double st = stepSize(s, c, p[c.ch]);
				if (std::isfinite(st))
					tol = std::max(tol, s.kind == Norm ? st : st*2);
			}
			if (s.kind != Norm && d.kind != Norm && d.kind != Flt)
				tol = 0;
			if (d.kind == Norm)
				tol = std::max(tol, stepSize(d, d.chans[0], 0)*(lumi ? 2 : 1));
			if (s.kind == Int || s.kind == UInt)
				tol = d.kind == Norm ? stepSize(d, d.chans[0], 0) : 0;
			if (lumi)
				tol = std::max(tol*(s.kind == Norm ? 2 : 1), std::fabs(want[0])*1e-6);
			tol *= 1 + 1e-6;
			checkStored(ctx, d, got, want, tol, key,
				[&] { return base + mc::fmt(" (%u,%u) %s", x, y, str(p).c_str()); });
			ctx.step();
		}
	}
}

void convertCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& s = formats()[idx/formats().size()];
	const Desc& d = formats()[idx % formats().size()];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	bool gray = ctx.choose(2) == 0;
	unsigned kind = ctx.choose(unsigned(sizeCount) + 5);
	std::string base = mc::fmt("%s -> %s %s gray=%d", s.name, d.name, csName(cs), int(gray));
	if (kind >= sizeCount + 2)
	{
		Image src = neighbourImage(s, cs, kind - unsigned(sizeCount) - 2);
		checkConverted(ctx, s, d, src, cs, gray, base + mc::fmt(" neighbours %ux%u", src.width(), src.height()));
		ctx.state(mc::hashStr(base, kind));
		return;
	}
	std::vector<double> v = lattice(s, ctx.thorough());
	std::vector<Px> px;
	unsigned w, h;
	if (kind < sizeCount)
	{
		w = sizes[kind].w;
		h = sizes[kind].h;
		for (unsigned y = 0; y < h; ++y)
		{
			for (unsigned x = 0; x < w; ++x)
			{
				std::size_t k = x + y*w;
				px.push_back(Px{{v[k % v.size()], v[(k*3 + 1) % v.size()], v[(k*5 + 2) % v.size()],
					v[(k*7 + 3) % v.size()]}});
			}
		}
	}
	else if (kind == sizeCount)
	{
		// All combinations of values of the channels.
		std::size_t n = v.size(), m = s.chans.size() >= 3 ? n*n*n : s.chans.size() == 2 ? n*n : n;
		for (std::size_t k = 0; k < m; ++k)
			px.push_back(Px{{v[k % n], v[k/n % n], v[k/n/n % n], v[(k + k/n + k/n/n) % n]}});
		w = unsigned(std::min<std::size_t>(px.size(), 61));
		h = unsigned((px.size() + w - 1)/w);
	}
	else
	{
		// Every code.
		int bits = s.chans[0].bits;
		for (const Ch& c : s.chans)
			bits = std::max(bits, c.bits);
		if (bits > 16)
			return;
		std::size_t n = std::size_t(1) << bits;
		for (std::size_t k = 0; k < n; ++k)
		{
			double q = decode(s, s.chans[0], k & ((std::size_t(1) << s.chans[0].bits) - 1));
			if (s.kind != Norm)
			{
				px.push_back(Px{{q, q, q, q}});
				continue;
			}
			double t = double(k)/double(n - 1);
			px.push_back(Px{{t, double((k*3 + 7) % n)/double(n - 1), 1 - t,
				double((k*7 + 1) % n)/double(n - 1)}});
		}
		w = unsigned(std::min<std::size_t>(n, 256));
		h = unsigned(n/w);
	}
	Image src = make(s, w, h, cs, [&](unsigned x, unsigned y) { return px[(x + y*w) % px.size()]; });
	checkConverted(ctx, s, d, src, cs, gray, base + mc::fmt(" %ux%u", w, h));
	ctx.state(mc::hashStr(base, kind));
	if (ctx.wantSample())
		ctx.sample(base + mc::fmt(" %ux%u", w, h));
}

// Sizes beyond 16-bit counts and row buffers: pixel access and every conversion.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& s = formats()[idx/largeCount];
	Size z{large[idx % largeCount].w, large[idx % largeCount].h};
	ColorSpace cs = (idx & 1) ? ColorSpace::sRGB : ColorSpace::Linear;
	std::vector<double> v = lattice(s, false);
	auto value = [&](unsigned x, unsigned y) {
		std::size_t k = x*3 + y*7 + x/256*5 + y/256*11;
		return Px{{v[k % v.size()], v[(k*3 + 1) % v.size()], v[(k*5 + 2) % v.size()], v[(k*7 + 3) % v.size()]}};
	};
	Image src = make(s, z.w, z.h, cs, value);
	std::string base = mc::fmt("%s %ux%u %s", s.name, z.w, z.h, csName(cs));
	unsigned what = ctx.choose(1 + unsigned(formats().size()));
	if (what)
	{
		const Desc& d = formats()[what - 1];
		bool gray = ctx.choose(2) == 0;
		checkConverted(ctx, s, d, src, cs, gray, base + mc::fmt(" -> %s gray=%d", d.name, int(gray)));
		ctx.state(mc::hashStr(base, what*2 + gray));
		return;
	}
	// Every pixel reads as what it stores; every pixel written shows there and nowhere else.
	Image copy = src;
	for (unsigned y = 0; y < z.h; ++y)
	{
		for (unsigned x = 0; x < z.w; ++x)
		{
			ColorRGBAd c(-1, -1, -1, -1);
			if (!copy.getPixel(c, x, y))
				ctx.fail("getPixel-refused", "%s (%u,%u)", base.c_str(), x, y);
			Px want = img::read(s, src, x, y), got = px(c);
			for (int k = 0; k < 4; ++k)
			{
				if (!(got[k] == want[k] || std::fabs(got[k] - want[k]) <= 1e-15*std::max(1.0, std::fabs(want[k]))))
					ctx.fail(mc::fmt("get:%s", s.name), "%s (%u,%u) channel %d reads %.9g, stored %.9g",
						base.c_str(), x, y, k, got[k], want[k]);
			}
			Px next = value(x + 1, y + 3);
			ColorRGBAd n = color(next);
			if (!finite(next))
				continue;
			if (!copy.setPixel(x, y, n, false))
				ctx.fail("setPixel-refused", "%s (%u,%u)", base.c_str(), x, y);
			ctx.step(2);
		}
	}
	for (unsigned y = 0; y < z.h; ++y)
	{
		for (unsigned x = 0; x < z.w; ++x)
		{
			Px next = value(x + 1, y + 3);
			if (finite(next))
				checkStored(ctx, s, img::read(s, copy, x, y), next, 0, "set",
					[&] { return base + mc::fmt(" (%u,%u)", x, y); });
		}
	}
	for (auto& o : {std::pair<unsigned, unsigned>{z.w, 0}, {0, z.h}, {z.w, z.h}, {z.w + 65536, 0}, {0, z.h + 65536}})
	{
		ColorRGBAd c(0.5, 0.5, 0.5, 0.5);
		if (copy.setPixel(o.first, o.second, c) || copy.getPixel(c, o.first, o.second))
			ctx.fail("outside", "%s: (%u,%u) accepted", base.c_str(), o.first, o.second);
	}
	ctx.state(mc::hashStr(base));
	if (ctx.wantSample())
		ctx.sample(base + ": every pixel read and written");
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C10";
	spec.rule = "pixels: every format x image size x colour space x grayscale mode x position x colour lattice "
		"(including out-of-range and infinite values); codes: every representable code of every "
		"channel up to 16 bits and the values beside each rounding boundary; convert: every pair of "
		"formats x colour space x grayscale mode x size, on lattices of all channel combinations, on "
		"every ordered pair of neighbouring colours and on every code; large: every format x 6 sizes up to 65539, every pixel read and written and converted "
		"to every format";
	spec.assumptions = {"NaN channels have no prescribed value",
		"conversions may truncate or round, but stay within one step of the coarser format (two for a "
		"luminance, which FreeImage computes from already reduced channels)"};
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "pixels";
	a.cases = [n](bool) { return n*sizeCount; };
	a.body = pixelCase;
	spec.families.push_back(a);
	mc::Family m;
	m.name = "codes";
	m.cases = [n](bool) { return n; };
	m.body = maskCase;
	spec.families.push_back(m);
	mc::Family c;
	c.name = "convert";
	c.cases = [n](bool) { return n*n; };
	c.body = convertCase;
	spec.families.push_back(c);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*largeCount; };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
