// C23: normal maps.
#include "img.h"

using namespace img;

namespace
{

typedef Image::NormalOptions NO;
struct Size { unsigned w, h; };
std::vector<Size> sizes(bool th)
{
	std::vector<Size> v;
	unsigned n = th ? 7 : 4;
	for (unsigned w = 1; w <= n; ++w)
	{
		for (unsigned h = 1; h <= n; ++h)
			v.push_back({w, h});
	}
	v.push_back({9, 2});
	v.push_back({2, 33});
	v.push_back({40, 17});
	return v;
}

const unsigned patterns = 6; // and two more for some heights
Px height(const Desc& d, unsigned kind, unsigned x, unsigned y, unsigned w, unsigned h)
{
	double r;
	switch (kind)
	{
		case 0: r = 0.5; break;
		case 1: r = (x + 1.0)/(w + 1); break;
		case 2: r = (y + 1.0)/(h + 1); break;
		case 3: r = ((x*7 + y*5) % 11)/10.0; break;
		case 4: r = (x == 0 && y == 0) ? 1 : 0; break;
		case 6: r = 0.5 + ((x*7 + y*5) % 11)*(d.kind == Norm ? 1/65535.0 : 3e-5); break; // nearly flat
		case 7: r = ((x*3 + y*7) % 5)*(d.kind == Flt ? 1234.5 : 0.25); break; // cliffs
		default: r = (x + 1 == w && y + 1 == h) ? 1 : 0; break;
	}
	if (kind == 7 && (d.kind == Int || d.kind == UInt))
		r = std::round(r*32767);
	else if (d.kind == Int || d.kind == UInt)
		r = std::round(r*8);
	else if (d.kind == Flt)
		r = r*3 - 1;
	// The other channels must not matter.
	return Px{{r, 1 - r, ((x + y) % 3)/2.0, (x % 2)*1.0}};
}

void map(mc::Ctx& ctx, std::size_t idx, const Desc& sd, unsigned w, unsigned h, unsigned opt, unsigned hk, unsigned kind,
	bool allDst)
{
	static const double heights[] = {1, 0.25, 10, -2, 0, 1e-3, 1e3};
	std::size_t n = formats().size();
	ColorSpace cs = (opt + hk + kind) % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	Image src = make(sd, w, h, cs, [&](unsigned x, unsigned y) { return height(sd, kind, x, y, w, h); });
	std::vector<unsigned char> before = bytes(sd, src);
	bool sign = opt & 1, wrapX = opt & 2, wrapY = opt & 4;
	for (std::size_t k = 0; k < n; ++k)
	{
		const Desc& dd = formats()[k];
		if (!allDst && dd.format != IF::RGBF && dd.format != IF::RGBA8 && dd.format != IF::RGB16)
			continue;
		std::string what = mc::fmt("%s %ux%u pattern %u -> %s options %u height %g", sd.name, w, h, kind,
			dd.name, opt, heights[hk]);
		Image out = dd.format == IF::RGBF && opt == 0 && hk == 0 ? src.createNormalMap() :
			dd.format == IF::RGBF ? src.createNormalMap(NO(opt), heights[hk]) :
			src.createNormalMap(NO(opt), heights[hk], dd.format);
		ctx.step();
		shape(ctx, out, dd.format, w, h, cs, what);
		if (bytes(sd, src) != before)
			ctx.fail("source-changed", "%s", what.c_str());
		for (unsigned y = 0; y < h; ++y)
		{
			for (unsigned x = 0; x < w; ++x)
			{
				auto val = [&](unsigned xx, unsigned yy) { return img::read(sd, src, xx, yy)[0]; };
				// Differences point from the higher to the lower side: x to the right, y upwards.
				double dx, dy;
				bool l = x > 0 || wrapX, r = x + 1 < w || wrapX;
				bool u = y > 0 || wrapY, d = y + 1 < h || wrapY;
				double left = l ? val(x > 0 ? x - 1 : w - 1, y) : val(x, y);
				double right = r ? val(x + 1 < w ? x + 1 : 0, y) : val(x, y);
				double up = u ? val(x, y > 0 ? y - 1 : h - 1) : val(x, y);
				double down = d ? val(x, y + 1 < h ? y + 1 : 0) : val(x, y);
				dx = (left - right)*heights[hk]/(l && r ? 2 : 1);
				dy = (down - up)*heights[hk]/(u && d ? 2 : 1);
				double len = std::sqrt(dx*dx + dy*dy + 1);
				Px want{{dx/len, dy/len, 1/len, 1}};
				if (!sign)
				{
					for (int c = 0; c < 3; ++c)
						want[c] = want[c]*0.5 + 0.5;
				}
				// A single-channel destination has no prescribed content.
				if (dd.single())
					continue;
				Px got = img::read(dd, out, x, y);
				for (const Ch& c : dd.chans)
				{
					double e = saturate(dd, c, want[c.ch]);
					double tol = dd.kind == Norm ? stepSize(dd, c, e)*(0.5 + 1e-5) : 2e-6;
					if (!(std::fabs(got[c.ch] - e) <= tol))
						ctx.fail(mc::fmt("normal:%s%s%s", wrapX ? "wrapX" : "", wrapY ? "wrapY" : "",
							sign ? "sign" : ""), "%s: (%u,%u) channel %d is %.9g, expected %.9g", what.c_str(),
							x, y, c.ch, got[c.ch], e);
				}
				ctx.step();
			}
		}
	}
	Image inv;
	if (inv.createNormalMap().isValid() || src.createNormalMap(NO(opt), 1, IF::Invalid).isValid())
		ctx.fail("invalid", "a normal map of nothing");
	ctx.state(mc::mix(idx, opt*64 + hk*8 + kind));
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s %ux%u pattern %u options %u height %g", sd.name, w, h, kind, opt, heights[hk]));
}

void mapCase(mc::Ctx& ctx, std::size_t idx)
{
	std::vector<Size> sz = sizes(ctx.thorough());
	Size s = sz[idx % sz.size()];
	unsigned opt = ctx.choose(8);
	unsigned pair = ctx.choose(5*patterns + 8), hk = pair/patterns, kind = pair % patterns;
	if (pair >= 5*patterns)
	{
		static const unsigned more[][2] = {{0, 6}, {0, 7}, {3, 6}, {3, 7}, {5, 3}, {5, 7}, {6, 3}, {6, 6}};
		hk = more[pair - 5*patterns][0];
		kind = more[pair - 5*patterns][1];
	}
	// Every destination for some cases, the usual ones for all.
	map(ctx, idx, formats()[idx/sz.size() % formats().size()], s.w, s.h, opt, hk, kind, hk < 2);
}

// Images whose sizes are above what fits into bytes, pages and 16 bits.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	Large s = large[idx % largeCount];
	map(ctx, idx + 100000, formats()[idx/largeCount], s.w, s.h, ctx.choose(8), 0, 3 + ctx.choose(ctx.thorough() ? 5 : 3), false);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C23";
	spec.rule = "every source format x size x option set x height x height pattern, to every destination format "
		"(for three of them at the extreme heights), each pixel against the defining formula; "
		"large: every source format x option set at 6 sizes up to 65539";
	spec.assumptions = {"single-channel destinations have no prescribed content"};
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "maps";
	a.cases = [n](bool th) { return n*sizes(th).size(); };
	a.body = mapCase;
	spec.families.push_back(a);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*largeCount; };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
