// C12: colour space changes, grayscale and alpha pre-multiplication.
#include "img.h"

using namespace img;

namespace
{

struct Size { unsigned w, h; };
const Size sizes[] = {{0, 0}, {1, 1}, {3, 2}, {2, 5}, {33, 3}};
const unsigned sizeCount = 5;

void checkPixel(mc::Ctx& ctx, const Desc& d, const Px& got, const Px& want, bool exactAlpha,
	const char* key, const std::string& what)
{
	for (const Ch& c : d.chans)
	{
		double w = saturate(d, c, want[c.ch]), g = got[c.ch];
		double tol = d.kind == Norm ? stepSize(d, c, w)*(0.5 + 1e-6) :
			d.kind == Flt ? std::max(std::fabs(w)*(c.bits == 32 ? 1e-6 : 1e-12), 1e-30) : 0.5 + std::fabs(w)*1e-12;
		if (exactAlpha && c.ch == 3)
			tol = 0;
		if (!(g == w || std::fabs(g - w) <= tol))
			ctx.fail(mc::fmt("%s:%s", key, d.name), "%s: channel %d is %.12g, expected %.12g", what.c_str(),
				c.ch, g, w);
	}
}

// 0 linear, 1 sRGB, 2 grayscale, 3 pre-multiply.
const char* opNames[] = {"toLinear", "tosRGB", "grayscale", "preMultiplyAlpha"};

void apply(mc::Ctx& ctx, const Desc& d, Image& i, unsigned op, ColorSpace& cs, const std::string& what)
{
	unsigned w = i.width(), h = i.height();
	std::vector<Px> before;
	std::vector<unsigned char> rawBefore = bytes(d, i);
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
			before.push_back(img::read(d, i, x, y));
	}
	ColorSpace oldCs = cs;
	bool ok = false;
	switch (op)
	{
		case 0: ok = i.changeColorSpace(ColorSpace::Linear); cs = ColorSpace::Linear; break;
		case 1: ok = i.changeColorSpace(ColorSpace::sRGB); cs = ColorSpace::sRGB; break;
		case 2: ok = i.grayscale(); break;
		case 3: ok = i.preMultiplyAlpha(); break;
	}
	if (!ok)
		ctx.fail("refused", "%s", what.c_str());
	shape(ctx, i, d.format, w, h, cs, what);
	if ((op < 2 && oldCs == cs) || (op == 3 && !d.alpha()))
	{
		if (bytes(d, i) != rawBefore)
			ctx.fail(mc::fmt("%s-identity:%s", opNames[op], d.name), "%s: the image changed", what.c_str());
		return;
	}
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			Px p = before[x + y*w];
			Px want = p;
			switch (op)
			{
				case 0:
					for (int c = 0; c < 3; ++c)
						want[c] = toLinear(p[c]);
					break;
				case 1:
					for (int c = 0; c < 3; ++c)
						want[c] = toSRGB(p[c]);
					break;
				case 2:
					want[0] = want[1] = want[2] = luminance(p, cs);
					break;
				case 3:
					for (int c = 0; c < 3; ++c)
						want[c] = cs == ColorSpace::sRGB ? toSRGB(toLinear(p[c])*p[3]) : p[c]*p[3];
					break;
			}
			checkPixel(ctx, d, img::read(d, i, x, y), want, true, opNames[op],
				what + mc::fmt(" (%u,%u) %s", x, y, str(p).c_str()));
		}
	}
	ctx.step(std::uint64_t(w)*h);
}

Image initial(const Desc& d, unsigned size, ColorSpace cs, bool thorough)
{
	std::vector<double> v = lattice(d, thorough);
	std::size_t n = v.size();
	Size s = sizes[size];
	if (size == 0)
	{
		std::size_t m = d.chans.size() >= 3 ? n*n*n : d.chans.size() == 2 ? n*n : n;
		s.w = unsigned(std::min<std::size_t>(m, 59));
		s.h = unsigned((m + s.w - 1)/s.w);
	}
	return make(d, s.w, s.h, cs, [&](unsigned x, unsigned y) {
		std::size_t k = x + std::size_t(y)*s.w;
		if (size)
			k = k*37 + 11;
		double a = v[(k + k/n + k/n/n) % n];
		return Px{{v[k % n], v[k/n % n], v[k/n/n % n], a}}; });
}

void sequenceCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx/sizeCount];
	unsigned size = unsigned(idx % sizeCount);
	unsigned depth = size == 0 ? 2 : ctx.thorough() ? 6 : 5;
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image i = initial(d, size, cs, ctx.thorough() && size == 0);
	std::string what = mc::fmt("%s %ux%u %s:", d.name, i.width(), i.height(), csName(cs));
	Image copy = i;
	std::vector<unsigned char> copyBytes = bytes(d, copy);
	for (unsigned k = 0; k < depth; ++k)
	{
		unsigned op = ctx.choose(4);
		what += std::string(" ") + opNames[op];
		apply(ctx, d, i, op, cs, what);
	}
	if (bytes(d, copy) != copyBytes)
		ctx.fail("copy-changed", "%s", what.c_str());
	std::vector<unsigned char> b = bytes(d, i);
	ctx.state(mc::hashBytes(b.data(), b.size(), unsigned(d.format)*2 + unsigned(cs)));
	if (ctx.wantSample())
		ctx.sample(what);
}

// Images whose sizes are above what fits into bytes, pages and 16 bits.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx/largeCount];
	Large s = large[idx % largeCount];
	unsigned op = ctx.choose(4);
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	if (idx % largeCount < 3)
	{
		// Every ordered pair of neighbouring colours.
		unsigned layout = unsigned(idx % largeCount);
		Image i = neighbourImage(d, cs, layout);
		ColorSpace c = cs;
		apply(ctx, d, i, op, c, mc::fmt("%s neighbours %u %s: %s", d.name, layout, csName(cs), opNames[op]));
	}
	std::vector<double> v = lattice(d, false);
	Image i = make(d, s.w, s.h, cs, [&](unsigned x, unsigned y) {
		std::size_t k = x*3 + y*7 + std::size_t(x/97)*5;
		return Px{{v[k % v.size()], v[(k*3 + 1) % v.size()], v[(k*5 + 2) % v.size()], v[(k*7 + 3) % v.size()]}}; });
	apply(ctx, d, i, op, cs, mc::fmt("%s %ux%u %s: %s", d.name, s.w, s.h, csName(cs), opNames[op]));
	ctx.state(mc::mix(idx + 5000, op*2 + unsigned(cs)));
}

// Every code of every channel, through each transfer function; and there and back.
void codeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx];
	for (unsigned op = 0; op < 4; ++op)
	{
		for (ColorSpace start : {ColorSpace::Linear, ColorSpace::sRGB})
		{
			int bits = 0;
			for (const Ch& c : d.chans)
				bits = std::max(bits, c.bits);
			if (d.kind != Norm && bits > 16)
				bits = 12;
			std::size_t n = std::size_t(1) << bits;
			Image i = make(d, 64, unsigned((n + 63)/64), start, [&](unsigned x, unsigned y) {
				std::size_t k = x + std::size_t(y)*64;
				double t = double(k)/double(n - 1);
				if (d.kind == Int || d.kind == UInt)
					return Px{{double(k) - (d.kind == Int ? double(n/2) : 0), 0, 0, 1}};
				if (d.kind == Flt)
					t = t*1.5 - 0.25;
				return Px{{t, 1 - t, double(k*3 % n)/double(n - 1), double(k*5 % n)/double(n - 1)}}; });
			ColorSpace cs = start;
			Image before = i;
			apply(ctx, d, i, op, cs, mc::fmt("%s codes %s %s", d.name, csName(start), opNames[op]));
			if (op < 2 && cs != start && d.kind == Flt)
			{
				if (!i.changeColorSpace(start))
					ctx.fail("refused", "there and back");
				for (unsigned y = 0; y < i.height(); ++y)
				{
					for (unsigned x = 0; x < 64; ++x)
					{
						Px a = img::read(d, before, x, y), b = img::read(d, i, x, y);
						for (int c = 0; c < 4; ++c)
						{
							// The published transfer functions meet only to about 1e-6.
							if (std::fabs(a[c] - b[c]) > 1e-6 + 2e-6*std::fabs(a[c]))
								ctx.fail(mc::fmt("round-trip:%s", d.name), "%s became %s", str(a).c_str(),
									str(b).c_str());
						}
					}
				}
			}
		}
	}
	Image inv;
	if (inv.changeColorSpace(ColorSpace::sRGB) || inv.grayscale() || inv.preMultiplyAlpha() ||
		inv.colorSpace() != ColorSpace::Linear)
		ctx.fail("invalid-image", "operation on an invalid image succeeded");
	ctx.state(idx);
}

// The published functions themselves.
void functionCase(mc::Ctx& ctx, std::size_t idx)
{
	const unsigned n = 1u << (ctx.thorough() ? 20 : 14);
	for (unsigned k = 0; k <= n; ++k)
	{
		double v = (double(k)/n)*(idx ? 20 : 1);
		double l = cuttlefish::sRGBToLinear(v), s = cuttlefish::linearToSRGB(v);
		if (std::fabs(l - toLinear(v)) > 1e-9*(1 + l) || std::fabs(s - toSRGB(v)) > 1e-9*(1 + s))
			ctx.fail("transfer", "transfer function at %.12g: %.12g %.12g", v, l, s);
		if (std::fabs(cuttlefish::linearToSRGB(l) - v) > 1e-6*(1 + v))
			ctx.fail("transfer-inverse", "at %.12g", v);
		double w = double(k*7 % n)/n, u = double(k*11 % n)/n;
		if (std::fabs(cuttlefish::toGrayscale(v, w, u) - lum(v, w, u)) > 1e-9*(1 + v))
			ctx.fail("luminance", "at %.12g %.12g %.12g", v, w, u);
		ctx.step(3);
	}
	ctx.state(1000 + idx);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C12";
	spec.rule = "sequences: every sequence of colour space changes, grayscale and pre-multiplication up to the "
		"depth bound from every format, size and colour space, each step compared pixel by pixel with "
		"the defined transfer functions; codes: every code of every channel up to 16 bits; functions: "
		"a lattice of the real line; large and neighbours: every ordered pair of neighbouring colours, every format x 6 sizes up to 65539 x operation";
	spec.assumptions = {"within half a step of normalised formats and the rounding of floating point ones"};
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "sequences";
	a.cases = [n](bool) { return n*sizeCount; };
	a.body = sequenceCase;
	spec.families.push_back(a);
	mc::Family b;
	b.name = "codes";
	b.cases = [n](bool) { return n; };
	b.body = codeCase;
	spec.families.push_back(b);
	mc::Family c;
	c.name = "functions";
	c.cases = [](bool) { return std::size_t(2); };
	c.body = functionCase;
	spec.families.push_back(c);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*largeCount; };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
