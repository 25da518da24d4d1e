// C18: resizing.
#include "img.h"

using namespace img;

namespace
{

typedef Image::ResizeFilter RF;
const char* filterNames[] = {"Box", "Linear", "Cubic", "CatmullRom", "BSpline"};

const unsigned quickDims[] = {1, 2, 3, 4, 5, 6, 8, 13};
const unsigned thoroughDims[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 24, 33};
std::vector<unsigned> dims(bool th)
{
	return th ? std::vector<unsigned>(thoroughDims, thoroughDims + 15) :
		std::vector<unsigned>(quickDims, quickDims + 8);
}

struct Grid
{
	unsigned w, h;
	std::vector<Px> p;
	Px& at(unsigned x, unsigned y) { return p[y*w + x]; }
	const Px& at(unsigned x, unsigned y) const { return p[y*w + x]; }
};

Grid grid(const Desc& d, const Image& i)
{
	Grid g{i.width(), i.height(), {}};
	for (unsigned y = 0; y < g.h; ++y)
	{
		for (unsigned x = 0; x < g.w; ++x)
			g.p.push_back(img::read(d, i, x, y));
	}
	return g;
}

struct Weights { unsigned first; std::vector<double> w; };

// Weights of the source samples for one destination sample.
Weights weights(unsigned src, unsigned dst, unsigned x, RF f)
{
	Weights r{0, {}};
	double inv = double(src)/dst, scale = std::max(inv, 1.0), c = (x + 0.5)*inv, total = 0;
	// Both filters reach at most one source pixel (or one target pixel's width) either way.
	double from = std::floor(c - scale - 2), to = std::ceil(c + scale + 2);
	r.first = from <= 0 ? 0 : unsigned(from);
	unsigned end = to >= src ? src : unsigned(to);
	for (unsigned i = r.first; i < end; ++i)
	{
		double t = std::fabs(i + 0.5 - c)/scale;
		r.w.push_back(f == RF::Box ? (t <= 0.5 ? 1 : 0) : std::max(1 - t, 0.0));
		total += r.w.back();
	}
	for (double& v : r.w)
		v /= total;
	return r;
}

// Reference, on linear values.
Grid reference(const Grid& s, unsigned w, unsigned h, RF f)
{
	Grid t{w, s.h, std::vector<Px>(std::size_t(w)*s.h)};
	for (unsigned x = 0; x < w; ++x)
	{
		Weights k = s.w == w ? Weights() : weights(s.w, w, x, f);
		for (unsigned y = 0; y < s.h; ++y)
		{
			Px o{{0, 0, 0, 0}};
			if (k.w.empty())
				o = s.at(x, y);
			else
			{
				for (unsigned i = 0; i < k.w.size(); ++i)
				{
					for (int c = 0; c < 4; ++c)
						o[c] += k.w[i]*s.at(k.first + i, y)[c];
				}
			}
			t.at(x, y) = o;
		}
	}
	Grid r{w, h, std::vector<Px>(std::size_t(w)*h)};
	for (unsigned y = 0; y < h; ++y)
	{
		Weights k = s.h == h ? Weights() : weights(s.h, h, y, f);
		for (unsigned x = 0; x < w; ++x)
		{
			Px o{{0, 0, 0, 0}};
			if (k.w.empty())
				o = t.at(x, y);
			else
			{
				for (unsigned i = 0; i < k.w.size(); ++i)
				{
					for (int c = 0; c < 4; ++c)
						o[c] += k.w[i]*t.at(x, k.first + i)[c];
				}
			}
			r.at(x, y) = o;
		}
	}
	return r;
}

Grid linear(const Grid& g, ColorSpace cs)
{
	Grid r = g;
	if (cs == ColorSpace::sRGB)
	{
		for (Px& p : r.p)
		{
			for (int c = 0; c < 3; ++c)
				p[c] = toLinear(p[c]);
		}
	}
	return r;
}

double signedSRGB(double v) { return v; }

// Is g within 'steps' of the linear value v, once back in the colour space?
bool near(const Desc& d, const Ch& c, ColorSpace cs, double g, double v, double steps)
{
	double st = d.kind == Flt ? std::max(std::fabs(v), 1.0)*(c.bits == 32 ? 1e-6 : 1e-6) :
		stepSize(d, c, v);
	double lo = v - st*steps, hi = v + st*steps;
	if (cs == ColorSpace::sRGB && c.ch < 3)
	{
		lo = toSRGB(lo);
		hi = toSRGB(hi);
		double half = d.kind == Flt ? 1e-6 : st*0.51;
		lo -= half;
		hi += half;
	}
	if (d.kind == Norm)
	{
		lo = std::min(lo, 1.0);
		hi = std::max(hi, 0.0);
	}
	return g >= lo - 1e-12 && g <= hi + 1e-12;
}

bool integral(unsigned a, unsigned b) { return a % b == 0; }

Px pattern(const Desc& d, unsigned kind, unsigned x, unsigned y, unsigned w, unsigned h)
{
	Px p;
	switch (kind)
	{
		case 0: // constants
			p = Px{{0.7, 0.35, 1, 0.1}};
			break;
		case 1:
			p = Px{{1, 0, 0.2, 1}};
			break;
		case 2: // irregular
		{
			unsigned k = x*7 + y*5;
			p = Px{{(k % 11)/11.0, ((k*3 + 1) % 13)/12.0, ((x*5 + y*9) % 7)/6.0, ((k + 2) % 5)/4.0}};
			break;
		}
		case 3: // checks
			p = Px{{double((x + y) & 1), double(x & 1), double(y & 1), double((x + y + 1) & 1)}};
			break;
		case 4: // one bright corner
			p = (x + 1 == w && y == 0) ? Px{{1, 1, 1, 1}} : Px{{0, 0, 0, 0}};
			break;
		default: // gradients
			p = Px{{(x + 0.5)/w, (y + 0.5)/h, 1 - (x + 0.5)/w, (x + y + 1.0)/(w + h)}};
	}
	if (d.kind == Int || d.kind == UInt)
	{
		for (double& v : p.c)
			v = std::round(v*1000 - (d.kind == Int ? 200 : 0));
	}
	else if (d.kind == Flt)
	{
		for (double& v : p.c)
			v = v*2 ;
	}
	return p;
}

Image transpose(const Desc& d, const Image& i)
{
	return make(d, i.height(), i.width(), i.colorSpace(), [&](unsigned x, unsigned y) {
		return img::read(d, i, y, x); });
}

Image mirrored(const Desc& d, const Image& i, bool horizontal)
{
	return make(d, i.width(), i.height(), i.colorSpace(), [&](unsigned x, unsigned y) {
		return img::read(d, i, horizontal ? i.width() - 1 - x : x, horizontal ? y : i.height() - 1 - y); });
}

Image exchanged(const Desc& d, const Image& i)
{
	return make(d, i.width(), i.height(), i.colorSpace(), [&](unsigned x, unsigned y) {
		Px p = img::read(d, i, x, y);
		return Px{{p[1], p[2], p[0], p[3]}}; });
}

bool fallbackOnly(const Desc& d)
{
	return d.format == IF::Int16 || d.format == IF::Int32 || d.format == IF::UInt32 ||
		d.format == IF::Double || d.format == IF::Complex;
}

// Compares two results that should be equal up to the rounding of each of them.
void same(mc::Ctx& ctx, const Desc& d, const Grid& a, const Grid& b, ColorSpace cs, double steps,
	const char* key, const std::string& what)
{
	if (a.w != b.w || a.h != b.h)
		ctx.fail(key, "%s: sizes differ", what.c_str());
	for (std::size_t k = 0; k < a.p.size(); ++k)
	{
		for (const Ch& c : d.chans)
		{
			double u = a.p[k][c.ch], v = b.p[k][c.ch];
			double lv = cs == ColorSpace::sRGB && c.ch < 3 ? toLinear(v) : v;
			double extra = cs == ColorSpace::sRGB ? stepSize(d, c, v) : 0;
			if (!near(d, c, cs, u, lv, steps) && !(d.kind == Norm && std::fabs(u - v) <= extra))
				ctx.fail(mc::fmt("%s:%s", key, d.name), "%s: pixel %zu channel %d: %.9g and %.9g", what.c_str(), k,
					c.ch, u, v);
		}
	}
}

struct Input
{
	const Desc& d;
	const Image& src;
	const Grid &sg, &lin;
	const std::vector<unsigned char>& before;
	ColorSpace cs;
	RF f;
	unsigned kind;
};

// Resizes to one size and checks every law.
void checkOne(mc::Ctx& ctx, const Input& in, unsigned w2, unsigned h2, bool symmetries)
{
	const Desc& d = in.d;
	const Image& src = in.src;
	const Grid &sg = in.sg, &lin = in.lin;
	const std::vector<unsigned char>& before = in.before;
	const ColorSpace cs = in.cs;
	const RF f = in.f;
	const unsigned kind = in.kind, w = src.width(), h = src.height();
	// Values stored as sRGB in integer formats have no meaningful linear counterpart.
	bool values = !((d.kind == Int || d.kind == UInt) && cs == ColorSpace::sRGB);
	std::string what = mc::fmt("%s %s %s pattern %u %ux%u -> %ux%u", d.name, filterNames[int(f)],
		csName(cs), kind, w, h, w2, h2);
	Image r = src.resize(w2, h2, f);
	ctx.step();
	if (bytes(d, src) != before || src.colorSpace() != cs)
		ctx.fail("source-changed", "%s", what.c_str());
	if (w2 == w && h2 == h)
	{
		shape(ctx, r, d.format, w, h, cs, what);
		if (bytes(d, r) != before)
			ctx.fail(mc::fmt("identity:%s", d.name), "%s", what.c_str());
		return;
	}
	if (fallbackOnly(d) && f != RF::Box && f != RF::Linear)
	{
		if (r.isValid())
			ctx.fail("unsupported", "%s: got a valid image", what.c_str());
		return;
	}
	shape(ctx, r, d.format, w2, h2, cs, what);
	if (!values)
		return;
	Grid g = grid(d, r);
	// Steps of rounding: FreeImage filters one direction after the other, and 16-bit RGB
	// formats and sRGB images pass through another rounding.
	double steps = d.bytes == 2 && d.chans.size() == 3 ? 2.1 : d.kind == Norm ? 1.6 : 1.1;
	if (cs == ColorSpace::sRGB && d.kind == Norm)
		steps += 0.55;
	if (kind < 2)
	{
		Grid want{w2, h2, std::vector<Px>(std::size_t(w2)*h2, sg.at(0, 0))};
		same(ctx, d, g, want, cs, cs == ColorSpace::sRGB ? steps : d.kind == Flt ? 1 : 0.1, "constant", what);
	}
	if (f == RF::Box || f == RF::Linear)
	{
		for (const Ch& c : d.chans)
		{
			double lo = 1e300, hi = -1e300;
			for (const Px& p : lin.p)
			{
				lo = std::min(lo, p[c.ch]);
				hi = std::max(hi, p[c.ch]);
			}
			for (const Px& p : g.p)
			{
				if (!(p[c.ch] >= lo) && !near(d, c, cs, p[c.ch], lo, steps))
					ctx.fail(mc::fmt("range:%s", d.name), "%s: %.9g is below %.9g", what.c_str(), p[c.ch], lo);
				double top = cs == ColorSpace::sRGB && c.ch < 3 ? toSRGB(hi) : hi;
				if (!(p[c.ch] <= top) && !near(d, c, cs, p[c.ch], hi, steps))
					ctx.fail(mc::fmt("range:%s", d.name), "%s: %.9g is above %.9g", what.c_str(), p[c.ch], top);
			}
		}
	}
	bool reduceInt = integral(w, w2) && integral(h, h2);
	bool enlargeInt = (integral(w, w2) || integral(w2, w)) && (integral(h, h2) || integral(h2, h));
	if ((f == RF::Box && enlargeInt) || f == RF::Linear)
	{
		Grid ref = reference(lin, w2, h2, f);
		for (std::size_t k = 0; k < g.p.size(); ++k)
		{
			for (const Ch& c : d.chans)
			{
				if (!near(d, c, cs, g.p[k][c.ch], ref.p[k][c.ch], steps))
					ctx.fail(mc::fmt("%s:%s", f == RF::Box ? (reduceInt ? "average" : "replicate") :
						"linear", d.name), "%s: pixel (%zu,%zu) channel %d is %.9g, expected linear %.9g",
						what.c_str(), k % w2, k/w2, c.ch, g.p[k][c.ch], ref.p[k][c.ch]);
			}
		}
	}
	// Symmetries.
	if (symmetries && (f != RF::Box || enlargeInt))
	{
		double two = steps*2;
		for (int hor = 0; hor < 2; ++hor)
		{
			Image m = mirrored(d, mirrored(d, src, hor).resize(w2, h2, f), hor);
			same(ctx, d, g, grid(d, m), cs, two, "mirror", what);
		}
		// Overshoot is clamped between the two directions, so their order shows.
		bool clamps = (f == RF::Cubic || f == RF::CatmullRom) && w != w2 && h != h2;
		Image t = transpose(d, transpose(d, src).resize(h2, w2, f));
		if (!clamps || d.kind == Flt)
			same(ctx, d, g, grid(d, t), cs, two, "transpose", what);
		if (d.chans.size() >= 3 && d.bytes != 2)
		{
			Image e = exchanged(d, src).resize(w2, h2, f);
			same(ctx, d, grid(d, exchanged(d, r)), grid(d, e), cs, two, "exchange", what);
		}
	}
}

void resizeCase(mc::Ctx& ctx, std::size_t idx)
{
	std::vector<unsigned> dm = dims(ctx.thorough());
	std::size_t n = dm.size();
	const Desc& d = formats()[idx/(n*n)];
	unsigned w = dm[idx/n % n], h = dm[idx % n];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	RF f = RF(ctx.choose(5));
	unsigned kind = ctx.choose(6);
	Image src = make(d, w, h, cs, [&](unsigned x, unsigned y) { return pattern(d, kind, x, y, w, h); });
	Grid sg = grid(d, src);
	Grid lin = linear(sg, cs);
	std::vector<unsigned char> before = bytes(d, src);
	Input in{d, src, sg, lin, before, cs, f, kind};
	for (unsigned w2 : dm)
	{
		for (unsigned h2 : dm)
		{
			checkOne(ctx, in, w2, h2, true);
		}
	}
	for (auto& z : {std::pair<unsigned, unsigned>{0, 0}, {0, 2}, {2, 0}, {0, h}, {w, 0}})
	{
		if (src.resize(z.first, z.second, f).isValid())
			ctx.fail("zero", "%s resized to %ux%u", d.name, z.first, z.second);
	}
	Image inv;
	if (inv.resize(2, 2, f).isValid())
		ctx.fail("invalid-image", "resized an invalid image");
	ctx.state(mc::mix(idx, unsigned(f)*16 + unsigned(cs)*8 + kind));
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s %ux%u %s %s pattern %u to every size", d.name, w, h, filterNames[int(f)],
			csName(cs), kind));
}

// Sizes no image can have: refused, never an image of another size.
void hugeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx];
	RF f = RF(ctx.choose(5));
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned w = 1 + ctx.choose(3), h = 1 + ctx.choose(3);
	Image src = make(d, w, h, cs, [&](unsigned x, unsigned y) { return pattern(d, 2, x, y, w, h); });
	std::vector<unsigned char> before = bytes(d, src);
	std::vector<unsigned> sizes;
	for (unsigned k = 0; k < 10; ++k)
	{
		sizes.push_back(0x80000000u + k);
		sizes.push_back(0xFFFFFFFFu - k);
	}
	for (unsigned k = 8; k < 31; ++k)
		sizes.push_back(0x80000000u | (1u << k));
	for (unsigned huge : sizes)
	{
		for (unsigned o : {1u, 2u, 3u, huge})
		{
			for (int which = 0; which < (o == huge ? 1 : 2); ++which)
			{
				unsigned w2 = which ? o : huge, h2 = which ? huge : o;
				std::string what = mc::fmt("%s %s %s %ux%u -> %ux%u", d.name, filterNames[int(f)], csName(cs), w, h,
					w2, h2);
				Image r = src.resize(w2, h2, f);
				ctx.step();
				if (r.isValid())
					shape(ctx, r, d.format, w2, h2, cs, what);
				if (bytes(d, src) != before || src.colorSpace() != cs)
					ctx.fail("source-changed", "%s", what.c_str());
				Image i(d.format, w2, h2, cs);
				if (i.isValid())
					shape(ctx, i, d.format, w2, h2, cs, mc::fmt("new %s image of %ux%u", d.name, w2, h2));
			}
		}
	}
	ctx.state(mc::mix(idx, unsigned(f)*2 + unsigned(cs)));
}

// Large sources and targets.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	static const struct { unsigned w, h, w2, h2; } jobs[] = {{4099, 3, 7, 3}, {3, 4099, 3, 7}, {7, 3, 4099, 3},
		{3, 7, 3, 4099}, {4099, 2, 4098, 5}, {65539, 1, 3, 1}, {1, 65539, 1, 3}, {2, 1, 65538, 1}, {1, 2, 1, 65538},
		{257, 259, 128, 129}, {130, 131, 260, 262}, {512, 384, 256, 192}, {300, 258, 1, 1}, {1, 1, 300, 258},
		{1023, 64, 341, 16}};
	const std::size_t count = sizeof(jobs)/sizeof(*jobs);
	const Desc& d = formats()[idx/count];
	auto& j = jobs[idx % count];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	RF f = RF(ctx.choose(5));
	static const unsigned kinds[] = {0, 2, 5};
	unsigned kind = kinds[ctx.choose(ctx.thorough() ? 3 : 2)];
	Image src = make(d, j.w, j.h, cs, [&](unsigned x, unsigned y) { return pattern(d, kind, x, y, j.w, j.h); });
	Grid sg = grid(d, src);
	Grid lin = linear(sg, cs);
	std::vector<unsigned char> before = bytes(d, src);
	Input in{d, src, sg, lin, before, cs, f, kind};
	checkOne(ctx, in, j.w2, j.h2, ctx.thorough());
	ctx.state(mc::mix(idx, 1000 + unsigned(f)*16 + unsigned(cs)*8 + kind));
}

// One colour of every code: it stays that colour.
void constantCase(mc::Ctx& ctx, std::size_t idx)
{
	static const struct { unsigned w, h, w2, h2; } jobs[] = {{3, 2, 6, 5}, {7, 5, 2, 3}, {2, 2, 5, 1}, {1, 1, 9, 2},
		{2, 9, 2, 4}, {8, 8, 4, 4}};
	const Desc& d = formats()[idx/6];
	auto& j = jobs[idx % 6];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	RF f = RF(ctx.choose(5));
	int bits = 0;
	for (const Ch& c : d.chans)
		bits = std::max(bits, c.bits);
	std::vector<double> values;
	if (d.kind == Norm)
	{
		unsigned n = 1u << bits, step = bits <= 8 ? 1 : ctx.thorough() ? 61 : 509;
		for (unsigned k = 0; k < n; k += step)
			values.push_back(k/(n - 1.0));
		values.push_back(1);
	}
	else
	{
		for (double v : {0.0, 1.0, 2.0, 3.0, 7.0, 100.0, 127.0, 128.0, 255.0, 256.0, 1000.0, 12345.0, 32766.0, 32767.0})
			values.push_back(v);
		if (d.kind != UInt)
		{
			for (double v : {-1.0, -2.0, -129.0, -30001.0, -32767.0, -32768.0})
				values.push_back(v);
		}
		if (d.kind == Flt)
		{
			for (double v : {0.5, 0.001, 1e-6, 0.7, -0.3, 1e6, -65504.0})
				values.push_back(v);
		}
		if (d.kind == UInt)
			values.insert(values.end(), {32768.0, 40000.0, 65534.0, 65535.0});
		if (bits == 32 && d.kind != Flt)
			values.insert(values.end(), {1e6, 16777215.0, 16777217.0, 2147483646.0, 2147483647.0});
	}
	std::size_t n = values.size();
	for (std::size_t k = 0; k < n; ++k)
	{
		Px p{{values[k], values[(k*3 + 1) % n], values[n - 1 - k], values[(k*7 + 2) % n]}};
		if (d.kind == Norm)
		{
			for (const Ch& c : d.chans)
			{
				double m = std::ldexp(1.0, c.bits) - 1;
				p[c.ch] = std::round(p[c.ch]*m)/m;
			}
		}
		Image src = make(d, j.w, j.h, cs, [&](unsigned, unsigned) { return p; });
		Grid sg = grid(d, src);
		Grid lin = linear(sg, cs);
		std::vector<unsigned char> before = bytes(d, src);
		Input in{d, src, sg, lin, before, cs, f, 0};
		checkOne(ctx, in, j.w2, j.h2, false);
	}
	ctx.state(mc::mix(idx, 5000 + unsigned(f)*2 + unsigned(cs)));
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C18";
	spec.rule = "every format x source size x target size (each from a lattice of dimensions) x filter x colour "
		"space x six pixel patterns; laws checked on each: shape, identity, constants, range, exact box "
		"averages and replication, the tent filter's weights, mirroring, transposition, channel exchange; "
		"huge: every format x filter with targets above the largest int; large: 15 source and target sizes up to 65539; "
		"constants: every format x filter x 6 source and target sizes x every code (of 16-bit and wider formats a lattice)";
	spec.assumptions = {"a box filter whose edge falls on a pixel centre may take either neighbour",
		"integer formats tagged sRGB: only the shape is checked"};
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "resize";
	a.cases = [n](bool th) { return n*dims(th).size()*dims(th).size(); };
	a.body = resizeCase;
	spec.families.push_back(a);
	mc::Family b;
	b.name = "huge";
	b.cases = [n](bool) { return n; };
	b.body = hugeCase;
	spec.families.push_back(b);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*15; };
	l.body = largeCase;
	spec.families.push_back(l);
	mc::Family c;
	c.name = "constants";
	c.cases = [n](bool) { return n*6; };
	c.body = constantCase;
	spec.families.push_back(c);
	return mc::run(argc, argv, spec);
}
