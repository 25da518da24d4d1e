// C22: value range adjustment.
#include "img.h"
#include "tex.h"

using namespace img;
using cuttlefish::Texture;
typedef Texture::Type TT;

namespace
{

const TT types[] = {TT::UNorm, TT::SNorm, TT::UInt, TT::Int, TT::UFloat, TT::Float};

bool norm(IF f)
{
	const Desc* d = find(f);
	return d && d->kind == Norm;
}

void adjust(mc::Ctx& ctx, const Desc& d, TT type, unsigned o, ColorSpace cs, unsigned s, unsigned w, unsigned h)
{
	std::size_t n = formats().size();
	IF orig = o < n ? formats()[o].format : IF::Invalid;
	IF eff = orig == IF::Invalid ? d.format : orig;
	std::vector<double> v = lattice(d, ctx.thorough());
	Image i;
	if (w) // otherwise every ordered pair of neighbouring colours
	{
		i = make(d, w, h, cs, [&](unsigned x, unsigned y) {
			std::size_t k = x + std::size_t(y)*w;
			return Px{{v[k % v.size()], v[(k*3 + 1) % v.size()], v[(k*5 + 2) % v.size()],
				v[(k*7 + 3) % v.size()]}}; });
	}
	else
	{
		i = neighbourImage(d, cs, h);
		w = i.width();
		h = i.height();
	}
	std::vector<Px> before;
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
			before.push_back(img::read(d, i, x, y));
	}
	std::vector<unsigned char> raw = bytes(d, i);
	Image copy = i;
	std::string what = mc::fmt("%s %ux%u %s, original %s, type %s", d.name, w, h, csName(cs),
		find(eff)->name, tex::typeName(type));
	if (o == n + 1)
		Texture::adjustImageValueRange(i, type);
	else
		Texture::adjustImageValueRange(i, type, orig);
	ctx.step();
	if (bytes(d, copy) != raw)
		ctx.fail("copy-changed", "%s", what.c_str());
	bool changes = (type == TT::SNorm || type == TT::UInt || type == TT::Int) && norm(eff) &&
		d.kind != Int && d.kind != UInt;
	if (!changes)
	{
		shape(ctx, i, d.format, w, h, cs, what);
		if (bytes(d, i) != raw)
			ctx.fail("unchanged", "%s: the image changed", what.c_str());
		ctx.state(mc::hashStr(what));
		return;
	}
	IF want = d.single() ? IF::Float : d.alpha() ? IF::RGBAF : IF::RGBF;
	shape(ctx, i, want, w, h, cs, what);
	const Desc& r = *find(want);
	const Desc& e = *find(eff);
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			Px p = before[x + y*w], q = img::read(r, i, x, y);
			for (const Ch& c : r.chans)
			{
				double val = p[c.ch], full = 2, offset = -1;
				if (type != TT::SNorm)
				{
					int bits = 0;
					for (const Ch& ec : e.chans)
					{
						if (ec.ch == c.ch)
							bits = ec.bits;
					}
					// The other formats have the same depth in every channel; alpha of 16-bit RGB
					// formats has none.
					if (!bits && e.chans.size() == 3 && e.bytes == 2)
						continue;
					if (!bits)
						bits = e.chans[0].bits;
					full = std::ldexp(1.0, bits) - 1;
					offset = type == TT::Int ? -std::ldexp(1.0, bits - 1) : 0;
				}
				double expect = val*full + offset;
				double tol = (std::fabs(val) + 1)*full*(cs == ColorSpace::sRGB ? 2e-6 : 1e-6);
				// Integers are whole.
				if (type != TT::SNorm)
				{
					tol += 0.5;
					if (q[c.ch] != std::floor(q[c.ch]))
						ctx.fail("fraction", "%s: (%u,%u) channel %d became %.9g", what.c_str(), x, y, c.ch,
							q[c.ch]);
				}
				if (!(std::fabs(q[c.ch] - expect) <= tol))
					ctx.fail(mc::fmt("value:%s", tex::typeName(type)), "%s: (%u,%u) channel %d: %.9g became %.9g, expected %.9g",
						what.c_str(), x, y, c.ch, val, q[c.ch], expect);
			}
		}
	}
	ctx.state(mc::hashStr(what, s));
	if (ctx.wantSample())
		ctx.sample(what);
}

void adjustCase(mc::Ctx& ctx, std::size_t idx)
{
	std::size_t n = formats().size();
	unsigned o = ctx.choose(unsigned(n) + 2); // n: Invalid, n+1: default argument
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	static const unsigned sz[][2] = {{1, 1}, {5, 3}, {2, 7}, {33, 2}, {64, 9}, {0, 0}, {0, 1}, {0, 2}};
	unsigned s = ctx.choose(8);
	adjust(ctx, formats()[idx % n], types[idx/n % 6], o, cs, s, sz[s][0], sz[s][1]);
}

// Images whose sizes are above what fits into bytes, pages and 16 bits.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	std::size_t n = formats().size();
	unsigned s = unsigned(idx/n/6);
	unsigned o = unsigned(n);
	if (ctx.choose(2))
	{
		for (o = 0; formats()[o].format != IF::RGBA16; ++o) ;
	}
	adjust(ctx, formats()[idx % n], types[idx/n % 6], o, s % 2 ? ColorSpace::sRGB : ColorSpace::Linear, 10 + s,
		large[s].w, large[s].h);
}

// From every integer code of an image to the codes in the converted texture.
void endToEndCase(mc::Ctx& ctx, std::size_t idx)
{
	const IF fs[] = {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::RGBA8, IF::RGBA16};
	const Desc& d = *find(fs[idx/3]);
	TT type = types[1 + idx % 3];
	int bits = d.chans[0].bits;
	bool viaFloat = ctx.choose(2);
	std::size_t n = std::size_t(1) << bits;
	unsigned w = 256, h = unsigned(n/256);
	Image i = make(d, w, h, ColorSpace::Linear, [&](unsigned x, unsigned y) {
		double m = double(n - 1);
		std::size_t k = x + y*256;
		return Px{{double(k)/m, double(k*3 % n)/m, double(n - 1 - k)/m, double((k*5 + 1) % n)/m}}; });
	Image a = viaFloat ? i.convert(IF::RGBAF) : i;
	Texture::adjustImageValueRange(a, type, d.format);
	Texture t(Texture::Dimension::Dim2D, w, h);
	Texture::Format f = bits == 8 ? Texture::Format::R8G8B8A8 : Texture::Format::R16G16B16A16;
	if (!t.setImage(a) || !t.convert(f, type, Texture::Quality::Normal, Texture::Alpha::Standard,
		Texture::ColorMask(), 1))
		ctx.fail("convert", "%s", d.name);
	const unsigned char* p = static_cast<const unsigned char*>(t.data());
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			for (const Ch& c : d.chans)
			{
				std::int64_t code = std::int64_t(img::raw(d, img::at(d, i, x, y), c));
				std::size_t at = (std::size_t(y)*w + x)*4 + unsigned(c.ch);
				std::int64_t got = bits == 8 ? p[at] : std::int64_t(p[at*2] | p[at*2 + 1] << 8);
				if (type != TT::UInt)
					got = bits == 8 ? std::int8_t(got) : std::int16_t(got);
				std::int64_t half = std::int64_t(n/2);
				bool ok;
				if (type == TT::UInt)
					ok = got == code;
				else if (type == TT::Int)
					ok = got == code - half;
				else // [0, max] onto [-max', max'].
					ok = std::fabs(double(got) - (2.0*double(code)/double(n - 1) - 1)*double(half - 1)) <= 0.51;
				if (!ok)
					ctx.fail(mc::fmt("codes:%s", tex::typeName(type)), "%s code %lld became %lld", d.name,
						(long long)code, (long long)got);
			}
		}
	}
	ctx.step(n);
	ctx.state(mc::mix(idx, viaFloat));
	Image inv;
	Texture::adjustImageValueRange(inv, type);
	if (inv.isValid())
		ctx.fail("invalid-image", "became valid");
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C22";
	spec.rule = "adjust: every image format x original format (also none given) x type x colour space x size, and every ordered pair of neighbouring colours; "
		"codes: every 8- and 16-bit code through adjustment and conversion to the integer texture; "
		"large: every image format x type at 6 sizes up to 65539";
	spec.assumptions = {"alpha has no prescribed integer range when the original is a 16-bit RGB format"};
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "adjust";
	a.cases = [n](bool) { return n*6; };
	a.body = adjustCase;
	spec.families.push_back(a);
	mc::Family b;
	b.name = "codes";
	b.cases = [](bool) { return std::size_t(18); };
	b.body = endToEndCase;
	spec.families.push_back(b);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*6*largeCount; };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
