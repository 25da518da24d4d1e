// C11: rotations, flips and swizzles are exact permutations, alone and in every sequence.
#include "img.h"

using namespace img;

namespace
{

struct Size { unsigned w, h; };
std::vector<Size> sizes(bool thorough)
{
	std::vector<Size> v;
	unsigned n = thorough ? 9 : 5;
	for (unsigned w = 1; w <= n; ++w)
	{
		for (unsigned h = 1; h <= n; ++h)
			v.push_back({w, h});
	}
	for (Size s : {Size{17, 3}, Size{3, 17}, Size{33, 2}, Size{64, 5}, Size{2, 70}, Size{31, 32}, Size{130, 67}})
		v.push_back(s);
	return v;
}

// Raw texels, row by row from the top.
struct Grid
{
	unsigned w, h;
	std::vector<std::vector<unsigned char>> t;
	std::vector<unsigned char>& at(unsigned x, unsigned y) { return t[y*w + x]; }
	const std::vector<unsigned char>& at(unsigned x, unsigned y) const { return t[y*w + x]; }
};

Grid grid(const Desc& d, const Image& i)
{
	Grid g{i.width(), i.height(), {}};
	for (unsigned y = 0; y < g.h; ++y)
	{
		for (unsigned x = 0; x < g.w; ++x)
		{
			const unsigned char* p = img::at(d, i, x, y);
			g.t.emplace_back(p, p + d.bytes);
		}
	}
	return g;
}

Grid blank(unsigned w, unsigned h)
{
	return Grid{w, h, std::vector<std::vector<unsigned char>>(std::size_t(w)*h)};
}

// Clockwise quarter turns.
Grid turn(const Grid& g, unsigned quarters)
{
	Grid r = g;
	for (unsigned q = 0; q < quarters; ++q)
	{
		Grid n = blank(r.h, r.w);
		for (unsigned y = 0; y < r.h; ++y)
		{
			for (unsigned x = 0; x < r.w; ++x)
				n.at(r.h - 1 - y, x) = r.at(x, y);
		}
		r = n;
	}
	return r;
}

Grid flip(const Grid& g, bool horizontal)
{
	Grid n = blank(g.w, g.h);
	for (unsigned y = 0; y < g.h; ++y)
	{
		for (unsigned x = 0; x < g.w; ++x)
			n.at(horizontal ? g.w - 1 - x : x, horizontal ? y : g.h - 1 - y) = g.at(x, y);
	}
	return n;
}

Grid swizzled(const Desc& d, const Grid& g, const int* ch)
{
	Grid n = g;
	for (auto& t : n.t)
	{
		Px p = decodePixel(d, t.data());
		Px o;
		for (int c = 0; c < 4; ++c)
			o[c] = ch[c] < 4 ? p[ch[c]] : c == 3 ? 1.0 : 0.0;
		std::vector<unsigned char> r(t.size());
		img::write(d, r.data(), o);
		t = r;
	}
	return n;
}

Px tag(const Desc& d, unsigned x, unsigned y)
{
	unsigned id = x*131 + y*17 + 3;
	if (d.kind == Int)
		return Px{{double(int(id % 30000)) - 9000, 0, 0, 1}};
	if (d.kind == UInt)
		return Px{{double(id % 60000), 0, 0, 1}};
	if (d.kind == Flt)
		return Px{{id*0.37 - 20, 1.0/(id + 1), id*1e4, (id % 5)/4.0}};
	return Px{{(id % 256)/255.0, (id*7 % 251)/250.0, (id*11 % 241)/240.0, (id*13 % 239)/238.0}};
}

void compare(mc::Ctx& ctx, const Desc& d, const Image& i, const Grid& g, ColorSpace cs,
	const char* key, const std::string& what)
{
	shape(ctx, i, d.format, g.w, g.h, cs, what);
	for (unsigned y = 0; y < g.h; ++y)
	{
		for (unsigned x = 0; x < g.w; ++x)
		{
			if (memcmp(img::at(d, i, x, y), g.at(x, y).data(), std::size_t(d.bytes)) != 0)
				ctx.fail(mc::fmt("%s:%s", key, d.name), "%s: pixel (%u,%u) is %s, expected %s", what.c_str(), x,
					y, str(decodePixel(d, img::at(d, i, x, y))).c_str(),
					str(decodePixel(d, g.at(x, y).data())).c_str());
		}
	}
}

const char* angleNames[] = {"CW90", "CW180", "CW270", "CCW90", "CCW180", "CCW270"};
const unsigned quarters[] = {1, 2, 3, 3, 2, 1};

// One operation. 0-5 rotate, 6 flipH, 7 flipV, 8.. swizzles.
const int seqSwizzles[][4] = {{2, 1, 0, 3}, {3, 0, 1, 2}, {0, 0, 4, 4}};

void sequenceCase(mc::Ctx& ctx, std::size_t idx)
{
	std::vector<Size> sz = {{1, 1}, {2, 3}, {3, 2}, {4, 1}, {1, 5}, {3, 3}};
	const Desc& d = formats()[idx/sz.size()];
	Size s = sz[idx % sz.size()];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned depth = ctx.thorough() ? 5 : 4;
	Image i = make(d, s.w, s.h, cs, [&](unsigned x, unsigned y) { return tag(d, x, y); });
	Grid g = grid(d, i);
	std::string what = mc::fmt("%s %ux%u:", d.name, s.w, s.h);
	for (unsigned k = 0; k < depth; ++k)
	{
		unsigned op = ctx.choose(11);
		if (op < 6)
		{
			what += std::string(" ") + angleNames[op];
			Image r = i.rotate(Image::RotateAngle(op));
			compare(ctx, d, i, g, cs, "rotate-source", what);
			g = turn(g, quarters[op]);
			i = std::move(r);
		}
		else if (op < 8)
		{
			what += op == 6 ? " flipH" : " flipV";
			if (!(op == 6 ? i.flipHorizontal() : i.flipVertical()))
				ctx.fail("flip-refused", "%s", what.c_str());
			g = flip(g, op == 6);
		}
		else
		{
			const int* w = seqSwizzles[op - 8];
			what += mc::fmt(" swizzle%d%d%d%d", w[0], w[1], w[2], w[3]);
			typedef Image::Channel C;
			if (!i.swizzle(C(w[0]), C(w[1]), C(w[2]), C(w[3])))
				ctx.fail("swizzle-refused", "%s", what.c_str());
			g = swizzled(d, g, w);
		}
		ctx.step();
		compare(ctx, d, i, g, cs, "sequence", what);
	}
	std::uint64_t h = mc::mix(unsigned(d.format), mc::mix(g.w, g.h));
	for (auto& t : g.t)
		h = mc::hashBytes(t.data(), t.size(), h);
	ctx.state(h);
	if (ctx.wantSample())
		ctx.sample(what);
}

void singleBody(mc::Ctx& ctx, std::size_t idx, const Desc& d, Size s)
{
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	std::string base = mc::fmt("%s %ux%u", d.name, s.w, s.h);
	Image src = make(d, s.w, s.h, cs, [&](unsigned x, unsigned y) { return tag(d, x, y); });
	Grid g = grid(d, src);
	for (unsigned a = 0; a < 6; ++a)
	{
		Image r = src.rotate(Image::RotateAngle(a));
		compare(ctx, d, r, turn(g, quarters[a]), cs, "rotate", base + " " + angleNames[a]);
		compare(ctx, d, src, g, cs, "rotate-source", base + " " + angleNames[a]);
		ctx.step();
	}
	for (int f = 0; f < 2; ++f)
	{
		Image i = src;
		if (!(f ? i.flipHorizontal() : i.flipVertical()))
			ctx.fail("flip-refused", "%s", base.c_str());
		compare(ctx, d, i, flip(g, f), cs, f ? "flipHorizontal" : "flipVertical", base);
		compare(ctx, d, src, g, cs, "flip-source", base);
		ctx.step();
	}
	ctx.state(mc::mix(idx, unsigned(cs)));
	if (ctx.wantSample())
		ctx.sample(base);
}

void singleCase(mc::Ctx& ctx, std::size_t idx)
{
	std::vector<Size> sz = sizes(ctx.thorough());
	singleBody(ctx, idx, formats()[idx/sz.size()], sz[idx % sz.size()]);
}

// Images whose sizes are above what fits into bytes, pages and 16 bits.
void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx/largeCount];
	Size s{large[idx % largeCount].w, large[idx % largeCount].h};
	singleBody(ctx, idx + 1000000, d, s);
	Image src = make(d, s.w, s.h, ColorSpace::Linear, [&](unsigned x, unsigned y) { return tag(d, x, y); });
	Grid g = grid(d, src);
	for (const int* w : seqSwizzles)
	{
		typedef Image::Channel C;
		Image i = src;
		if (!i.swizzle(C(w[0]), C(w[1]), C(w[2]), C(w[3])))
			ctx.fail("swizzle-refused", "%s", d.name);
		compare(ctx, d, i, swizzled(d, g, w), ColorSpace::Linear, "swizzle",
			mc::fmt("%s %ux%u swizzle %d%d%d%d", d.name, s.w, s.h, w[0], w[1], w[2], w[3]));
		ctx.step();
	}
}

// Every swizzle.
void swizzleCase(mc::Ctx& ctx, std::size_t idx)
{
	const Desc& d = formats()[idx];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	Size s = Size{2, 1};
	Image src;
	if (unsigned k = ctx.choose(3))
	{
		src = neighbourImage(d, cs, k == 1 ? 2 : 0); // every ordered pair of neighbouring colours
		s = Size{src.width(), src.height()};
	}
	else
		src = make(d, s.w, s.h, cs, [&](unsigned x, unsigned y) { return tag(d, x, y); });
	Grid g = grid(d, src);
	for (int k = 0; k < 625; ++k)
	{
		int w[4] = {k % 5, k/5 % 5, k/25 % 5, k/125};
		typedef Image::Channel C;
		Image i = src;
		if (!i.swizzle(C(w[0]), C(w[1]), C(w[2]), C(w[3])))
			ctx.fail("swizzle-refused", "%s", d.name);
		compare(ctx, d, i, swizzled(d, g, w), cs, "swizzle",
			mc::fmt("%s %ux%u swizzle %d%d%d%d", d.name, s.w, s.h, w[0], w[1], w[2], w[3]));
		ctx.step();
	}
	Image inv;
	if (inv.swizzle(Image::Channel::Red, Image::Channel::Red, Image::Channel::Red, Image::Channel::Red) ||
		inv.flipHorizontal() || inv.flipVertical() || inv.rotate(Image::RotateAngle::CW90).isValid())
		ctx.fail("invalid-image", "operation on an invalid image succeeded");
	ctx.state(mc::mix(idx, s.w*2 + unsigned(cs)));
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C11";
	spec.rule = "single: every format x size x colour space x rotation and flip; swizzles: every format x all "
		"625 channel selections; sequences: every sequence of rotations, flips and swizzles up to the "
		"depth bound (4, thorough 5) from every small image, compared texel by texel with the composed "
		"permutation; large: every format x 6 sizes up to 65539 x rotation, flip and three swizzles";
	std::size_t n = formats().size();
	mc::Family a;
	a.name = "single";
	a.cases = [n](bool th) { return n*sizes(th).size(); };
	a.body = singleCase;
	spec.families.push_back(a);
	mc::Family b;
	b.name = "swizzles";
	b.cases = [n](bool) { return n; };
	b.body = swizzleCase;
	spec.families.push_back(b);
	mc::Family c;
	c.name = "sequences";
	c.cases = [n](bool) { return n*6; };
	c.body = sequenceCase;
	spec.families.push_back(c);
	mc::Family l;
	l.name = "large";
	l.cases = [n](bool) { return n*largeCount; };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
