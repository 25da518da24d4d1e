// C09: mipmap generation with every placement of custom images, against the reference chain.
#include "texmodel.h"
using namespace tmod;

namespace
{

const char* filterNames[] = {"box", "linear", "cubic", "catmull-rom", "b-spline"};

struct Config { D dim; unsigned w, h, d; };
std::string str(const Config& c)
{
	return mc::fmt("%s %ux%ux%u", dimName(c.dim), c.w, c.h, c.d);
}

// A pixel pattern that tells every image apart.
float pattern(unsigned id, unsigned x, unsigned y, unsigned c)
{
	return float((id*37 + x*29 + y*53 + c*71 + x*y*13) % 101)/100.0f;
}

Image source(unsigned id, unsigned w, unsigned h, ColorSpace cs, Image::Format f)
{
	Image i = makeImage(w, h, cs, [&](unsigned x, unsigned y, float* p) {
		for (unsigned c = 0; c < 4; ++c)
			p[c] = pattern(id, x, y, c);
	});
	return f == Image::Format::RGBAF ? i : i.convert(f);
}

struct Place { unsigned f, m, z; };
struct Setup
{
	Texture t;
	Model m;
};

void fill(mc::Ctx& ctx, Setup& s, const Config& c, unsigned mips, ColorSpace cs, bool allLevels)
{
	s.t.initialize(c.dim, c.w, c.h, c.d, mips, cs);
	s.m.initialize(c.dim, c.w, c.h, c.d, mips, cs);
	unsigned id = 1;
	for (unsigned m = 0; m < (allLevels ? s.m.mips : 1); ++m)
	{
		for (unsigned z = 0; z < s.m.depth(m); ++z)
		{
			for (unsigned f = 0; f < s.m.faces; ++f, ++id)
			{
				Image i = source(id, s.m.width(m), s.m.height(m), cs, Image::Format::RGBAF);
				if (!s.t.setImage(i, Face(f), m, z) || !s.m.setImage(i, int(f), m, z))
					ctx.fail("setImage", "%s", str(c).c_str());
			}
		}
	}
}

struct CustomSpec { Place at; MR rep; unsigned kind; };

// kinds of custom images
struct Kind { const char* name; Image::Format format; bool exact; bool otherCs; };
const Kind kinds[] = {
	{"exact", Image::Format::RGBAF, true, false},
	{"larger 8-bit other colour space", Image::Format::RGBA8, false, true},
	{"exact other colour space", Image::Format::RGBAF, true, true},
	{"larger float RGB", Image::Format::RGBF, false, false},
	{"exact gray", Image::Format::Gray8, true, false},
	{"larger 16-bit gray", Image::Format::Gray16, false, false},
	{"larger 565", Image::Format::RGB565, false, false},
};
const unsigned kindCount = sizeof(kinds)/sizeof(*kinds);

void run(mc::Ctx& ctx, const Config& c, ColorSpace cs, RF filter, unsigned levels, unsigned initMips,
	bool allLevels, const std::vector<CustomSpec>& specs, const char* key)
{
	Setup s;
	fill(ctx, s, c, initMips, cs, allLevels);
	std::vector<Image> images;
	images.reserve(specs.size());
	std::vector<Custom> customs;
	Texture::CustomMipImages map;
	std::string what = mc::fmt("%s %s, %s filter, %d levels", str(c).c_str(), img::csName(cs),
		filterNames[int(filter)], int(levels));
	unsigned n = 0;
	for (const CustomSpec& x : specs)
	{
		const Kind& k = kinds[x.kind];
		unsigned mw = x.at.m < 32 ? std::max(c.w >> x.at.m, 1u) : 1,
			mh = x.at.m < 32 ? std::max(c.h >> x.at.m, 1u) : 1;
		ColorSpace ics = k.otherCs ? (cs == ColorSpace::Linear ? ColorSpace::sRGB : ColorSpace::Linear)
			: cs;
		images.push_back(source(40 + 7*n++, k.exact ? mw : mw*2 + 1, k.exact ? mh : mh + 2, ics,
			k.format));
		customs.push_back({Face(x.at.f), x.at.m, x.at.z, &images.back(), x.rep});
		Texture::ImageIndex index(Face(x.at.f), x.at.m, x.at.z);
		// Both ways of giving a custom image: by reference and by value.
		if (n % 2)
			map.emplace(index, Texture::CustomMipImage(images.back(), x.rep));
		else
			map.emplace(index, Texture::CustomMipImage(Image(images.back()), x.rep));
		what += mc::fmt(", custom (%s, %s) at level %u depth %u face %u", k.name,
			x.rep == MR::Once ? "once" : "continue", x.at.m, x.at.z, x.at.f);
	}
	Model before = s.m;
	bool want = s.m.generateMipmaps(filter, levels, customs);
	bool have = s.t.generateMipmaps(filter, levels, map);
	ctx.step();
	if (ctx.verbose())
		ctx.note("%s: %s", what.c_str(), have ? "accepted" : "refused");
	if (want != have)
		ctx.fail(std::string(key) + ":result", "%s: returns %d, expected %d", what.c_str(), have, want);
	if (!have)
	{
		ctx.count("refused");
		validate(ctx, s.t, before, std::string(key) + "-refused", what);
		return;
	}
	ctx.count("accepted");
	validate(ctx, s.t, s.m, key, what);
	// The custom images themselves are not modified.
	for (std::size_t i = 0; i < images.size(); ++i)
	{
		Texture::ImageIndex index(customs[i].face, customs[i].mip, customs[i].depth);
		auto f = map.find(index);
		if (f == map.end() || !f->second.image->isValid() ||
			img::bytes(*img::find(images[i].format()), *f->second.image) !=
			img::bytes(*img::find(images[i].format()), images[i]))
		{
			ctx.fail(std::string(key) + ":custom-modified", "%s", what.c_str());
		}
	}
	ctx.state(s.m.hash());
	if (ctx.wantSample())
		ctx.sample(what);
}

// Every index at which a custom image has a meaning.
std::vector<Place> places(const Config& c)
{
	std::vector<Place> v;
	unsigned n = Model::levels(c.dim, c.w, c.h, c.d);
	for (unsigned m = 1; m < n; ++m)
	{
		for (unsigned z = 0; z < (c.dim == D::Dim3D ? std::max(c.d >> m, 1u) : std::max(c.d, 1u)); ++z)
		{
			for (unsigned f = 0; f < (c.dim == D::Cube ? 6u : 1u); ++f)
				v.push_back({f, m, z});
		}
	}
	return v;
}

// --- full: every assignment of {none, once, continue} to every index ---
const Config fullConfigs[] = {
	{D::Dim1D, 9, 1, 0}, {D::Dim1D, 4, 1, 3}, {D::Dim2D, 5, 3, 2}, {D::Dim2D, 16, 6, 0},
	{D::Dim2D, 4, 4, 3}, {D::Dim3D, 4, 4, 4}, {D::Dim3D, 2, 3, 8}, {D::Dim3D, 8, 2, 3},
	{D::Dim3D, 1, 1, 7}, {D::Dim3D, 8, 8, 1}, {D::Cube, 2, 2, 0}, {D::Dim3D, 5, 5, 5},
};
const unsigned fullCount = sizeof(fullConfigs)/sizeof(*fullConfigs);

void full(mc::Ctx& ctx, std::size_t index)
{
	const Config& c = fullConfigs[index % fullCount];
	ColorSpace cs = index/fullCount % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	RF filter = RF(index/fullCount/2);
	std::vector<Place> p = places(c);
	std::vector<CustomSpec> specs;
	for (const Place& x : p)
	{
		unsigned k = ctx.choose(3);
		if (k)
			specs.push_back({x, k == 1 ? MR::Once : MR::Continue, 0});
	}
	run(ctx, c, cs, filter, Texture::allMipLevels, 1, false, specs, "full");
}

// --- pairs: up to two custom images of every kind anywhere, every number of levels ---
const Config pairConfigs[] = {
	{D::Dim1D, 8, 1, 2}, {D::Dim2D, 8, 8, 2}, {D::Dim2D, 7, 2, 0}, {D::Cube, 4, 4, 0},
	{D::Cube, 5, 5, 2}, {D::Dim3D, 8, 4, 2}, {D::Dim3D, 2, 2, 6}, {D::Dim3D, 9, 5, 3},
};
const unsigned pairCount = sizeof(pairConfigs)/sizeof(*pairConfigs);

void pairsOf(mc::Ctx& ctx, std::size_t index)
{
	const Config& c = pairConfigs[index % pairCount];
	ColorSpace cs = index/pairCount % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned max = Model::levels(c.dim, c.w, c.h, c.d);
	static const RF two[] = {RF::Box, RF::CatmullRom};
	RF filter = ctx.thorough() ? RF(ctx.choose(5)) : two[ctx.choose(2)];
	unsigned levels = max - ctx.choose(max);
	unsigned kind = unsigned(index/pairCount/2), kind2 = (kind + 1 + ctx.choose(2)*2) % kindCount;
	std::vector<Place> p = places(c);
	unsigned a = ctx.choose(unsigned(p.size()));
	MR ra = ctx.choose(2) ? MR::Continue : MR::Once;
	std::vector<CustomSpec> specs;
	if (c.dim == D::Dim3D)
	{
		// All the slices of the level.
		for (const Place& x : p)
		{
			if (x.m == p[a].m)
				specs.push_back({x, ra, kind});
		}
		if (p[a].z != 0)
			return;
	}
	else
		specs.push_back({p[a], ra, kind});
	unsigned b = a + 1 + ctx.choose(unsigned(p.size() - a));
	if (b < p.size())
	{
		MR rb = ctx.choose(2) ? MR::Continue : MR::Once;
		if (c.dim == D::Dim3D)
		{
			if (p[b].z != 0 || p[b].m == p[a].m)
				return;
			for (const Place& x : p)
			{
				if (x.m == p[b].m)
					specs.push_back({x, rb, kind2});
			}
		}
		else
			specs.push_back({p[b], rb, kind2});
	}
	run(ctx, c, cs, filter, levels, 1, false, specs, "pairs");
}

// --- outside: custom images where they have no meaning, and stale levels ---
void outside(mc::Ctx& ctx, std::size_t index)
{
	const Config& c = pairConfigs[index % pairCount];
	ColorSpace cs = index/pairCount % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned max = Model::levels(c.dim, c.w, c.h, c.d);
	static const unsigned level[] = {Texture::allMipLevels, 0, 1, 2, 3, 33};
	unsigned levels = level[ctx.choose(6)];
	unsigned initMips = ctx.choose(2) ? max : 1;
	bool all = ctx.choose(2);
	std::vector<Place> far = {{0, 0, 0}, {0, max, 0}, {0, max + 1, 0}, {0, ~0u, 0}, {5, 1, 0},
		{0, 1, 100}, {0, 1, ~0u}, {3, 0, 0}};
	std::vector<CustomSpec> specs;
	for (const Place& x : far)
	{
		if (ctx.choose(2))
			specs.push_back({x, MR::Continue, 0});
	}
	run(ctx, c, cs, RF::Box, levels, initMips, all, specs, "outside");
}

// --- invalid custom images and incomplete textures are refused without a change ---
void refused(mc::Ctx& ctx, std::size_t index)
{
	const Config& c = pairConfigs[index % pairCount];
	ColorSpace cs = index/pairCount % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned max = Model::levels(c.dim, c.w, c.h, c.d);
	Setup s;
	fill(ctx, s, c, ctx.choose(2) ? max : 1, cs, ctx.choose(2));
	bool convertFirst = ctx.choose(2);
	if (convertFirst)
	{
		bool a = s.t.convert(TF::R8G8B8A8, TT::UNorm);
		bool b = s.m.convert(TF::R8G8B8A8, TT::UNorm, Texture::Alpha::Standard, Texture::ColorMask());
		if (a != b)
			ctx.fail("refused:convert", "%s: %d %d", str(c).c_str(), a, b);
	}
	unsigned why = ctx.choose(3);
	Texture::CustomMipImages map;
	Image invalid;
	std::string what = mc::fmt("%s %s%s", str(c).c_str(), img::csName(cs),
		convertFirst ? " converted" : "");
	Model before = s.m;
	if (why == 0)
	{
		map.emplace(Texture::ImageIndex(1, 0), Texture::CustomMipImage(invalid, MR::Once));
		what += ", invalid custom image";
	}
	else if (why == 1)
	{
		Texture t2(c.dim, c.w, c.h, c.d, max, cs);
		Model m2;
		m2.initialize(c.dim, c.w, c.h, c.d, max, cs);
		// Every image but one of the first level.
		unsigned skip = ctx.choose(m2.depth(0)*m2.faces), k = 0;
		for (unsigned z = 0; z < m2.depth(0); ++z)
		{
			for (unsigned f = 0; f < m2.faces; ++f, ++k)
			{
				if (k == skip)
					continue;
				Image i = source(k, c.w, c.h, cs, Image::Format::RGBAF);
				t2.setImage(i, Face(f), 0, z);
				m2.setImage(i, int(f), 0, z);
			}
		}
		s.t = std::move(t2);
		s.m = m2;
		before = m2;
		what += mc::fmt(", level 0 without image %u", skip);
	}
	else
	{
		s.t.reset();
		before.reset();
		what += ", reset";
	}
	bool have = s.t.generateMipmaps(RF::Box, Texture::allMipLevels, map);
	ctx.step();
	if (have)
		ctx.fail("refused:accepted", "%s: accepted", what.c_str());
	validate(ctx, s.t, before, "refused", what);
	ctx.state(mc::hashStr(what));
}

// --- plain chains over many sizes ---
void plainChain(mc::Ctx& ctx, std::size_t index)
{
	unsigned filter = unsigned(index % 5);
	ColorSpace cs = index/5 % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned dim = unsigned(index/10);
	unsigned n = ctx.thorough() ? 17 : 9;
	unsigned w = 1 + ctx.choose(n);
	unsigned h = dim == 0 || dim == 3 ? (dim == 0 ? 1 : w) : 1 + ctx.choose(ctx.thorough() ? 9 : 5);
	unsigned d = dim == 2 ? 1 + ctx.choose(ctx.thorough() ? 17 : 9) : ctx.choose(2)*2;
	Config c{D(dim), w, h, d};
	run(ctx, c, cs, RF(filter), Texture::allMipLevels, 1, false, {}, "plain");
}

// --- large: long chains, many layers and slices, customs deep in the chain ---
const Config largeConfigs[] = {
	{D::Dim2D, 257, 259, 0}, {D::Dim2D, 1025, 3, 0}, {D::Dim1D, 4099, 1, 2}, {D::Dim2D, 2, 515, 2},
	{D::Dim2D, 5, 4, 70}, {D::Cube, 33, 33, 3}, {D::Dim3D, 5, 3, 67}, {D::Dim3D, 66, 34, 9}, {D::Dim3D, 2, 2, 300},
	{D::Dim1D, 3, 1, 300},
};
const unsigned largeCount = sizeof(largeConfigs)/sizeof(*largeConfigs);

void largeChain(mc::Ctx& ctx, std::size_t index)
{
	const Config& c = largeConfigs[index % largeCount];
	ColorSpace cs = index/largeCount % 2 ? ColorSpace::sRGB : ColorSpace::Linear;
	RF filter = RF(index/largeCount/2);
	unsigned max = Model::levels(c.dim, c.w, c.h, c.d);
	unsigned level = ctx.choose(max); // 0: none
	std::vector<CustomSpec> specs;
	if (level)
	{
		MR rep = ctx.choose(2) ? MR::Once : MR::Continue;
		unsigned kind = ctx.choose(2);
		// All slices of a 3D level; the last layer and face otherwise.
		for (const Place& x : places(c))
		{
			if (x.m == level && (c.dim == D::Dim3D || (x.z + 1 >= std::max(c.d, 1u) && x.f + 1 == (c.dim == D::Cube ? 6 : 1))))
				specs.push_back({x, rep, kind});
		}
	}
	run(ctx, c, cs, filter, Texture::allMipLevels, 1, false, specs, "large");
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C09";
	spec.rule = "every assignment of none/once/continue to every level, layer, face and slice of 12 "
		"textures x 5 filters x 2 colour spaces; every pair of custom images of 7 kinds at every "
		"position of 8 textures x every level count; every subset of meaningless positions; refusals; "
		"plain chains of all small sizes; large: 10 textures of up to 4099 pixels, 300 layers or slices with a custom "
		"image at every level";
	spec.assumptions = {"Image::resize is the filter (C18) and is applied to the observed images",
		"which slices count when a slice centre lies exactly on a box filter's edge is not prescribed"};
	spec.families = {
		{"full", [](bool) { return std::size_t(fullCount*10); }, full},
		{"pairs", [](bool) { return std::size_t(pairCount*2*kindCount); }, pairsOf},
		{"outside", [](bool) { return std::size_t(pairCount*2); }, outside},
		{"refused", [](bool) { return std::size_t(pairCount*2); }, refused},
		{"large", [](bool) { return std::size_t(largeCount*10); }, largeChain},
		{"plain", [](bool) { return std::size_t(40); }, plainChain},
	};
	return mc::run(argc, argv, spec);
}
