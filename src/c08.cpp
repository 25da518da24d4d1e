// C08: every history of texture operations against the reference model.
#include "texmodel.h"
#include <unordered_set>
using namespace tmod;

namespace
{

struct Config { D dim; unsigned w, h, d, mips; ColorSpace cs; };
const Config configs[] = {
	{D::Dim2D, 4, 2, 0, 2, ColorSpace::Linear},
	{D::Dim3D, 2, 2, 4, 1, ColorSpace::Linear},
	{D::Cube, 2, 2, 0, 2, ColorSpace::sRGB},
	{D::Dim1D, 5, 1, 2, 3, ColorSpace::Linear},
	{D::Dim2D, 3, 3, 2, 1, ColorSpace::sRGB},
	{D::Cube, 1, 1, 2, 1, ColorSpace::Linear},
	{D::Dim3D, 3, 1, 2, 2, ColorSpace::sRGB},
	{D::Dim2D, 1, 1, 0, 1, ColorSpace::Linear},
};
const unsigned configCount = sizeof(configs)/sizeof(*configs);

// The conversions tried: valid, valid only for linear textures, invalid.
struct Conv { TF f; TT t; Texture::Alpha a; Texture::ColorMask m; unsigned threads; };
const Conv convs[] = {
	{TF::R8G8B8A8, TT::UNorm, Texture::Alpha::PreMultiplied, {true, false, true, true}, 1},
	{TF::R16G16, TT::Float, Texture::Alpha::Standard, {true, true, true, true}, 2},
	{TF::R8, TT::Float, Texture::Alpha::None, {false, true, true, false}, 1},
};

Image picture(unsigned id, unsigned w, unsigned h, ColorSpace cs, Image::Format f)
{
	const img::Desc& d = *img::find(f);
	return img::make(d, w, h, cs, [&](unsigned x, unsigned y) {
		img::Px p;
		for (unsigned c = 0; c < 4; ++c)
			p[int(c)] = double((id*37 + x*29 + y*53 + c*71) % 256)/255.0;
		return p;
	});
}

struct World
{
	Texture t;
	Model m;
	Config base;
	unsigned id = 0; // makes every image different from the previous ones
};

struct Op { const char* name; void (*run)(mc::Ctx&, World&, const char*); };

void expect(mc::Ctx& ctx, const char* op, World& w, bool have, bool want)
{
	if (have != want)
		ctx.fail(std::string(op) + ":result", "%s returns %d, expected %d (model: %s)", op, have, want,
			w.m.str().c_str());
}

void setAll(mc::Ctx& ctx, World& w, unsigned levels, const char* n)
{
	for (unsigned m = 0; m < levels && m < w.m.mips; ++m)
	{
		for (unsigned z = 0; z < w.m.depth(m); ++z)
		{
			for (unsigned f = 0; f < w.m.faces; ++f)
			{
				Image i = picture(w.id++, w.m.width(m), w.m.height(m), w.m.cs, Image::Format::RGBAF);
				bool want = w.m.setImage(i, int(f), m, z);
				expect(ctx, n, w, w.t.setImage(i, Face(f), m, z), want);
			}
		}
	}
}

// Tries to set an image at an index with each of the four overloads.
void trySet(mc::Ctx& ctx, World& w, const char* n, unsigned width, unsigned height, int face, unsigned m,
	unsigned z, Image::Format f, ColorSpace cs, bool move)
{
	Image i = width ? picture(w.id++, width, height, cs, f) : Image();
	bool want = w.m.setImage(i, face, m, z);
	Image copy = i;
	bool have;
	if (face < 0)
		have = move ? w.t.setImage(std::move(copy), m, z) : w.t.setImage(i, m, z);
	else
		have = move ? w.t.setImage(std::move(copy), Face(face), m, z) : w.t.setImage(i, Face(face), m, z);
	expect(ctx, n, w, have, want);
	if (move && !want && i.isValid() && !copy.isValid())
		ctx.fail(std::string(n) + ":consumed", "a refused image was consumed");
}

ColorSpace other(ColorSpace c) { return c == ColorSpace::Linear ? ColorSpace::sRGB : ColorSpace::Linear; }
#define LAST_MIP (w.m.mips ? w.m.mips - 1 : 0)
#define LAST_DEPTH (w.m.mips ? w.m.depth(LAST_MIP) - 1 : 0)
#define LAST_FACE (w.m.faces ? int(w.m.faces) - 1 : 0)

void convertOp(mc::Ctx& ctx, World& w, const char* n, const Conv& c)
{
	bool want = w.m.convert(c.f, c.t, c.a, c.m);
	expect(ctx, n, w, w.t.convert(c.f, c.t, Texture::Quality::Lowest, c.a, c.m, c.threads), want);
}

void generateOp(mc::Ctx& ctx, World& w, const char* n, RF f, unsigned levels, int custom)
{
	std::vector<Custom> list;
	Texture::CustomMipImages map;
	Image i;
	if (custom)
	{
		if (custom > 1)
			i = picture(w.id++, 3, 2, other(w.m.cs), Image::Format::RGBA8);
		Face face = Face(LAST_FACE);
		list.push_back({face, 1, 0, &i, MR::Continue});
		map.emplace(Texture::ImageIndex(face, 1, 0), Texture::CustomMipImage(i, MR::Continue));
	}
	bool want = w.m.generateMipmaps(f, levels, list);
	expect(ctx, n, w, w.t.generateMipmaps(f, levels, map), want);
}

void initOp(mc::Ctx& ctx, World& w, const char* n, const Config& c)
{
	bool want = w.m.initialize(c.dim, c.w, c.h, c.d, c.mips, c.cs);
	expect(ctx, n, w, w.t.initialize(c.dim, c.w, c.h, c.d, c.mips, c.cs), want);
}

const Op ops[] = {
	{"initialize", [](mc::Ctx& ctx, World& w, const char* n) { initOp(ctx, w, n, w.base); }},
	{"set-level-0", [](mc::Ctx& ctx, World& w, const char* n) { setAll(ctx, w, 1, n); }},
	{"set-all", [](mc::Ctx& ctx, World& w, const char* n) { setAll(ctx, w, ~0u, n); }},
	{"convert-rgba8", [](mc::Ctx& ctx, World& w, const char* n) { convertOp(ctx, w, n, convs[0]); }},
	{"convert-rg16f", [](mc::Ctx& ctx, World& w, const char* n) { convertOp(ctx, w, n, convs[1]); }},
	{"mipmaps-all", [](mc::Ctx& ctx, World& w, const char* n) {
		generateOp(ctx, w, n, RF::Box, Texture::allMipLevels, 0); }},
	{"mipmaps-1", [](mc::Ctx& ctx, World& w, const char* n) { generateOp(ctx, w, n, RF::Linear, 1, 0); }},
	{"mipmaps-2", [](mc::Ctx& ctx, World& w, const char* n) {
		generateOp(ctx, w, n, RF::Linear, 2, 0); }},
	{"mipmaps-custom", [](mc::Ctx& ctx, World& w, const char* n) {
		generateOp(ctx, w, n, RF::Linear, Texture::allMipLevels, 2); }},
	{"mipmaps-invalid-custom", [](mc::Ctx& ctx, World& w, const char* n) {
		generateOp(ctx, w, n, RF::Box, Texture::allMipLevels, 1); }},
	{"set-last", [](mc::Ctx& ctx, World& w, const char* n) {
		trySet(ctx, w, n, std::max(w.m.width(LAST_MIP), 1u), std::max(w.m.height(LAST_MIP), 1u),
			LAST_FACE, LAST_MIP, LAST_DEPTH, Image::Format::RGBA8, other(w.m.cs), false); }},
	{"set-first-moved", [](mc::Ctx& ctx, World& w, const char* n) {
		trySet(ctx, w, n, std::max(w.m.width(0), 1u), std::max(w.m.height(0), 1u), -1, 0, 0,
			Image::Format::RGBAF, other(w.m.cs), true); }},
	{"set-refused", [](mc::Ctx& ctx, World& w, const char* n) {
		// Everything that is wrong in exactly one way.
		unsigned W = std::max(w.m.width(0), 1u), H = std::max(w.m.height(0), 1u);
		for (bool move : {false, true})
		{
			for (int face : {-1, 0})
			{
				trySet(ctx, w, n, W + 1, H, face, 0, 0, Image::Format::RGBAF, w.m.cs, move);
				trySet(ctx, w, n, W, H + 1, face, 0, 0, Image::Format::RGBA8, w.m.cs, move);
				trySet(ctx, w, n, 0, 0, face, 0, 0, Image::Format::RGBAF, w.m.cs, move);
				trySet(ctx, w, n, W, H, face, 0, std::max(w.m.depth(0), 1u), Image::Format::RGBAF, w.m.cs,
					move);
				trySet(ctx, w, n, W, H, face, 0, ~0u, Image::Format::RGBAF, w.m.cs, move);
				trySet(ctx, w, n, 1, 1, face, std::max(w.m.mips, 1u), 0, Image::Format::RGBAF, w.m.cs, move);
				trySet(ctx, w, n, 1, 1, face, ~0u, 0, Image::Format::RGBAF, w.m.cs, move);
			}
			if (w.m.faces != 6)
				trySet(ctx, w, n, W, H, 1 + int(w.id % 5), 0, 0, Image::Format::RGBAF, w.m.cs, move);
		}
	}},
	{"convert-invalid", [](mc::Ctx& ctx, World& w, const char* n) { convertOp(ctx, w, n, convs[2]); }},
	{"initialize-other", [](mc::Ctx& ctx, World& w, const char* n) {
		Config c = w.base;
		c.dim = c.dim == D::Cube ? D::Dim2D : c.dim == D::Dim3D ? D::Cube : D::Dim3D;
		c.w = 2;
		c.h = 2;
		c.d = 3;
		c.mips = 2;
		initOp(ctx, w, n, c); }},
	{"initialize-invalid", [](mc::Ctx& ctx, World& w, const char* n) {
		Config c = w.base;
		c.w = 0;
		initOp(ctx, w, n, c); }},
	{"reset", [](mc::Ctx&, World& w, const char*) { w.m.reset(); w.t.reset(); }},
	{"copy-and-back", [](mc::Ctx& ctx, World& w, const char* n) {
		Texture c(w.t);
		Model mm = w.m;
		// The original is changed, the copy must not be.
		w.t.reset();
		validate(ctx, c, mm, n, "the copy");
		w.t = c;
		w.t = *&w.t; }},
	{"move-and-back", [](mc::Ctx& ctx, World& w, const char* n) {
		Texture c(std::move(w.t));
		Model mm = w.m;
		validate(ctx, c, mm, n, "the moved texture");
		w.t = std::move(c); }},
	{"move-assign", [](mc::Ctx&, World& w, const char*) {
		Texture c(D::Cube, 4, 4, 2, 3);
		c.setImage(picture(99, 4, 4, ColorSpace::Linear, Image::Format::RGBAF), Face::PosZ);
		c = std::move(w.t);
		w.t = c; }},
};
const unsigned opCount = sizeof(ops)/sizeof(*ops);

void check(mc::Ctx& ctx, World& w, const char* op, const std::string& history)
{
	validate(ctx, w.t, w.m, op, history);
	validateSave(ctx, w.t, w.m, op, history);
	ctx.state(w.m.hash());
	ctx.step();
}

void apply(mc::Ctx& ctx, World& w, unsigned op, std::string& history)
{
	history += history.empty() ? "" : ", ";
	history += ops[op].name;
	ops[op].run(ctx, w, ops[op].name);
	if (ctx.verbose())
		ctx.note("%s -> %s", ops[op].name, w.m.str().c_str());
	check(ctx, w, ops[op].name, history);
}

// --- every sequence of operations ---
void sequences(mc::Ctx& ctx, std::size_t index)
{
	World w;
	w.base = configs[index % configCount];
	unsigned first = unsigned(index/configCount) % opCount;
	unsigned second = unsigned(index/configCount/opCount);
	std::string history;
	apply(ctx, w, 0, history);
	apply(ctx, w, first, history);
	apply(ctx, w, second, history);
	unsigned depth = ctx.thorough() ? 3 : 1;
	for (unsigned i = 0; i < depth; ++i)
		apply(ctx, w, ctx.choose(opCount), history);
	if (ctx.wantSample())
		ctx.sample(history);
}

// --- deep: starting from a filled texture, longer sequences of the operations that interact ---
const unsigned core[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 14, 17};
const unsigned coreCount = sizeof(core)/sizeof(*core);
void deep(mc::Ctx& ctx, std::size_t index)
{
	World w;
	w.base = configs[index % configCount];
	std::string history;
	apply(ctx, w, 0, history);
	apply(ctx, w, 2, history);
	apply(ctx, w, core[index/configCount % coreCount], history);
	unsigned depth = ctx.thorough() ? 4 : 2;
	for (unsigned i = 0; i < depth; ++i)
		apply(ctx, w, core[ctx.choose(coreCount)], history);
}

// --- pruned: sequences of any operations to a larger depth, cut where the reached state together
// with the two operations that led there has been explored at least as deeply before ---
void pruned(mc::Ctx& ctx, std::size_t index)
{
	static std::unordered_map<std::uint64_t, unsigned> seen;
	static std::size_t current = std::size_t(-1);
	if (current != index)
	{
		seen.clear();
		current = index;
	}
	// Positions before the last of the given prefix were explored by an earlier execution.
	std::size_t replayed = ctx.m_choices.size();
	World w;
	w.base = configs[index % configCount];
	std::string history;
	apply(ctx, w, unsigned(index/configCount), history);
	unsigned depth = ctx.thorough() ? 7 : 4, last = opCount, last2 = opCount;
	for (unsigned i = 0; i < depth; ++i)
	{
		unsigned op = ctx.choose(opCount);
		w.id = 0; // the same operation in the same state gives the same images
		history += history.empty() ? "" : ", ";
		history += ops[op].name;
		ops[op].run(ctx, w, ops[op].name);
		if (ctx.verbose())
			ctx.note("%s -> %s", ops[op].name, w.m.str().c_str());
		if (i + 1 < replayed && !ctx.verbose())
		{
			adopt(w.t, w.m);
			last2 = last;
			last = op;
			continue;
		}
		check(ctx, w, ops[op].name, history);
		last2 = last;
		last = op;
		std::uint64_t k = mc::mix(mc::mix(w.m.hash(), last), ctx.thorough() ? last2 : 0);
		unsigned left = depth - i;
		unsigned& s = seen[k];
		if (!ctx.verbose() && s >= left)
		{
			ctx.count("cut at an explored state");
			return;
		}
		s = std::max(s, left);
	}
}

// --- settings: every sequence of conversions that differ in alpha type, colour mask and format only ---
void settings(mc::Ctx& ctx, std::size_t index)
{
	static const Texture::Alpha alphas[] = {Texture::Alpha::None, Texture::Alpha::Standard,
		Texture::Alpha::PreMultiplied, Texture::Alpha::Encoded};
	static const Texture::ColorMask masks[] = {{true, true, true, true}, {true, false, true, true},
		{false, true, true, false}};
	World w;
	w.base = configs[index % configCount];
	std::string history;
	apply(ctx, w, 0, history);
	apply(ctx, w, 2, history);
	unsigned n = unsigned(index/configCount), depth = ctx.thorough() ? 3 : 2;
	for (unsigned i = 0; i < depth; ++i)
	{
		if (i)
		{
			n = ctx.choose(24);
			if (ctx.choose(2))
				apply(ctx, w, 2, history); // a conversion takes the images
		}
		bool wide = n >= 12 && w.m.cs == ColorSpace::Linear;
		Conv c = {wide ? TF::R16G16B16A16 : TF::R8G8B8A8, TT::UNorm, alphas[n % 4], masks[n/4 % 3],
			1 + i % 2};
		std::string name = mc::fmt("convert (alpha type %u, mask %u, %s)", n % 4, n/4 % 3, wide ? "16 bits" : "8 bits");
		history += ", " + name;
		convertOp(ctx, w, "convert-settings", c);
		check(ctx, w, "convert-settings", history);
	}
}

// --- images: every image format, colour space and overload at every place of every texture ---
void images(mc::Ctx& ctx, std::size_t index)
{
	World w;
	w.base = configs[index % configCount];
	const img::Desc& d = img::formats()[index/configCount];
	ColorSpace cs = ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
	bool move = ctx.choose(2), withFace = ctx.choose(2), after = ctx.choose(2);
	std::string history = mc::fmt("%s %s image %s%s%s", cs == ColorSpace::sRGB ? "sRGB" : "linear", d.name,
		move ? "moved" : "copied", withFace ? " with a face" : "", after ? " after mipmaps and a conversion" : "");
	initOp(ctx, w, "initialize", w.base);
	if (after)
	{
		setAll(ctx, w, ~0u, "set-all");
		generateOp(ctx, w, "mipmaps", RF::Box, Texture::allMipLevels, 0);
		convertOp(ctx, w, "convert", convs[w.m.cs == ColorSpace::sRGB ? 0 : 1]);
		check(ctx, w, "convert", history);
	}
	double scale = d.format >= Image::Format::Int16 && d.format <= Image::Format::UInt32 ? 300.0 : 1.0;
	for (unsigned m = 0; m < w.m.mips; ++m)
	{
		for (unsigned z = 0; z < w.m.depth(m); ++z)
		{
			for (unsigned f = 0; f < w.m.faces; ++f)
			{
				unsigned id = w.id++;
				Image i = img::make(d, w.m.width(m), w.m.height(m), cs, [&](unsigned x, unsigned y) {
					img::Px p;
					for (unsigned c = 0; c < 4; ++c)
						p[int(c)] = double((id*37 + x*29 + y*53 + c*71) % 256)/255.0*scale;
					return p;
				});
				bool want = w.m.setImage(i, withFace ? int(f) : -1, m, z);
				bool have = withFace ? move ? w.t.setImage(std::move(i), Face(f), m, z) : w.t.setImage(i, Face(f), m, z) :
					move ? w.t.setImage(std::move(i), m, z) : w.t.setImage(i, m, z);
				expect(ctx, "set-format", w, have, want);
			}
		}
		check(ctx, w, "set-format", history);
	}
	convertOp(ctx, w, "convert", convs[0]);
	check(ctx, w, "convert", history);
}

// --- own: the texture's own images given back to it, and as custom mip images ---
void own(mc::Ctx& ctx, std::size_t index)
{
	World w;
	w.base = configs[index % configCount];
	bool withFace = index/configCount % 2, levels = index/configCount/2 % 2;
	initOp(ctx, w, "initialize", w.base);
	setAll(ctx, w, ~0u, "set-all");
	if (levels)
		generateOp(ctx, w, "mipmaps", RF::Box, Texture::allMipLevels, 0);
	struct Place { unsigned m, z, f; };
	std::vector<Place> places;
	for (unsigned m = 0; m < w.m.mips; ++m)
	{
		for (unsigned z = 0; z < w.m.depth(m); ++z)
		{
			for (unsigned f = 0; f < w.m.faces; ++f)
				places.push_back({m, z, f});
		}
	}
	std::string history = levels ? "with mipmaps" : "without mipmaps";
	bool sets = ctx.choose(2);
	for (unsigned k = 0; sets && k < (ctx.thorough() ? 3u : 2u) && (k == 0 || places.size() <= (ctx.thorough() ? 12u : 7u)); ++k)
	{
		Place a = places[ctx.choose(unsigned(places.size()))], b = places[ctx.choose(unsigned(places.size()))];
		const Image& i = w.t.getImage(Face(a.f), a.m, a.z);
		Image copy = i;
		int face = withFace ? int(b.f) : -1;
		bool want = w.m.setImage(copy, face, b.m, b.z);
		bool have = withFace ? w.t.setImage(i, Face(b.f), b.m, b.z) : w.t.setImage(i, b.m, b.z);
		history += mc::fmt(", own image mip %u depth %u face %u set at mip %u depth %u face %u", a.m, a.z, a.f, b.m,
			b.z, b.f);
		expect(ctx, "set-own", w, have, want);
		check(ctx, w, "set-own", history);
	}
	if (sets)
		return;
	// Levels kept as they are: their own images as the custom mip images, the levels around them made again.
	if (w.m.mips > 1 && ctx.choose(2))
	{
		unsigned from = 1 + ctx.choose(w.m.mips - 1), to = from + ctx.choose(w.m.mips - from);
		unsigned face = ctx.choose(w.m.faces);
		unsigned count = to + 1 + ctx.choose(Texture::maxMipmapLevels(w.m.dim, w.m.width(0), w.m.height(0),
			w.m.depth(0)) - to);
		MR r = ctx.choose(2) ? MR::Once : MR::Continue;
		std::vector<Image> copies;
		copies.reserve(places.size());
		std::vector<Custom> list;
		Texture::CustomMipImages map;
		for (const Place& a : places)
		{
			if (a.m < from || a.m > to || a.f != face)
				continue;
			const Image& i = w.t.getImage(Face(a.f), a.m, a.z);
			copies.push_back(i);
			list.push_back({Face(a.f), a.m, a.z, &copies.back(), r});
			map.emplace(Texture::ImageIndex(Face(a.f), a.m, a.z), Texture::CustomMipImage(i, r));
		}
		bool want = w.m.generateMipmaps(RF::Linear, count, list);
		expect(ctx, "mips-kept", w, w.t.generateMipmaps(RF::Linear, count, map), want);
		check(ctx, w, "mips-kept", history + mc::fmt(", levels %u to %u of face %u kept among %u", from, to, face, count));
		return;
	}
	// An image of the first level as a custom mip image of another surface.
	unsigned n = 0;
	while (n < places.size() && places[n].m == 0)
		++n;
	Place a = places[ctx.choose(n)];
	Face to = Face(ctx.choose(w.m.faces));
	MR r = ctx.choose(2) ? MR::Once : MR::Continue;
	const Image& i = w.t.getImage(Face(a.f), 0, a.z);
	std::vector<Custom> list;
	Texture::CustomMipImages map;
	Image copy = i;
	unsigned all = w.m.dim == D::Dim3D ? std::max(w.m.d >> 1, 1u) : 1;
	for (unsigned z = 0; z < all; ++z)
	{
		list.push_back({to, 1, z, &copy, r});
		map.emplace(Texture::ImageIndex(to, 1, z), Texture::CustomMipImage(i, r));
	}
	bool want = w.m.generateMipmaps(RF::Linear, Texture::allMipLevels, list);
	expect(ctx, "mips-own", w, w.t.generateMipmaps(RF::Linear, Texture::allMipLevels, map), want);
	check(ctx, w, "mips-own", history + ", own image as a custom mip");
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C08";
	spec.rule = "every sequence of 20 operations (valid and invalid) of length 3 (5) after initialize on "
		"8 textures; sequences of 12 interacting operations of length 3 (5) after filling; sequences of "
		"length 5 (8) cut at explored states; images of every pixel format and colour space through every overload; the texture's own images given back to it, also as the custom images of the levels they are in; every 2 (3) conversions in a row that differ in alpha type, colour mask and format; the whole observable state is compared after every operation";
	spec.assumptions = {"setting an image after a conversion keeps the converted data until the next "
		"conversion", "the model's filtered images come from Image::resize (C18)"};
	spec.families = {
		{"sequences", [](bool) { return std::size_t(configCount*opCount*opCount); }, sequences},
		{"deep", [](bool) { return std::size_t(configCount*coreCount); }, deep},
		{"images", [](bool) { return configCount*img::formats().size(); }, images},
		{"settings", [](bool) { return std::size_t(configCount*24); }, settings},
		{"own", [](bool) { return std::size_t(configCount*4); }, own},
		{"pruned", [](bool) { return std::size_t(configCount*opCount); }, pruned},
	};
	return mc::run(argc, argv, spec);
}
