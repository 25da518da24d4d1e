// C03: shape accessors, surface sizes and surface placement for every index inside and outside the
// valid range.
#include "tex.h"
#include <functional>
using namespace tex;

namespace
{

typedef Texture::Dimension D;
const char* dimNames[] = {"1D", "2D", "3D", "cube"};

unsigned log2floor(std::uint64_t v)
{
	unsigned n = 0;
	while (v >>= 1)
		++n;
	return n;
}

struct Model
{
	D dim;
	std::uint64_t w, h, d;
	unsigned mips, faces;
	Model(D dim, unsigned w, unsigned h, unsigned d, unsigned req) : dim(dim), w(w), h(h), d(d)
	{
		std::uint64_t m = std::max(w, h);
		if (dim == D::Dim3D)
			m = std::max<std::uint64_t>(m, d);
		mips = std::min(std::max(req, 1u), log2floor(m) + 1);
		faces = dim == D::Cube ? 6 : 1;
	}
	unsigned width(unsigned l) const { return l < mips ? std::max(unsigned(w >> l), 1u) : 0; }
	unsigned height(unsigned l) const { return l < mips ? std::max(unsigned(h >> l), 1u) : 0; }
	unsigned depth(unsigned l) const
	{
		if (l >= mips)
			return 0;
		if (dim == D::Dim3D)
			return std::max(unsigned(d >> l), 1u);
		return std::max(unsigned(d), 1u);
	}
	bool array() const { return dim != D::Dim3D && d > 0; }
};

const unsigned far[] = {~0u, ~0u - 1, 0x80000000u, 32, 33, 64, 256, 0x10000};

void accessors(mc::Ctx& ctx, const Texture& t, const Model& m, ColorSpace cs, const char* what)
{
	auto chk = [&](const char* n, unsigned long have, unsigned long want, unsigned lvl) {
		if (have != want)
			ctx.fail(n, "%s: %s(%u) is %lu, expected %lu", what, n, lvl, have, want);
		ctx.step();
	};
	chk("isValid", t.isValid() && bool(t), 1, 0);
	chk("dimension", unsigned(t.dimension()), unsigned(m.dim), 0);
	chk("colorSpace", unsigned(t.colorSpace()), unsigned(cs), 0);
	chk("isArray", t.isArray(), m.array(), 0);
	chk("mipLevelCount", t.mipLevelCount(), m.mips, 0);
	chk("faceCount", t.faceCount(), m.faces, 0);
	chk("maxMipmapLevels", Texture::maxMipmapLevels(m.dim, unsigned(m.w), unsigned(m.h), unsigned(m.d)),
		Model(m.dim, unsigned(m.w), unsigned(m.h), unsigned(m.d), ~0u).mips, 0);
	auto level = [&](unsigned l) {
		chk("width", t.width(l), m.width(l), l);
		chk("height", t.height(l), m.height(l), l);
		chk("depth", t.depth(l), m.depth(l), l);
	};
	for (unsigned l = 0; l < m.mips + 3; ++l)
		level(l);
	for (unsigned l : far)
		level(l);
	chk("width", t.width(), m.width(0), 0);
	chk("height", t.height(), m.height(0), 0);
	chk("depth", t.depth(), m.depth(0), 0);
}

// --- accessors over sizes near powers of two ---
std::vector<unsigned> bigSizes(bool thorough)
{
	std::vector<unsigned> v;
	for (unsigned i = 1; i <= 20; ++i)
		v.push_back(i);
	for (unsigned e = 5; e < 32; ++e)
	{
		for (int o = -1; o <= 1; ++o)
			v.push_back((1u << e) + unsigned(o));
	}
	v.push_back(~0u);
	v.push_back(~0u - 1);
	v.push_back(3000000000u);
	if (thorough)
	{
		for (unsigned i = 21; i < 1200; ++i)
			v.push_back(i);
	}
	return v;
}

void shapeCase(mc::Ctx& ctx, std::size_t idx)
{
	std::vector<unsigned> sizes = bigSizes(ctx.thorough());
	unsigned w = sizes[idx/4];
	D dim = D(idx % 4);
	for (unsigned h : sizes)
	{
		if (dim == D::Dim1D)
			h = 1;
		for (unsigned d : {0u, 1u, 2u, 3u, 5u, 8u, 17u})
		{
			if (dim == D::Dim3D && d == 0)
				continue;
			for (unsigned req : {0u, 1u, 2u, 7u, 31u, 32u, 33u, ~0u})
			{
				for (ColorSpace cs : {ColorSpace::Linear, ColorSpace::sRGB})
				{
					std::string what = mc::fmt("%s %ux%ux%u, %u levels requested", dimNames[int(dim)],
						w, h, d, req);
					Texture t;
					if (!t.initialize(dim, w, h, d, req, cs))
						ctx.fail("initialize", "%s refused", what.c_str());
					Model m(dim, w, h, d, req);
					accessors(ctx, t, m, cs, what.c_str());
					if (t.imagesComplete() || t.converted() || t.format() != TF::Unknown ||
						t.data() || t.dataSize() || t.getImage().isValid())
						ctx.fail("fresh", "%s: fresh texture is not empty", what.c_str());
					if (t.convert(TF::R8, TT::UNorm, Texture::Quality::Lowest, Texture::Alpha::None,
						Texture::ColorMask(), 1) || t.converted())
						ctx.fail("convert-incomplete", "%s", what.c_str());
				}
			}
		}
		ctx.state(mc::mix(mc::mix(w, h), unsigned(dim)));
		if (dim == D::Dim1D)
			break;
	}
	// Sizes of zero are refused and leave the texture invalid.
	for (unsigned z = 0; z < 3; ++z)
	{
		Texture t(D::Dim2D, 2, 2);
		bool r = t.initialize(dim, z == 0 ? 0 : w, z == 1 ? 0 : dim == D::Dim1D ? 1 : 3, 0);
		bool want = z == 2 && dim != D::Dim3D;
		if (r != want || t.isValid() != want || t.width() != (want ? w : 0))
			ctx.fail("zero-size", "%s width %u variant %u: %d", dimNames[int(dim)], w, z, int(r));
	}
}

// --- surfaces ---
struct Shape { D dim; unsigned w, h, d; };
std::vector<Shape> shapes(bool thorough)
{
	std::vector<Shape> v;
	unsigned n = thorough ? 9 : 5;
	for (unsigned w = 1; w <= n; ++w)
	{
		for (unsigned d = 0; d <= (thorough ? 5 : 3); ++d)
			v.push_back({D::Dim1D, w, 1, d});
		for (unsigned h = 1; h <= n; ++h)
		{
			for (unsigned d = 0; d <= (thorough ? 5 : 3); ++d)
			{
				v.push_back({D::Dim2D, w, h, d});
				v.push_back({D::Cube, w, h, d});
			}
			for (unsigned d = 1; d <= (thorough ? 9 : 5); ++d)
				v.push_back({D::Dim3D, w, h, d});
		}
	}
	const unsigned more[][3] = {{16, 3, 2}, {2, 17, 0}, {33, 2, 5}, {64, 64, 0}, {31, 63, 1}, {1, 40, 3},
		{100, 1, 0}, {128, 65, 0}, {5, 7, 20}};
	for (auto& m : more)
	{
		if (m[1] == 1)
			v.push_back({D::Dim1D, m[0], m[1], m[2]});
		v.push_back({D::Dim2D, m[0], m[1], m[2]});
		v.push_back({D::Cube, m[0], m[1], m[2]});
		if (m[2])
			v.push_back({D::Dim3D, m[0], m[1], m[2]});
	}
	v.push_back({D::Dim3D, 9, 4, 33});
	v.push_back({D::Dim3D, 1, 1, 70});
	return v;
}

// Distinct texel for every (surface, x, y), exactly representable in 8 bits.
void tagPixel(unsigned id, unsigned x, unsigned y, float* p)
{
	p[0] = float(id & 255)/255.0f;
	p[1] = float(((id >> 8) & 15) | ((x >> 4) & 15) << 4)/255.0f;
	p[2] = float((x & 15) | (y & 15) << 4)/255.0f;
	p[3] = float((y >> 4) & 255)/255.0f;
}

Image tagged(unsigned w, unsigned h, unsigned id)
{
	return makeImage(w, h, ColorSpace::Linear, [&](unsigned x, unsigned y, float* p) {
		tagPixel(id, x, y, p); });
}

void surfaceCase(mc::Ctx& ctx, std::size_t idx)
{
	static std::vector<Shape> quick = shapes(false), thorough = shapes(true);
	const Shape& s = (ctx.thorough() ? thorough : quick)[idx];
	Model full(s.dim, s.w, s.h, s.d, ~0u);
	unsigned req = 1 + ctx.choose(full.mips);
	Model m(s.dim, s.w, s.h, s.d, req);
	struct Idx { unsigned mip, d, f; };
	std::vector<Idx> all;
	for (unsigned l = 0; l < m.mips; ++l)
	{
		for (unsigned d = 0; d < m.depth(l); ++d)
		{
			for (unsigned f = 0; f < m.faces; ++f)
				all.push_back({l, d, f});
		}
	}
	// Which setImage overload, the order the images are set in, which one is left out at first, and
	// the format.
	unsigned overload = ctx.choose(m.faces == 1 ? 4 : 2);
	unsigned order = ctx.choose(2);
	static const struct { TF f; TT t; } formats[] = {{TF::R8G8B8A8, TT::UNorm}, {TF::R4G4, TT::UNorm},
		{TF::R8G8B8, TT::SNorm}, {TF::R16G16B16, TT::UInt}, {TF::R32G32B32A32, TT::Float},
		{TF::R5G6B5, TT::UNorm}, {TF::B10G11R11_UFloat, TT::UFloat}, {TF::R16, TT::Float}};
	unsigned fi = ctx.choose(8);
	std::string what = mc::fmt("%s %ux%ux%u levels %u", dimNames[int(s.dim)], s.w, s.h, s.d, req);

	Texture t(s.dim, s.w, s.h, s.d, req);
	accessors(ctx, t, m, ColorSpace::Linear, what.c_str());

	auto set = [&](const Idx& i, unsigned id) {
		Image img = tagged(m.width(i.mip), m.height(i.mip), id);
		switch (overload)
		{
			case 0: return t.setImage(img, Texture::CubeFace(i.f), i.mip, i.d);
			case 1: return t.setImage(std::move(img), Texture::CubeFace(i.f), i.mip, i.d);
			case 2: return t.setImage(img, i.mip, i.d);
			default: return t.setImage(std::move(img), i.mip, i.d);
		}
	};
	// Out of range and wrong size.
	auto refused = [&](unsigned mip, unsigned d, unsigned f, bool faceCall, unsigned w, unsigned h) {
		Image img = tagged(std::max(w, 1u), std::max(h, 1u), 9999);
		bool r = faceCall ? t.setImage(img, Texture::CubeFace(f), mip, d) : t.setImage(img, mip, d);
		bool r2 = faceCall ? t.setImage(std::move(img), Texture::CubeFace(f), mip, d) :
			t.setImage(std::move(img), mip, d);
		if (r || r2)
			ctx.fail("setImage-accepted", "%s: mip %u depth %u face %u %ux%u accepted", what.c_str(), mip,
				d, f, w, h);
		ctx.step(2);
	};
	auto outside = [&]() {
		for (unsigned l = 0; l < m.mips; ++l)
		{
			unsigned w = m.width(l), h = m.height(l), d = m.depth(l);
			for (unsigned dd : {d, d + 1, ~0u})
			{
				for (unsigned f = 0; f < 6; ++f)
					refused(l, dd, f, true, w, h);
				refused(l, dd, 0, false, w, h);
			}
			refused(l, 0, 0, true, w + 1, h);
			refused(l, 0, 0, true, w, h + 1);
			if (w > 1)
				refused(l, 0, 0, true, w - 1, h);
			if (h > 1)
				refused(l, 0, 0, true, w, h - 1);
			if (w != h)
				refused(l, 0, 0, true, h, w);
			if (m.faces == 6)
				refused(l, 0, 0, false, w, h);
			else
			{
				for (unsigned f = 1; f < 6; ++f)
					refused(l, 0, f, true, w, h);
			}
			Image invalid;
			if (t.setImage(invalid, Texture::CubeFace::PosX, l, 0))
				ctx.fail("setImage-invalid", "%s: invalid image accepted", what.c_str());
		}
		for (unsigned l : {m.mips, m.mips + 1, 31u, 32u, 64u, ~0u})
		{
			refused(l < m.mips ? ~0u : l, 0, 0, true, 1, 1);
			refused(l < m.mips ? ~0u : l, 0, 0, false, 1, 1);
			refused(l < m.mips ? ~0u : l, 0, 0, false, s.w, s.h);
		}
	};
	outside();
	std::size_t missing = order == 0 ? all.size() - 1 : 0;
	std::vector<bool> have(all.size(), false);
	auto images = [&]() {
		for (std::size_t k = 0; k < all.size(); ++k)
		{
			const Idx& i = all[k];
			const Image& img = t.getImage(Texture::CubeFace(i.f), i.mip, i.d);
			if (img.isValid() != have[k])
				ctx.fail("getImage", "%s: mip %u depth %u face %u is %s", what.c_str(), i.mip, i.d, i.f,
					img.isValid() ? "present" : "missing");
			if (m.faces == 1 ? (&t.getImage(i.mip, i.d) != &img) : t.getImage(i.mip, i.d).isValid())
				ctx.fail("getImage-overload", "%s", what.c_str());
			if (!have[k])
				continue;
			if (img.format() != Image::Format::RGBAF || img.width() != m.width(i.mip) ||
				img.height() != m.height(i.mip))
				ctx.fail("getImage-shape", "%s: mip %u", what.c_str(), i.mip);
			for (unsigned y = 0; y < img.height(); ++y)
			{
				const float* p = static_cast<const float*>(img.scanline(y));
				for (unsigned x = 0; x < img.width(); ++x)
				{
					float want[4];
					tagPixel(unsigned(k), x, y, want);
					if (memcmp(want, p + 4*x, 16) != 0)
						ctx.fail("getImage-pixels", "%s: mip %u depth %u face %u", what.c_str(), i.mip,
							i.d, i.f);
				}
			}
		}
		for (unsigned l = 0; l < m.mips; ++l)
		{
			if (t.getImage(Texture::CubeFace::PosX, l, m.depth(l)).isValid() ||
				t.getImage(l, m.depth(l)).isValid() || t.getImage(l, ~0u).isValid())
				ctx.fail("getImage-outside", "%s", what.c_str());
			if (m.faces == 1 && t.getImage(Texture::CubeFace::NegZ, l, 0).isValid())
				ctx.fail("getImage-face", "%s", what.c_str());
		}
		for (unsigned l : {m.mips, m.mips + 1, ~0u})
		{
			if (t.getImage(l).isValid() || t.getImage(Texture::CubeFace::PosX, l).isValid())
				ctx.fail("getImage-level", "%s", what.c_str());
		}
	};
	for (std::size_t n = 0; n < all.size(); ++n)
	{
		std::size_t k = order == 0 ? n : all.size() - 1 - n;
		if (k == missing)
			continue;
		if (!set(all[k], unsigned(k)))
			ctx.fail("setImage", "%s: mip %u depth %u face %u refused", what.c_str(), all[k].mip,
				all[k].d, all[k].f);
		have[k] = true;
		if (all.size() <= 16)
			images();
	}
	images();
	auto cv = [&]() {
		return t.convert(formats[fi].f, formats[fi].t, Texture::Quality::Normal,
			Texture::Alpha::Encoded, Texture::ColorMask(true, false, true, false), 1);
	};
	if (t.imagesComplete() || cv() || t.converted())
		ctx.fail("complete-early", "%s: complete without image %zu", what.c_str(), missing);
	if (!set(all[missing], unsigned(missing)))
		ctx.fail("setImage", "%s", what.c_str());
	have[missing] = true;
	outside();
	images();
	if (!t.imagesComplete())
		ctx.fail("imagesComplete", "%s: all %zu images set", what.c_str(), all.size());
	if (!cv() || !t.converted())
		ctx.fail("convert", "%s", what.c_str());
	accessors(ctx, t, m, ColorSpace::Linear, what.c_str());
	if (t.format() != formats[fi].f || t.type() != formats[fi].t ||
		t.alphaType() != Texture::Alpha::Encoded || !t.colorMask().r || t.colorMask().g ||
		!t.colorMask().b || t.colorMask().a)
		ctx.fail("parameters", "%s: format, type, alpha or mask", what.c_str());
	const Desc* desc = nullptr;
	for (const Desc& d : tex::formats())
	{
		if (d.format == formats[fi].f)
			desc = &d;
	}
	for (std::size_t k = 0; k < all.size(); ++k)
	{
		const Idx& i = all[k];
		Texture::CubeFace face = Texture::CubeFace(i.f);
		std::size_t size = t.dataSize(face, i.mip, i.d);
		const unsigned char* p = static_cast<const unsigned char*>(t.data(face, i.mip, i.d));
		unsigned w = m.width(i.mip), h = m.height(i.mip);
		if (!p || size != std::size_t(w)*h*unsigned(desc->bytes))
			ctx.fail("dataSize", "%s: mip %u depth %u face %u: %zu bytes", what.c_str(), i.mip, i.d, i.f,
				size);
		bool same = m.faces == 1 ? t.data(i.mip, i.d) == p && t.dataSize(i.mip, i.d) == size :
			!t.data(i.mip, i.d) && !t.dataSize(i.mip, i.d);
		if (!same)
			ctx.fail("data-overload", "%s: mip %u", what.c_str(), i.mip);
		for (unsigned y = 0; y < h; ++y)
		{
			for (unsigned x = 0; x < w; ++x)
			{
				float want[4];
				tagPixel(unsigned(k), x, y, want);
				for (const Chan& c : desc->chans)
				{
					std::uint64_t raw = rawBits(p + (std::size_t(y)*w + x)*unsigned(desc->bytes), c);
					if (const char* e = checkChannel(*desc, formats[fi].t, c, raw, want[c.ch]))
						ctx.fail(mc::fmt("pixels:%s", e),
							"%s %s: mip %u depth %u face %u (%u,%u) is not the image's pixel", what.c_str(),
							desc->name, i.mip, i.d, i.f, x, y);
				}
			}
		}
		ctx.step(std::uint64_t(w)*h);
	}
	for (unsigned l = 0; l < m.mips; ++l)
	{
		for (unsigned d : {m.depth(l), m.depth(l) + 1, ~0u})
		{
			if (t.data(l, d) || t.dataSize(l, d) || t.data(Texture::CubeFace::PosX, l, d) ||
				t.dataSize(Texture::CubeFace::NegZ, l, d))
				ctx.fail("data-outside", "%s: mip %u depth %u", what.c_str(), l, d);
		}
		if (m.faces == 1)
		{
			for (unsigned f = 1; f < 6; ++f)
			{
				if (t.data(Texture::CubeFace(f), l) || t.dataSize(Texture::CubeFace(f), l))
					ctx.fail("data-face", "%s: mip %u face %u", what.c_str(), l, f);
			}
		}
	}
	for (unsigned l : {m.mips, m.mips + 1, 32u, ~0u})
	{
		if (l >= m.mips && (t.data(l) || t.dataSize(l) || t.data(Texture::CubeFace::PosX, l) ||
			t.dataSize(Texture::CubeFace::PosX, l)))
			ctx.fail("data-level", "%s: mip %u", what.c_str(), l);
	}
	ctx.state(mc::hashStr(what, overload*64 + order*32 + fi));
	if (ctx.wantSample())
		ctx.sample(what + mc::fmt(", %zu surfaces, %s", all.size(), desc->name));
}

// --- large: sizes, layers, depths and numbers of surfaces beyond one and two bytes ---
const Shape largeShapes[] = {{D::Dim2D, 257, 259, 0}, {D::Dim2D, 4099, 3, 2}, {D::Dim2D, 3, 4099, 0},
	{D::Dim1D, 65537, 1, 2}, {D::Dim1D, 3, 1, 300}, {D::Dim2D, 2, 3, 300}, {D::Dim2D, 1, 1, 65537},
	{D::Cube, 1, 1, 70}, {D::Cube, 130, 130, 2}, {D::Dim3D, 3, 2, 300}, {D::Dim3D, 1, 1, 4097},
	{D::Dim3D, 17, 66, 34}, {D::Dim2D, 1, 65537, 0}, {D::Cube, 33, 33, 43}, {D::Dim2D, 1031, 1033, 0}};
const unsigned largeCount = sizeof(largeShapes)/sizeof(*largeShapes);

std::uint64_t tag(std::size_t id, unsigned x, unsigned y) { return mc::mix(mc::mix(id + 1, x), y); }

void largeCase(mc::Ctx& ctx, std::size_t idx)
{
	const Shape& s = largeShapes[idx];
	Model full(s.dim, s.w, s.h, s.d, ~0u);
	unsigned req = ctx.choose(2) ? 1 : full.mips;
	bool byFormat = ctx.choose(2); // 32-bit floats or 8 bits
	unsigned threads = ctx.choose(2) ? 1 : 5;
	Model m(s.dim, s.w, s.h, s.d, req);
	std::string what = mc::fmt("%s %ux%ux%u levels %u, %u threads", dimNames[int(s.dim)], s.w, s.h, s.d, req, threads);
	Texture t(s.dim, s.w, s.h, s.d, req);
	accessors(ctx, t, m, ColorSpace::Linear, what.c_str());
	auto each = [&](const std::function<void(std::size_t, unsigned, unsigned, unsigned)>& f) {
		std::size_t id = 0;
		for (unsigned l = 0; l < m.mips; ++l)
		{
			for (unsigned d = 0; d < m.depth(l); ++d)
			{
				for (unsigned c = 0; c < m.faces; ++c)
					f(id++, l, d, c);
			}
		}
	};
	std::size_t last = 0;
	each([&](std::size_t id, unsigned, unsigned, unsigned) { last = id; });
	auto set = [&](std::size_t id, unsigned l, unsigned d, unsigned c) {
		Image img = makeImage(m.width(l), m.height(l), ColorSpace::Linear, [&](unsigned x, unsigned y, float* p) {
			std::uint64_t v = tag(id, x, y);
			for (int k = 0; k < 4; ++k)
				p[k] = float((v >> 8*k) & 255)/255.0f;
		});
		if (!t.setImage(std::move(img), Texture::CubeFace(c), l, d))
			ctx.fail("large-setImage", "%s: mip %u depth %u face %u", what.c_str(), l, d, c);
	};
	each([&](std::size_t id, unsigned l, unsigned d, unsigned c) {
		if (id != last)
			set(id, l, d, c);
	});
	if (t.imagesComplete())
		ctx.fail("large-complete-early", "%s", what.c_str());
	each([&](std::size_t id, unsigned l, unsigned d, unsigned c) {
		if (id == last)
			set(id, l, d, c);
	});
	if (!t.imagesComplete())
		ctx.fail("large-imagesComplete", "%s", what.c_str());
	if (!t.convert(byFormat ? TF::R32G32B32A32 : TF::R8G8B8A8, byFormat ? TT::Float : TT::UNorm,
		Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), threads))
		ctx.fail("large-convert", "%s", what.c_str());
	accessors(ctx, t, m, ColorSpace::Linear, what.c_str());
	unsigned bytes = byFormat ? 16 : 4;
	each([&](std::size_t id, unsigned l, unsigned d, unsigned c) {
		std::size_t size = t.dataSize(Texture::CubeFace(c), l, d);
		const unsigned char* p = static_cast<const unsigned char*>(t.data(Texture::CubeFace(c), l, d));
		unsigned w = m.width(l), h = m.height(l);
		if (!p || size != std::size_t(w)*h*bytes)
			ctx.fail("large-dataSize", "%s: mip %u depth %u face %u: %zu bytes", what.c_str(), l, d, c, size);
		for (unsigned y = 0; y < h; ++y)
		{
			for (unsigned x = 0; x < w; ++x, p += bytes)
			{
				std::uint64_t v = tag(id, x, y);
				for (int k = 0; k < 4; ++k)
				{
					float f = float((v >> 8*k) & 255)/255.0f;
					if (byFormat ? memcmp(p + 4*k, &f, 4) != 0 : p[k] != ((v >> 8*k) & 255))
						ctx.fail("large-pixels", "%s: mip %u depth %u face %u (%u,%u) is not the image's pixel",
							what.c_str(), l, d, c, x, y);
				}
			}
		}
		ctx.step(std::uint64_t(w)*h);
	});
	ctx.state(mc::hashStr(what, byFormat));
	if (ctx.wantSample())
		ctx.sample(what);
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C03";
	spec.rule = "shapes: every dimension x size in a lattice around all powers of two up to 2^32 x depth x "
		"requested levels; surfaces: every small shape x level count x setImage overload x order x "
		"format, every surface index, plus indices outside; large: 15 shapes with sizes, layers, depths or "
		"surface counts up to 65537";
	spec.assumptions = {"a face argument outside the six enumerators is outside the contract"};
	mc::Family a;
	a.name = "shapes";
	a.cases = [](bool th) { return bigSizes(th).size()*4; };
	a.body = shapeCase;
	spec.families.push_back(a);
	mc::Family b;
	b.name = "surfaces";
	b.cases = [](bool th) { return shapes(th).size(); };
	b.body = surfaceCase;
	spec.families.push_back(b);
	mc::Family l;
	l.name = "large";
	l.cases = [](bool) { return std::size_t(largeCount); };
	l.body = largeCase;
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
