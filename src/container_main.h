// C04, C05, C06: every successfully saved file decodes, with an independent reader, to exactly the
// texture; everything else is refused. The including file defines PROPERTY, FILETYPE, READ, EXT.
#include "container.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace cont;

namespace
{

struct Shape { Texture::Dimension dim; unsigned w, h, depth; };

std::vector<Shape> shapes(bool thorough)
{
	std::vector<Shape> v;
	std::vector<unsigned> s{1, 2, 3, 4, 5, 8};
	if (thorough)
		s = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33};
	for (unsigned w : s)
	{
		for (unsigned d : {0u, 1u, 2u, 3u})
			v.push_back({Texture::Dimension::Dim1D, w, 1, d});
		for (unsigned h : s)
		{
			for (unsigned d : {0u, 1u, 2u, 3u})
			{
				v.push_back({Texture::Dimension::Dim2D, w, h, d});
				v.push_back({Texture::Dimension::Cube, w, h, d});
			}
			for (unsigned d : {1u, 2u, 3u, 4u, 5u})
				v.push_back({Texture::Dimension::Dim3D, w, h, d});
		}
	}
	return v;
}

const Texture::Alpha alphas[] = {Texture::Alpha::Standard, Texture::Alpha::None,
	Texture::Alpha::PreMultiplied, Texture::Alpha::Encoded};
const char* alphaNames[] = {"standard", "none", "premultiplied", "encoded"};
const char* dimNames[] = {"1D", "2D", "3D", "cube"};

// A value inside every type's range that depends on everything that tells texels apart.
float value(TT type, unsigned surface, unsigned x, unsigned y, unsigned c)
{
	unsigned k = surface*37 + x*11 + y*23 + c*53;
	switch (type)
	{
		case TT::UNorm: return float(k % 61)/60.0f;
		case TT::SNorm: return float(k % 61)/30.0f - 1.0f;
		case TT::UInt: return float(k % 3 == 0 ? k % 97 : k % 251);
		case TT::Int: return float(k % 251) - 125.0f;
		default: return float(k % 251)*0.5f;
	}
}

void body(mc::Ctx& ctx, const Shape& sh, unsigned mips, const Pair& p, ColorSpace cs, unsigned ai,
	bool toFile, unsigned mask = 0)
{
	const Desc& d = *p.d;
	std::string what = mc::fmt("%s %ux%ux%u mips %u %s-%s %s alpha %s%s", dimNames[int(sh.dim)], sh.w,
		sh.h, sh.depth, mips, d.name, typeName(p.type), cs == ColorSpace::sRGB ? "sRGB" : "linear",
		alphaNames[ai], mask ? mc::fmt(" without channels %u", mask).c_str() : "");
	std::string fk = mc::fmt("%s-%s", d.name, typeName(p.type));
	Texture t;
	if (!t.initialize(sh.dim, sh.w, sh.h, sh.depth, mips, cs) || t.mipLevelCount() != mips)
		ctx.fail("initialize", "%s", what.c_str());
	unsigned surface = 0;
	for (unsigned m = 0; m < mips; ++m)
	{
		for (unsigned dp = 0; dp < t.depth(m); ++dp)
		{
			for (unsigned f = 0; f < t.faceCount(); ++f, ++surface)
			{
				bool r = t.setImage(makeImage(t.width(m), t.height(m), cs,
					[&](unsigned x, unsigned y, float* px) {
						for (unsigned c = 0; c < 4; ++c)
							px[c] = value(p.type, surface, x, y, c);
					}), Texture::CubeFace(f), m, dp);
				if (!r)
					ctx.fail("setImage", "%s: mip %u depth %u face %u", what.c_str(), m, dp, f);
			}
		}
	}
	// The channels that are left out only matter to the encoders of compressed formats, as does the
	// quality; what is saved doesn't depend on them.
	if (!t.convert(d.format, p.type, mask ? Texture::Quality::Highest : Texture::Quality::Normal, alphas[ai],
			Texture::ColorMask(!(mask & 1), !(mask & 2), !(mask & 4), !(mask & 8)), 1))
		ctx.fail("convert", "%s", what.c_str());

	bool valid = Texture::isFormatValid(d.format, p.type, FILETYPE);
	std::ostringstream os(std::ios::binary);
	Texture::SaveResult r = t.save(os, FILETYPE);
	std::string s = os.str();
	std::vector<std::uint8_t> bytes(s.begin(), s.end());
	std::vector<std::uint8_t> vec(bytes.size() + 37, 0xAA); // previous contents are replaced
	Texture::SaveResult rv = t.save(vec, FILETYPE);
	ctx.step(2);
	ctx.state(mc::hashStr(what));
	if (rv != r)
		ctx.fail("results-differ", "%s: stream %d, vector %d", what.c_str(), int(r), int(rv));
	if (valid != (r == Texture::SaveResult::Success))
	{
		ctx.fail(fk + ":validity", "%s: format is %svalid for the file type but save gives %d",
			what.c_str(), valid ? "" : "not ", int(r));
	}
	if (r != Texture::SaveResult::Success)
	{
		ctx.count("refused");
		if (r != Texture::SaveResult::Unsupported)
			ctx.fail("refusal", "%s: save gives %d", what.c_str(), int(r));
		if (!bytes.empty())
			ctx.fail("refusal-output", "%s: %zu bytes written", what.c_str(), bytes.size());
		return;
	}
	ctx.count("files decoded");
	if (vec != bytes)
		ctx.fail("vector-differs", "%s: vector of %zu bytes, stream %zu", what.c_str(), vec.size(),
			bytes.size());
	if (toFile)
	{
		std::string dir = mc::scratch(), name = dir + "/t" EXT;
		{
			// An existing longer file has to be replaced as a whole.
			std::ofstream o(name, std::ios::binary);
			o << std::string(bytes.size() + 100, 'x');
		}
		Texture::SaveResult rf = t.save(name.c_str());
		std::ifstream i(name, std::ios::binary);
		std::string got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
		unlink(name.c_str());
		ctx.step();
		if (rf != Texture::SaveResult::Success || got != s)
			ctx.fail("file-differs", "%s: result %d, file of %zu bytes, stream %zu", what.c_str(),
				int(rf), got.size(), s.size());
	}

	File f = READ(bytes);
	if (ctx.verbose())
	{
		ctx.note("%s: %zu bytes", what.c_str(), bytes.size());
		for (std::size_t i = 0; i < bytes.size() && i < 160; i += 16)
		{
			std::string l;
			for (std::size_t j = i; j < i + 16 && j < bytes.size(); ++j)
				l += mc::fmt("%02x ", bytes[j]);
			ctx.note("%04zx: %s", i, l.c_str());
		}
	}
	if (!f.error.empty())
		ctx.fail(fk + ":" + f.error.substr(0, f.error.find_first_of("0123456789:")), "%s: %s",
			what.c_str(), f.error.c_str());
	auto bad = [&](const char* field, long have, long want) {
		ctx.fail(mc::fmt("%s:%s", fk.c_str(), field), "%s: file says %s %ld, texture %ld",
			what.c_str(), field, have, want);
	};
	bool is3d = sh.dim == Texture::Dimension::Dim3D;
	compareShape(f, FILETYPE == Texture::FileType::PVR, sh.dim, sh.w, sh.h, sh.depth, mips, cs, alphas[ai], d.hasAlpha,
		bad);
	if (!f.block.empty())
		ctx.fail(fk + ":compressed", "%s: the file says %s", what.c_str(), f.block[0]->name);
	if (f.type != p.type)
		bad("type", int(f.type), int(p.type));
	if (f.kind != d.kind)
		bad("kind", f.kind, d.kind);
	if (f.bytes != d.bytes)
		bad("texel-size", f.bytes, d.bytes);
	for (const Chan& c : d.chans)
	{
		bool found = false;
		for (const Chan& e : f.chans)
			found = found || (e.ch == c.ch && e.bits == c.bits && e.shift == c.shift);
		if (!found || f.chans.size() != d.chans.size())
			ctx.fail(fk + ":channels", "%s: the file does not describe channel %c with %d bits at %d",
				what.c_str(), "rgba"[c.ch], c.bits, c.shift);
	}

	// Payload: the texture's surfaces, and the values of the source images.
	std::vector<std::size_t> first(mips, 0);
	for (unsigned m = 1; m < mips; ++m)
		first[m] = first[m - 1] + std::size_t(t.depth(m - 1))*t.faceCount();
	for (const File::Surface& sf : f.surfaces)
	{
		unsigned index = is3d ? sf.slice : sf.layer;
		unsigned w = mipSize(sh.w, sf.mip), h = mipSize(sh.h, sf.mip);
		auto face = Texture::CubeFace(sf.face);
		const std::uint8_t* data = static_cast<const std::uint8_t*>(t.data(face, sf.mip, index));
		std::size_t row = std::size_t(w)*d.bytes;
		if (!data || t.dataSize(face, sf.mip, index) != row*h)
			ctx.fail("surface-size", "%s: mip %u depth %u face %u", what.c_str(), sf.mip, index, sf.face);
		unsigned id = unsigned(first[sf.mip]) + index*t.faceCount() + sf.face;
		for (unsigned y = 0; y < h; ++y)
		{
			const std::uint8_t* line = bytes.data() + sf.offset + y*sf.pitch;
			if (memcmp(line, data + y*row, row) != 0)
			{
				ctx.fail(fk + ":payload", "%s: mip %u depth %u face %u row %u is not the texture's",
					what.c_str(), sf.mip, index, sf.face, y);
			}
			for (std::size_t i = row; i < sf.pitch; ++i)
			{
				if (line[i] != 0)
					ctx.fail("padding", "%s: padding byte is 0x%02x", what.c_str(), line[i]);
			}
			if (d.kind == E5999)
				continue;
			for (unsigned x = 0; x < w; ++x)
			{
				for (const Chan& c : f.chans)
				{
					double v = value(p.type, id, x, y, unsigned(c.ch));
					std::uint64_t raw = rawBits(line + std::size_t(x)*d.bytes, c);
					if (const char* e = checkChannel(d, f.type, c, raw, float(v)))
					{
						ctx.fail(fk + ":decoded-" + e,
							"%s: mip %u depth %u face %u (%u,%u) %c: 0x%llx for %g", what.c_str(),
							sf.mip, index, sf.face, x, y, "rgba"[c.ch], (unsigned long long)raw, v);
					}
				}
			}
		}
	}
	ctx.step(f.surfaces.size());
	if (ctx.wantSample())
		ctx.sample(what + mc::fmt(": %zu bytes, %zu surfaces", bytes.size(), f.surfaces.size()));
}

bool srgbCapable(const Pair& p)
{
	switch (p.d->format)
	{
		case TF::R8G8B8: case TF::B8G8R8: case TF::R8G8B8A8: case TF::B8G8R8A8: case TF::A8B8G8R8:
			return p.type == TT::UNorm;
		default:
			return false;
	}
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = PROPERTY;
	spec.rule = "every shape (dimension x width x height x depth) is a case; inside it every mip count, "
		"format/type pair, colour space, alpha kind (and, for the small shapes, channels left out or not) is enumerated; each texture is converted, saved "
		"to a stream, a vector (and a file) and decoded with an independent reader; large: 13 shapes with "
		"sizes, layers and depths up to 65537";
	spec.assumptions = {"the readers in src/container.h follow the published layouts",
		"uncompressed formats only: the compressed encoders are not part of this build"};
	std::vector<Shape> quick = shapes(false), thorough = shapes(true);
	auto list = [=](bool th) -> const std::vector<Shape>& { return th ? thorough : quick; };
	mc::Family fam;
	fam.name = "shapes";
	fam.cases = [=](bool th) { return list(th).size(); };
	fam.body = [=](mc::Ctx& ctx, std::size_t i) {
		const Shape& sh = list(ctx.thorough())[i];
		unsigned maxMips = 1;
		for (unsigned s = std::max(std::max(sh.w, sh.h), sh.dim == Texture::Dimension::Dim3D ?
			sh.depth : 1); s > 1; s >>= 1)
			++maxMips;
		unsigned mips = 1 + ctx.choose(maxMips);
		const Pair& p = pairs()[ctx.choose(unsigned(pairs().size()))];
		ColorSpace cs = srgbCapable(p) && ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
		bool full = ctx.thorough() || (sh.w <= 3 && sh.h <= 3);
		unsigned ai = full ? ctx.choose(4) : 0;
		unsigned mask = 0;
		if (full && ctx.choose(2))
			mask = ai % 2 == 0 ? 8 : 1 + (unsigned(i) + mips) % 15;
		body(ctx, sh, mips, p, cs, ai, sh.w <= 2 && sh.h <= 2, mask);
	};
	spec.families.push_back(fam);
	// Sizes, layer counts, depths and level counts beyond one and two bytes.
	typedef Texture::Dimension TD;
	static const Shape large[] = {{TD::Dim2D, 257, 259, 0}, {TD::Dim2D, 4099, 3, 0}, {TD::Dim2D, 3, 4099, 2},
		{TD::Dim1D, 65537, 1, 0}, {TD::Dim1D, 3, 1, 300}, {TD::Dim2D, 2, 3, 300}, {TD::Dim2D, 1, 1, 65537},
		{TD::Cube, 1, 1, 70}, {TD::Cube, 130, 130, 0}, {TD::Dim3D, 3, 2, 300}, {TD::Dim3D, 1, 1, 4097},
		{TD::Dim3D, 17, 66, 34}, {TD::Dim2D, 1, 65537, 0}, {TD::Dim2D, 1031, 1033, 0}, {TD::Cube, 421, 421, 0}};
	mc::Family lf;
	lf.name = "large";
	lf.cases = [](bool) { return sizeof(large)/sizeof(*large)*pairs().size(); };
	lf.body = [](mc::Ctx& ctx, std::size_t i) {
		const Shape& sh = large[i/pairs().size()];
		const Pair& p = pairs()[i % pairs().size()];
		// A million pixels in some of the formats only.
		bool huge = sh.w > 400 && sh.h > 400;
		if (huge && !ctx.thorough() && i % 5 != 0)
			return;
		unsigned maxMips = 1;
		for (unsigned s = std::max(std::max(sh.w, sh.h), sh.dim == TD::Dim3D ? sh.depth : 1); s > 1; s >>= 1)
			++maxMips;
		unsigned which = ctx.choose(huge ? 2 : 3);
		unsigned mips = which == 0 ? 1 : which == 1 ? maxMips : maxMips/2 + 1;
		ColorSpace cs = srgbCapable(p) && ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
		body(ctx, sh, mips, p, cs, 0, false);
	};
	spec.families.push_back(lf);
	return mc::run(argc, argv, spec);
}
