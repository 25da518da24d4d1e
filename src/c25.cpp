// C25: block-compressed textures in DDS, KTX and PVR files decode, with independent readers, to exactly the
// texture. The encoders are stand-ins (shim/codecs) whose blocks tell their surfaces and places apart.
#include "container.h"
#include <stand_in.h>
#include <sstream>
#include <map>

using namespace cont;
using blk::Block;

namespace
{

typedef Texture::Dimension D;
typedef Texture::FileType FT;

struct Shape { D dim; unsigned w, h, depth; };

// Sizes around multiples of the blocks of all formats.
std::vector<Shape> shapes(bool thorough)
{
	std::vector<Shape> v;
	std::vector<unsigned> s{1, 4, 5, 8, 13};
	if (thorough)
		s = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 25, 33};
	for (unsigned w : s)
	{
		for (unsigned d : {0u, 1u, 2u, 3u})
			v.push_back({D::Dim1D, w, 1, d});
		for (unsigned h : s)
		{
			for (unsigned d : {0u, 1u, 2u, 3u})
			{
				v.push_back({D::Dim2D, w, h, d});
				if (w == h)
					v.push_back({D::Cube, w, h, d});
			}
			for (unsigned d : {1u, 2u, 3u, 5u})
				v.push_back({D::Dim3D, w, h, d});
		}
	}
	return v;
}
std::vector<Shape> largeShapes()
{
	return {{D::Dim2D, 1030, 515, 0}, {D::Dim2D, 65541, 3, 0}, {D::Dim2D, 3, 65541, 2}, {D::Dim1D, 5, 1, 300},
		{D::Dim2D, 5, 7, 300}, {D::Cube, 9, 9, 70}, {D::Dim3D, 5, 13, 300}, {D::Dim3D, 70, 33, 40}};
}

const Texture::Alpha alphas[] = {Texture::Alpha::Standard, Texture::Alpha::None,
	Texture::Alpha::PreMultiplied, Texture::Alpha::Encoded};
const char* alphaNames[] = {"standard", "none", "premultiplied", "encoded"};
const char* dimNames[] = {"1D", "2D", "3D", "cube"};
const struct { FT type; const char* name; File (*read)(const std::vector<std::uint8_t>&); } files[] = {
	{FT::DDS, "DDS", readDds}, {FT::KTX, "KTX", readKtx}, {FT::PVR, "PVR", readPvr}};

unsigned maxMips(const Shape& s)
{
	unsigned n = 1;
	for (unsigned k = std::max(std::max(s.w, s.h), s.dim == D::Dim3D ? s.depth : 1); k > 1; k >>= 1)
		++n;
	return n;
}

void body(mc::Ctx& ctx, const Shape& sh, unsigned mips, const Block& b, ColorSpace cs, unsigned ai)
{
	std::string what = mc::fmt("%s %ux%ux%u mips %u %s %s alpha %s", dimNames[int(sh.dim)], sh.w, sh.h, sh.depth, mips,
		blk::blockName(b).c_str(), cs == ColorSpace::sRGB ? "sRGB" : "linear", alphaNames[ai]);
	Texture t;
	if (!t.initialize(sh.dim, sh.w, sh.h, sh.depth, mips, cs) || t.mipLevelCount() != mips)
		ctx.fail("initialize", "%s", what.c_str());
	unsigned surface = 0;
	float scale = b.type == TT::UFloat || b.type == TT::Float ? 4.0f : 1.0f;
	for (unsigned m = 0; m < mips; ++m)
		for (unsigned dp = 0; dp < t.depth(m); ++dp)
			for (unsigned f = 0; f < t.faceCount(); ++f, ++surface)
			{
				bool r = t.setImage(makeImage(t.width(m), t.height(m), cs, [&](unsigned x, unsigned y, float* px) {
					px[0] = float((x*3 + y*17 + surface*5) % 251)/250.0f*scale;
					px[1] = float((x*7 + y*5 + surface*11) % 241)/240.0f*scale;
					px[2] = float((x + y*2 + surface) % 239)/238.0f*scale;
					px[3] = 1.0f;
				}), Texture::CubeFace(f), m, dp);
				if (!r)
					ctx.fail("setImage", "%s: mip %u depth %u face %u", what.c_str(), m, dp, f);
			}
	if (!t.convert(b.format, b.type, Texture::Quality::Lowest, alphas[ai], Texture::ColorMask(), 1))
		ctx.fail(blk::blockName(b) + ":convert", "%s", what.c_str());
	ctx.state(mc::hashStr(what));

	for (auto& file : files)
	{
		std::string fk = mc::fmt("%s:%s", file.name, blk::blockName(b).c_str());
		const std::uint32_t code = file.type == FT::DDS ? b.dxgi[cs == ColorSpace::sRGB] :
			file.type == FT::KTX ? b.gl[cs == ColorSpace::sRGB] : 1;
		std::ostringstream os(std::ios::binary);
		Texture::SaveResult r = t.save(os, file.type);
		std::string s = os.str();
		std::vector<std::uint8_t> bytes(s.begin(), s.end()), vec(bytes.size() + 37, 0xAA);
		Texture::SaveResult rv = t.save(vec, file.type);
		ctx.step(2);
		if (rv != r)
			ctx.fail(fk + ":results-differ", "%s: stream %d, vector %d", what.c_str(), int(r), int(rv));
		if ((r == Texture::SaveResult::Success) != (code != 0))
			ctx.fail(fk + ":validity", "%s: save gives %d", what.c_str(), int(r));
		if (r != Texture::SaveResult::Success)
		{
			ctx.count("refused");
			if (r != Texture::SaveResult::Unsupported || !bytes.empty())
				ctx.fail(fk + ":refusal", "%s: save gives %d and %zu bytes", what.c_str(), int(r), bytes.size());
			continue;
		}
		ctx.count("files decoded");
		if (vec != bytes)
			ctx.fail(fk + ":vector-differs", "%s: vector of %zu bytes, stream %zu", what.c_str(), vec.size(), bytes.size());
		File f = file.read(bytes);
		if (ctx.verbose())
		{
			ctx.note("%s %s: %zu bytes", file.name, what.c_str(), bytes.size());
			for (std::size_t i = 0; i < bytes.size() && i < 160; i += 16)
			{
				std::string l;
				for (std::size_t j = i; j < i + 16 && j < bytes.size(); ++j)
					l += mc::fmt("%02x ", bytes[j]);
				ctx.note("%04zx: %s", i, l.c_str());
			}
		}
		if (!f.error.empty())
		{
			ctx.fail(fk + ":" + f.error.substr(0, f.error.find_first_of("0123456789:")), "%s: %s", what.c_str(),
				f.error.c_str());
		}
		bool same = false;
		for (const Block* e : f.block)
			same = same || e == &b;
		if (!same)
			ctx.fail(fk + ":format", "%s: the file says %s", what.c_str(), f.block.empty() ? "uncompressed" : f.block[0]->name);
		if (f.bc1Alpha >= 0 && (f.bc1Alpha == 1) != (b.format == TF::BC1_RGBA))
			ctx.fail(fk + ":bc1-alpha", "%s: the file says %d", what.c_str(), f.bc1Alpha);
		if (file.type == FT::PVR && (f.bc1Alpha >= 0) != (b.format == TF::BC1_RGBA || b.format == TF::BC1_RGB))
			ctx.fail(fk + ":bc1-alpha", "%s: the file says %d", what.c_str(), f.bc1Alpha);
		compareShape(f, file.type == FT::PVR, sh.dim, sh.w, sh.h, sh.depth, mips, cs, alphas[ai], b.alpha,
			[&](const char* field, long have, long want) {
				ctx.fail(fk + ":" + field, "%s: file says %s %ld, texture %ld", what.c_str(), field, have, want);
			});
		bool is3d = sh.dim == D::Dim3D;
		for (const File::Surface& sf : f.surfaces)
		{
			unsigned index = is3d ? sf.slice : sf.layer;
			auto face = Texture::CubeFace(sf.face);
			const void* data = t.data(face, sf.mip, index);
			std::size_t size = sf.pitch*sf.rows;
			if (!data || t.dataSize(face, sf.mip, index) != size)
				ctx.fail(fk + ":surface-size", "%s: mip %u depth %u face %u", what.c_str(), sf.mip, index, sf.face);
			if (memcmp(bytes.data() + sf.offset, data, size) != 0)
			{
				ctx.fail(fk + ":payload", "%s: mip %u depth %u face %u is not the texture's", what.c_str(), sf.mip, index,
					sf.face);
			}
		}
		ctx.step(f.surfaces.size());
		if (ctx.wantSample())
			ctx.sample(mc::fmt("%s %s: %zu bytes, %zu surfaces", file.name, what.c_str(), bytes.size(), f.surfaces.size()));
	}
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C25";
	spec.rule = "every shape (dimension x width x height x depth) x format/type pair is a case; inside it every mip count, "
		"colour space and alpha kind; each texture is converted, saved to a stream and a vector in each of the three file "
		"types and decoded with independent readers; large: 8 shapes with sizes, layers and depths beyond one and two bytes";
	spec.assumptions = {"the readers in src/container.h and the codes in src/blocks.h follow the published layouts",
		"the encoders are stand-ins, whose blocks only tell surfaces and places apart"};
	static const std::vector<Shape> quick = shapes(false), thorough = shapes(true), large = largeShapes();
	std::size_t n = blk::blocks().size();
	mc::Family f;
	f.name = "shapes";
	f.cases = [=](bool th) { return (th ? thorough : quick).size()*n; };
	f.body = [=](mc::Ctx& ctx, std::size_t i) {
		const Shape& sh = (ctx.thorough() ? thorough : quick)[i/n];
		const Block& b = blk::blocks()[i % n];
		unsigned mips = 1 + ctx.choose(maxMips(sh));
		ColorSpace cs = b.srgb && ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
		body(ctx, sh, mips, b, cs, ctx.choose(4));
	};
	spec.families.push_back(f);
	mc::Family l;
	l.name = "large";
	l.cases = [=](bool) { return large.size()*n; };
	l.body = [=](mc::Ctx& ctx, std::size_t i) {
		const Shape& sh = large[i/n];
		const Block& b = blk::blocks()[i % n];
		unsigned mips = ctx.choose(2) ? maxMips(sh) : 1;
		ColorSpace cs = b.srgb && ctx.choose(2) ? ColorSpace::sRGB : ColorSpace::Linear;
		body(ctx, sh, mips, b, cs, 0);
	};
	spec.families.push_back(l);
	return mc::run(argc, argv, spec);
}
