// C20: the format support queries against what conversion and saving really do, over the complete
// product of formats, types, file types, colour spaces, dimensions and alpha kinds (including values
// outside the enumerations), and against an independent table of block layouts.
#include "blocks.h"
#include <fstream>
#include <iterator>
#include <sstream>
#include <strings.h>
#include <unistd.h>
using namespace tex;

namespace
{

typedef Texture::Dimension D;
typedef Texture::FileType FT;
const char* dimNames[] = {"1D", "2D", "3D", "cube"};
const char* fileNames[] = {"auto", "dds", "ktx", "pvr"};

struct Block { TF format; const char* name; unsigned w, h, size; int srgb; bool alpha; };
const Block blocks[] = {
	{TF::BC1_RGB, "BC1_RGB", 4, 4, 8, 1, false}, {TF::BC1_RGBA, "BC1_RGBA", 4, 4, 8, 1, true},
	{TF::BC2, "BC2", 4, 4, 16, 1, true}, {TF::BC3, "BC3", 4, 4, 16, 1, true},
	{TF::BC4, "BC4", 4, 4, 8, 0, false}, {TF::BC5, "BC5", 4, 4, 16, 0, false},
	{TF::BC6H, "BC6H", 4, 4, 16, 0, false}, {TF::BC7, "BC7", 4, 4, 16, 1, true},
	{TF::ETC1, "ETC1", 4, 4, 8, 0, false}, {TF::ETC2_R8G8B8, "ETC2_R8G8B8", 4, 4, 8, 1, false},
	{TF::ETC2_R8G8B8A1, "ETC2_R8G8B8A1", 4, 4, 8, 1, true},
	{TF::ETC2_R8G8B8A8, "ETC2_R8G8B8A8", 4, 4, 16, 1, true},
	{TF::EAC_R11, "EAC_R11", 4, 4, 8, 0, false}, {TF::EAC_R11G11, "EAC_R11G11", 4, 4, 16, 0, false},
#define ASTC(a, b) {TF::ASTC_##a##x##b, "ASTC_" #a "x" #b, a, b, 16, 1, true}
	ASTC(4, 4), ASTC(5, 4), ASTC(5, 5), ASTC(6, 5), ASTC(6, 6), ASTC(8, 5), ASTC(8, 6), ASTC(8, 8),
	ASTC(10, 5), ASTC(10, 6), ASTC(10, 8), ASTC(10, 10), ASTC(12, 10), ASTC(12, 12),
	{TF::PVRTC1_RGB_2BPP, "PVRTC1_RGB_2BPP", 8, 4, 8, 1, false},
	{TF::PVRTC1_RGBA_2BPP, "PVRTC1_RGBA_2BPP", 8, 4, 8, 1, true},
	{TF::PVRTC1_RGB_4BPP, "PVRTC1_RGB_4BPP", 4, 4, 8, 1, false},
	{TF::PVRTC1_RGBA_4BPP, "PVRTC1_RGBA_4BPP", 4, 4, 8, 1, true},
	{TF::PVRTC2_RGBA_2BPP, "PVRTC2_RGBA_2BPP", 8, 4, 8, 1, true},
	{TF::PVRTC2_RGBA_4BPP, "PVRTC2_RGBA_4BPP", 4, 4, 8, 1, true},
};

const Desc* plain(int f)
{
	for (const Desc& d : formats())
	{
		if (int(d.format) == f)
			return &d;
	}
	return nullptr;
}
const Block* compressed(int f)
{
	for (const Block& b : blocks)
	{
		if (int(b.format) == f)
			return &b;
	}
	return nullptr;
}

// Built with the (stand-in) encoders, or without any?
#ifdef CUTTLEFISH_HAS_S3TC
const bool encoders = true;
#else
const bool encoders = false;
#endif
bool typeOf(int f, TT t)
{
	for (const blk::Block& b : blk::blocks())
	{
		if (encoders && int(b.format) == f && b.type == t)
			return true;
	}
	return false;
}

std::vector<int> formatValues()
{
	std::vector<int> v;
	for (int i = -3; i <= int(TF::PVRTC2_RGBA_4BPP) + 8; ++i)
		v.push_back(i);
	for (int i : {64, 127, 128, 255, 256, 257, 1 << 16, 1 << 30, -128, -(1 << 30), 0x7FFFFFFF})
		v.push_back(i);
	return v;
}
const int typeValues[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, 255, 256, 1 << 30, -(1 << 30)};
const int fileValues[] = {1, 2, 3, 0, 4, 5, -1, 256, 257};

std::string typeStr(int t) { return t >= 0 && t < 6 ? typeName(TT(t)) : mc::fmt("type %d", t); }
std::string fileStr(int t) { return t >= 0 && t < 4 ? fileNames[t] : mc::fmt("file type %d", t); }

bool srgbFormat(int f, int t)
{
	if (t != int(TT::UNorm))
		return false;
	if (const Block* b = compressed(f))
		return b->srgb == 1;
	switch (TF(f))
	{
		case TF::R8G8B8: case TF::B8G8R8: case TF::R8G8B8A8: case TF::B8G8R8A8: case TF::A8B8G8R8:
			return true;
		default:
			return false;
	}
}

struct Shape { D dim; unsigned w, h, d, mips; };
const Shape shapes[] = {
	{D::Dim2D, 5, 3, 0, 2}, {D::Dim1D, 5, 1, 0, 1}, {D::Dim1D, 3, 1, 2, 2}, {D::Dim2D, 4, 4, 3, 1},
	{D::Dim3D, 3, 2, 3, 1}, {D::Dim3D, 4, 4, 4, 3}, {D::Cube, 4, 4, 0, 1}, {D::Cube, 2, 2, 2, 2},
};

Texture texture(const Shape& s, ColorSpace cs, float alpha = 0.75f)
{
	Texture t(s.dim, s.w, s.h, s.d, s.mips, cs);
	for (unsigned m = 0; m < s.mips; ++m)
	{
		Image i = makeImage(t.width(m), t.height(m), cs, [&](unsigned x, unsigned y, float* p) {
			p[0] = 0.25f + 0.01f*float(x);
			p[1] = 0.5f;
			p[2] = 0.75f - 0.01f*float(y);
			p[3] = alpha;
		});
		for (unsigned d = 0; d < t.depth(m); ++d)
		{
			for (unsigned f = 0; f < t.faceCount(); ++f)
				t.setImage(i, Texture::CubeFace(f), m, d);
		}
	}
	return t;
}

void queries(mc::Ctx& ctx, std::size_t index)
{
	int f = formatValues()[index];
	const Desc* d = plain(f);
	const Block* b = compressed(f);
	std::string name = d ? d->name : b ? b->name : mc::fmt("format %d", f);
	TF format = TF(f);
	auto chk = [&](const char* what, unsigned have, unsigned want) {
		ctx.step();
		if (have != want)
			ctx.fail(mc::fmt("%s:%s", name.c_str(), what), "%s(%s) is %u, expected %u", what,
				name.c_str(), have, want);
	};
	chk("hasAlpha", Texture::hasAlpha(format), d ? d->hasAlpha : b ? b->alpha : 0);
	chk("blockWidth", Texture::blockWidth(format), d ? 1 : b ? b->w : 0);
	chk("blockHeight", Texture::blockHeight(format), d ? 1 : b ? b->h : 0);
	chk("blockSize", Texture::blockSize(format), d ? unsigned(d->bytes) : b ? b->size : 0);
	unsigned mw = Texture::minWidth(format), mh = Texture::minHeight(format);
	if (b)
	{
		if (mw < b->w || mw % b->w || mh < b->h || mh % b->h)
			ctx.fail(name + ":min", "%s: minimum size %ux%u with blocks of %ux%u", name.c_str(), mw, mh,
				b->w, b->h);
		if (f < int(TF::PVRTC1_RGB_2BPP))
		{
			chk("minWidth", mw, b->w);
			chk("minHeight", mh, b->h);
		}
	}
	else
	{
		chk("minWidth", mw, d ? 1 : 0);
		chk("minHeight", mh, d ? 1 : 0);
	}
	for (int tv : typeValues)
	{
		TT type = TT(tv);
		bool want = typeOf(f, type);
		if (d)
		{
			for (TT t : d->types)
				want = want || t == type;
		}
		chk(mc::fmt("isFormatValid-%s", typeStr(tv).c_str()).c_str(),
			Texture::isFormatValid(format, type), want);
		if (want || b)
			chk(mc::fmt("hasNativeSRGB-%s", typeStr(tv).c_str()).c_str(),
				Texture::hasNativeSRGB(format, type), srgbFormat(f, tv));
		ctx.state(mc::mix(mc::mix(1, unsigned(f)), unsigned(tv)));
	}
}

void behaviour(mc::Ctx& ctx, std::size_t index)
{
	int f = formatValues()[index];
	const Desc* d = plain(f);
	const Block* b = compressed(f);
	std::string name = d ? d->name : b ? b->name : mc::fmt("format %d", f);
	TF format = TF(f);
	for (int tv : typeValues)
	{
		TT type = TT(tv);
		bool valid = Texture::isFormatValid(format, type);
		for (const Shape& s : shapes)
		{
			for (ColorSpace cs : {ColorSpace::Linear, ColorSpace::sRGB})
			{
				Texture t = texture(s, cs);
				std::string what = mc::fmt("%s %s, %s %ux%ux%u mips %u %s", name.c_str(),
					typeStr(tv).c_str(), dimNames[int(s.dim)], s.w, s.h, s.d, s.mips,
					cs == ColorSpace::sRGB ? "sRGB" : "linear");
				bool want = valid &&
					(cs == ColorSpace::Linear || Texture::hasNativeSRGB(format, type));
				bool have = t.convert(format, type, Texture::Quality::Lowest, Texture::Alpha::Standard,
					Texture::ColorMask(), 1);
				ctx.step();
				if (want != have || t.converted() != have)
				{
					ctx.fail(mc::fmt("%s-%s:convert", name.c_str(), typeStr(tv).c_str()),
						"%s: queries say %d, convert returns %d, converted() %d", what.c_str(), want, have,
						t.converted());
				}
				if (!have)
				{
					if (t.format() != TF::Unknown || t.data(Texture::CubeFace::PosX))
						ctx.fail("refused-convert", "%s: data or format after a refused conversion",
							what.c_str());
					continue;
				}
				ctx.count("conversions");
				for (unsigned m = 0; m < s.mips; ++m)
				{
					std::size_t bw = (t.width(m) + Texture::blockWidth(format) - 1)/
						Texture::blockWidth(format);
					std::size_t bh = (t.height(m) + Texture::blockHeight(format) - 1)/
						Texture::blockHeight(format);
					// The smallest sizes of PVRTC are its encoder's.
					if (f >= int(TF::PVRTC1_RGB_2BPP))
						continue;
					if (t.dataSize(Texture::CubeFace::PosX, m) != bw*bh*Texture::blockSize(format))
						ctx.fail(name + ":size", "%s: mip %u has %zu bytes", what.c_str(), m,
							t.dataSize(Texture::CubeFace::PosX, m));
				}
				for (int fv : fileValues)
				{
					FT file = FT(fv);
					bool says = Texture::isFormatValid(format, type, file);
					std::ostringstream os(std::ios::binary);
					Texture::SaveResult r = t.save(os, file);
					ctx.step();
					bool ok = r == Texture::SaveResult::Success;
					if (says != ok)
					{
						ctx.fail(mc::fmt("%s-%s:%s", name.c_str(), typeStr(tv).c_str(),
							fileStr(fv).c_str()), "%s: isFormatValid for %s says %d, save gives %d",
							what.c_str(), fileStr(fv).c_str(), says, int(r));
					}
					if (fv < 1 || fv > 3)
					{
						if (r != Texture::SaveResult::UnknownFormat)
							ctx.fail("unknown-file", "%s: saving as %s gives %d", what.c_str(),
								fileStr(fv).c_str(), int(r));
					}
					else if (!ok && r != Texture::SaveResult::Unsupported)
						ctx.fail("unsupported-file", "%s: saving as %s gives %d", what.c_str(),
							fileStr(fv).c_str(), int(r));
					if (ok == os.str().empty())
						ctx.fail("file-bytes", "%s: saving as %s gives %d and %zu bytes", what.c_str(),
							fileStr(fv).c_str(), int(r), os.str().size());
					ctx.count(ok ? "saves" : "refused saves");
				}
				// Without conversion nothing is valid for a file type.
				if (cs == ColorSpace::Linear && s.dim == D::Dim2D && !b)
				{
					// The alpha channel is stored exactly if the format has one.
					Texture a = texture(s, cs, 0.0f), e = texture(s, cs, 1.0f);
					a.convert(format, type, Texture::Quality::Lowest);
					e.convert(format, type, Texture::Quality::Lowest);
					bool differ = memcmp(a.data(), e.data(), a.dataSize()) != 0;
					if (differ != Texture::hasAlpha(format))
						ctx.fail(name + ":hasAlpha", "%s: hasAlpha() is %d but alpha %s the data",
							what.c_str(), Texture::hasAlpha(format), differ ? "changes" : "does not change");
				}
				ctx.state(mc::hashStr(what));
			}
		}
		if (!valid)
		{
			for (int fv : fileValues)
			{
				ctx.step();
				if (Texture::isFormatValid(format, type, FT(fv)))
					ctx.fail(name + ":file-only", "%s %s is invalid but valid for %s", name.c_str(),
						typeStr(tv).c_str(), fileStr(fv).c_str());
			}
		}
	}
	if (ctx.wantSample())
		ctx.sample(mc::fmt("%s: every type, shape, colour space and file type", name.c_str()));
}

// --- file names ---
const char alphabet[] = ".dDsSkKtTxXpPvVrR/a ";
const unsigned letters = sizeof(alphabet) - 1;
FT wanted(const std::string& n)
{
	if (n.size() < 4)
		return FT::Auto;
	std::string e = n.substr(n.size() - 4);
	for (char& c : e)
	{
		if (c >= 'A' && c <= 'Z')
			c = char(c + 32);
	}
	return e == ".dds" ? FT::DDS : e == ".ktx" ? FT::KTX : e == ".pvr" ? FT::PVR : FT::Auto;
}

void names(mc::Ctx& ctx, std::size_t index)
{
	// index fixes the first letter; every completion up to the length is enumerated.
	unsigned len = ctx.thorough() ? 6 : 5;
	static const char* prefixes[] = {"", "a", "dir.dds/", "x.ktx", "/long/name with spaces/t.pvr.",
		".", "\xc3\xa9"};
	std::string s;
	unsigned long n = 0;
	for (unsigned l = 0; l < len; ++l)
	{
		std::size_t total = 1;
		for (unsigned i = 0; i < l; ++i)
			total *= letters;
		for (std::size_t k = 0; k < total; ++k)
		{
			s.assign(1, alphabet[index]);
			std::size_t v = k;
			for (unsigned i = 0; i < l; ++i, v /= letters)
				s += alphabet[v % letters];
			for (const char* p : prefixes)
			{
				if (*p && l + 1 > 4)
					continue;
				std::string name = p + s;
				FT have = Texture::fileType(name.c_str());
				++n;
				if (have != wanted(name))
					ctx.fail("fileType", "fileType(\"%s\") is %s", name.c_str(),
						fileStr(int(have)).c_str());
			}
		}
	}
	if (index == 0)
	{
		if (Texture::fileType("") != FT::Auto)
			ctx.fail("fileType", "fileType of the empty string");
		for (int a = 1; a < 256; ++a)
		{
			// Every byte at every position of the extension.
			for (const char* ext : {".dds", ".ktx", ".pvr"})
			{
				for (unsigned p = 0; p < 5; ++p)
				{
					std::string name = std::string("n") + ext + " ";
					name.resize(5);
					name[p] = char(a);
					++n;
					if (Texture::fileType(name.c_str()) != wanted(name))
						ctx.fail("fileType", "fileType(\"%s\") (byte 0x%02x)", name.c_str(), a);
				}
			}
		}
	}
	ctx.step(n);
	ctx.count("file names", n);
	ctx.state(index + 1);
}

// Saving to a file with an automatic type uses the name's type, an explicit type overrides it.
void automatic(mc::Ctx& ctx, std::size_t index)
{
	static const char* exts[] = {".dds", ".DDS", ".ktx", ".KtX", ".pvr", ".pVR", ".txt", "", ".dds.ktx",
		".pvr.dds", ".ktx ", ".dd"};
	std::string name = mc::scratch() + "/t" + exts[index];
	Texture t = texture(shapes[0], ColorSpace::Linear);
	t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Lowest);
	for (int fv : {0, 1, 2, 3})
	{
		FT eff = fv ? FT(fv) : wanted(name);
		unlink(name.c_str());
		Texture::SaveResult r = t.save(name.c_str(), FT(fv));
		std::ifstream i(name, std::ios::binary);
		std::string got((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
		std::ostringstream os(std::ios::binary);
		Texture::SaveResult w = t.save(os, eff);
		unlink(name.c_str());
		ctx.step();
		ctx.state(mc::mix(index, unsigned(fv)));
		if (r != w || (r == Texture::SaveResult::Success && got != os.str()))
		{
			ctx.fail("auto", "saving to t%s as %s gives %d and %zu bytes; to a stream as %s %d and %zu",
				exts[index], fileStr(fv).c_str(), int(r), got.size(), fileStr(int(eff)).c_str(), int(w),
				os.str().size());
		}
	}
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C20";
	spec.rule = "every format value (all enumerators and values outside the enumeration) x every type "
		"value x 8 texture shapes x both colour spaces x every file type is converted and saved, and "
		"compared with every query; every file name over a 20-letter alphabet up to length 5 (6)";
	spec.assumptions = {"formats of encoders that are not part of the build are valid for nothing",
		"with encoders, these are stand-ins (shim/codecs), which decide nothing that is asked here",
		"the block sizes of compressed formats are those of their specifications"};
	spec.families = {
		{"queries", [](bool) { return formatValues().size(); }, queries},
		{"behaviour", [](bool) { return formatValues().size(); }, behaviour},
		{"names", [](bool) { return std::size_t(letters); }, names},
		{"automatic", [](bool) { return std::size_t(12); }, automatic},
	};
	return mc::run(argc, argv, spec);
}
