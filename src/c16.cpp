// C16: the tool against the documented pipeline, byte for byte, and under input and output faults.
//
// The tool's whole main function runs in process for every member of the stated option products; the
// bytes it leaves are compared with those of the documented operations applied with the library.
#include "corpus.h"
#include "img.h"
#include "blocks.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <ftw.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace cuttlefish;
typedef std::string S;
typedef std::vector<S> Words;
typedef Image::ResizeFilter RF;
typedef Texture::CubeFace Face;
typedef Texture::Dimension Dim;

int cuttlefish_tool_main(int argc, const char** argv);

namespace
{

const RF filters[] = {RF::CatmullRom, RF::Box, RF::Linear, RF::Cubic, RF::BSpline};
const char* filterNames[] = {"catmull-rom", "box", "linear", "cubic", "b-spline"};
const char* faceNames[] = {"+x", "-x", "+y", "-y", "+z", "-z"};

enum Kind { OneImage, Array, Volume, Cube, CubeArray, Line, LineArray, FlatVolume, kindCount };
const char* kindNames[] = {"image", "array", "volume", "cube", "cube array", "line", "line array",
	"volume of one"};

struct Custom { unsigned level, depth, face; bool once; S file; };

struct Job
{
	Kind kind = OneImage;
	std::vector<S> inputs;
	S w = "", h = "";
	int resizeFilter = 0; // index into filters
	bool resize = false;
	int turns = 0;
	bool gray = false, normal = false, flipX = false, flipY = false, premul = false, srgb = false;
	unsigned wrap = 0; // 1: x, 2: y
	double height = 1;
	S swizzle;
	unsigned mips = 1; // 0: all
	int mipFilter = 0;
	std::vector<Custom> customs;
	const tex::Desc* format = nullptr;
	tex::TT type = tex::TT::UNorm;
	int alpha = -1;
	int quality = -1;
	int jobs = -1;
	int log = 0;
	S output = "out.ktx";
	int file = 0; // as a --file-format
	bool create = false;
	bool shuffled = false; // options first, inputs last
};

const char* typeNames[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
const char* fileNames[] = {"", "dds", "ktx", "pvr"};

Words line(const Job& j)
{
	Words in, w;
	auto add = [](Words& l, std::initializer_list<S> a) { l.insert(l.end(), a); };
	switch (j.kind)
	{
		case OneImage: case Line:
			add(in, {"-i", j.inputs[0]});
			break;
		case Array: case Volume: case LineArray: case FlatVolume:
			for (std::size_t k = j.inputs.size(); k-- > 0;)
				add(in, {"-a", mc::fmt("%zu", k), j.inputs[k]});
			break;
		case Cube:
			for (unsigned k = 0; k < 6; ++k)
				add(in, {"-c", faceNames[k], j.inputs[k]});
			break;
		case CubeArray:
			for (unsigned k = 0; k < j.inputs.size(); ++k)
				add(in, {"-C", mc::fmt("%u", k/6), faceNames[k % 6], j.inputs[k]});
			break;
		default:
			break;
	}
	if (j.kind == Line || j.kind == LineArray)
		add(w, {"-d", "1"});
	if (j.kind == Volume || j.kind == FlatVolume)
		add(w, {"-d", "3"});
	if (j.premul)
		add(w, {"--pre-multiply"});
	if (!j.swizzle.empty())
		add(w, {"-s", j.swizzle});
	if (j.flipY)
		add(w, {"--flipy"});
	if (j.flipX)
		add(w, {"--flipx"});
	if (j.normal)
	{
		static const char* names[] = {"", "wrapx", "wrapy", "wrap"};
		add(w, {"-n"});
		if (j.wrap)
			add(w, {names[j.wrap]});
		if (j.height != 1)
			add(w, {mc::fmt("%g", j.height)});
	}
	if (j.gray)
		add(w, {"-g"});
	if (j.turns)
		add(w, {"--rotate", mc::fmt("%d", j.turns*90)});
	if (j.resize)
	{
		add(w, {"-r", j.w, j.h});
		if (j.resizeFilter)
			add(w, {filterNames[j.resizeFilter]});
	}
	if (j.srgb)
		add(w, {"--srgb"});
	if (j.mips != 1)
	{
		add(w, {"-m"});
		if (j.mips)
			add(w, {mc::fmt("%u", j.mips)});
		if (j.mipFilter)
			add(w, {filterNames[j.mipFilter]});
	}
	for (const Custom& c : j.customs)
	{
		add(w, {"-M", mc::fmt("%u", c.level), mc::fmt("%u", c.depth), faceNames[c.face]});
		if (c.once)
			add(w, {"once"});
		add(w, {c.file});
	}
	add(w, {"-f", j.format->name, "-t", typeNames[int(j.type)]});
	static const char* alphas[] = {"none", "standard", "pre-multiplied", "encoded"};
	static const char* qualities[] = {"lowest", "low", "normal", "high", "highest"};
	if (j.alpha >= 0)
		add(w, {"--alpha", alphas[j.alpha]});
	if (j.quality >= 0)
		add(w, {"-Q", qualities[j.quality]});
	if (j.jobs >= 0)
	{
		add(w, {"-j"});
		if (j.jobs)
			add(w, {mc::fmt("%d", j.jobs)});
	}
	if (j.log)
		add(w, {j.log == 1 ? "-q" : "-v"});
	add(w, {"-o", j.output});
	if (j.file)
		add(w, {"--file-format", fileNames[j.file]});
	if (j.create)
		add(w, {"--create-dir"});
	if (j.shuffled)
	{
		w.insert(w.end(), in.begin(), in.end());
		return w;
	}
	in.insert(in.end(), w.begin(), w.end());
	return in;
}

S show(const Words& w)
{
	S s = "cuttlefish";
	for (const S& a : w)
		s += " " + a;
	return s;
}

unsigned po2(unsigned v, bool nearest, bool tieUp)
{
	unsigned n = 1;
	while (n < v)
		n *= 2;
	if (!nearest || n == v || n == 1)
		return n;
	unsigned up = n - v, down = v - n/2;
	return up < down || (up == down && tieUp) ? n : n/2;
}

// The target size described by a word. A tie of the nearest power of 2 may go either way.
unsigned target(const S& word, unsigned own, unsigned w, unsigned h, bool tieUp)
{
	S base = word, po;
	if (base == "nextpo2" || base == "nearestpo2")
	{
		po = base;
		base = "";
	}
	else
	{
		std::size_t dash = base.find('-');
		if (dash != S::npos)
		{
			po = base.substr(dash + 1);
			base = base.substr(0, dash);
		}
	}
	unsigned v;
	if (base.empty())
		v = own;
	else if (base == "width")
		v = w;
	else if (base == "height")
		v = h;
	else if (base == "min")
		v = std::min(w, h);
	else if (base == "max")
		v = std::max(w, h);
	else
		return unsigned(atoi(base.c_str()));
	if (po == "nextpo2")
		return po2(v, false, false);
	if (po == "nearestpo2")
		return po2(v, true, tieUp);
	return v;
}

bool nativeSrgb(tex::TF f, tex::TT t)
{
	for (const blk::Block& b : blk::blocks())
	{
		if (b.format == f && b.type == t)
			return b.srgb;
	}
	return t == tex::TT::UNorm && (f == tex::TF::R8G8B8 || f == tex::TF::B8G8R8 || f == tex::TF::R8G8B8A8 ||
		f == tex::TF::B8G8R8A8 || f == tex::TF::A8B8G8R8);
}

Image::Channel channel(char c)
{
	switch (c)
	{
		case 'r': return Image::Channel::Red;
		case 'g': return Image::Channel::Green;
		case 'b': return Image::Channel::Blue;
		case 'a': return Image::Channel::Alpha;
		default: return Image::Channel::None;
	}
}

// The documented operations on one image. sets the target size from the first image.
bool process(Image& out, const Job& j, const S& file, unsigned& w, unsigned& h, unsigned level, bool tieUp)
{
	Image im;
	if (!im.load(file.c_str(), j.srgb ? ColorSpace::sRGB : ColorSpace::Linear))
		return false;
	if (!w)
	{
		w = j.resize ? target(j.w, im.width(), im.width(), im.height(), tieUp) : im.width();
		h = j.resize ? target(j.h, im.height(), im.width(), im.height(), tieUp) : im.height();
	}
	Image::Format original = im.format();
	im = im.convert(Image::Format::RGBAF);
	if (j.srgb && !nativeSrgb(j.format->format, j.type) && !im.changeColorSpace(ColorSpace::Linear))
		return false;
	unsigned lw = std::max(w >> level, 1u), lh = std::max(h >> level, 1u);
	// Normal maps are made at the full size.
	unsigned rw = j.normal ? w : lw, rh = j.normal ? h : lh;
	im = im.resize(rw, rh, filters[j.resizeFilter]);
	if (!im)
		return false;
	bool swap = j.turns % 2 != 0;
	switch (((j.turns % 4) + 4) % 4)
	{
		case 1: im = im.rotate(Image::RotateAngle::CW90); break;
		case 2: im = im.rotate(Image::RotateAngle::CW180); break;
		case 3: im = im.rotate(Image::RotateAngle::CW270); break;
		default: break;
	}
	if (j.gray)
		im.grayscale();
	if (j.normal)
	{
		Image::NormalOptions o = Image::NormalOptions::Default;
		if (j.wrap & 1)
			o = o | Image::NormalOptions::WrapX;
		if (j.wrap & 2)
			o = o | Image::NormalOptions::WrapY;
		if (j.type == tex::TT::SNorm || j.type == tex::TT::Int || j.type == tex::TT::Float)
			o = o | Image::NormalOptions::KeepSign;
		im = im.createNormalMap(o, j.height);
		if (level)
			im = im.resize(swap ? lh : lw, swap ? lw : lh, filters[j.resizeFilter]);
		original = im.format();
	}
	if (j.flipX)
		im.flipHorizontal();
	if (j.flipY)
		im.flipVertical();
	if (!j.swizzle.empty())
		im.swizzle(channel(j.swizzle[0]), channel(j.swizzle[1]), channel(j.swizzle[2]), channel(j.swizzle[3]));
	if (j.premul)
		im.preMultiplyAlpha();
	if (!im)
		return false;
	Texture::adjustImageValueRange(im, j.type, original);
	out = std::move(im);
	return true;
}

struct Expect
{
	bool ok = false;
	std::vector<std::uint8_t> bytes;
};

Expect reference(const Job& j, bool tieUp)
{
	Expect e;
	unsigned w = 0, h = 0;
	std::vector<Image> images(j.inputs.size());
	for (std::size_t k = 0; k < j.inputs.size(); ++k)
	{
		if (!process(images[k], j, j.inputs[k], w, h, 0, tieUp))
			return e;
	}
	unsigned n = unsigned(images.size());
	Dim dim = j.kind == Cube || j.kind == CubeArray ? Dim::Cube : j.kind == Volume || j.kind == FlatVolume ?
		Dim::Dim3D : j.kind == Line || j.kind == LineArray ? Dim::Dim1D : Dim::Dim2D;
	unsigned depth = j.kind == OneImage || j.kind == Cube || j.kind == Line ? 0 : j.kind == CubeArray ? n/6 : n;
	Texture t(dim, images[0].width(), images[0].height(), depth, 1,
		j.srgb && nativeSrgb(j.format->format, j.type) ? ColorSpace::sRGB : ColorSpace::Linear);
	bool faces = dim == Dim::Cube;
	for (unsigned k = 0; k < n; ++k)
	{
		if (!t.setImage(images[k], faces ? Face(k % 6) : Face::PosX, 0, faces ? k/6 : k))
			return e;
	}
	if (j.mips != 1)
	{
		unsigned levels = std::min(j.mips ? j.mips : 1000, Texture::maxMipmapLevels(dim, w, h, depth));
		Texture::CustomMipImages customs;
		for (const Custom& c : j.customs)
		{
			if (c.level >= levels || (c.face && !faces) || c.depth >= std::max(dim == Dim::Dim3D ? depth >> c.level : depth, 1u))
				return e;
			auto* im = new Image;
			std::shared_ptr<Image> keep(im);
			if (!process(*im, j, c.file, w, h, c.level, tieUp))
				return e;
			customs.emplace(Texture::ImageIndex(Face(c.face), c.level, c.depth),
				Texture::CustomMipImage(std::move(*im),
				c.once ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
		}
		if (!t.generateMipmaps(filters[j.mipFilter], levels, customs))
			return e;
	}
	else if (!j.customs.empty())
		return e;
	Texture::ColorMask mask;
	Texture::Alpha alpha = Texture::Alpha::Standard;
	if (!j.swizzle.empty())
	{
		mask.r = j.swizzle[0] != 'x';
		mask.g = j.swizzle[1] != 'x';
		mask.b = j.swizzle[2] != 'x';
		mask.a = j.swizzle[3] != 'x';
	}
	if (j.premul)
		alpha = Texture::Alpha::PreMultiplied;
	if (!mask.a)
		alpha = Texture::Alpha::None;
	if (j.alpha >= 0)
		alpha = Texture::Alpha(j.alpha);
	Texture::Quality q = j.quality < 0 ? Texture::Quality::Normal : Texture::Quality(j.quality);
	if (!t.convert(j.format->format, j.type, q, alpha, mask, 1))
		return e;
	Texture::FileType ft = j.file ? Texture::FileType(j.file) : Texture::fileType(j.output.c_str());
	e.ok = t.save(e.bytes, ft) == Texture::SaveResult::Success;
	return e;
}

struct Capture
{
	std::ostringstream out, err;
	std::streambuf* o;
	std::streambuf* e;
	Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
	~Capture()
	{
		std::cout.rdbuf(o);
		std::cerr.rdbuf(e);
	}
};

struct Outcome { int code; S out, err; };
Outcome tool(const Words& w)
{
	std::vector<const char*> argv{"cuttlefish"};
	for (const S& s : w)
		argv.push_back(s.c_str());
	argv.push_back(nullptr);
	Outcome r;
	Capture cap;
	r.code = cuttlefish_tool_main(int(argv.size()) - 1, argv.data());
	r.out = cap.out.str();
	r.err = cap.err.str();
	return r;
}

bool slurp(const S& name, std::vector<std::uint8_t>& data)
{
	FILE* f = fopen(name.c_str(), "rb");
	if (!f)
		return false;
	data.clear();
	std::uint8_t buf[8192];
	std::size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
		data.insert(data.end(), buf, buf + n);
	fclose(f);
	return true;
}
void put(const S& name, const S& data)
{
	std::ofstream f(name, std::ios::binary);
	f << data;
	f.close();
	if (!f)
		abort();
}

// Inputs of all the families, in the scratch directory.
std::vector<S> corpusFiles;
void makePicture(const S& name, Image::Format format, unsigned w, unsigned h, unsigned salt)
{
	Image im(format, w, h);
	for (unsigned y = 0; y < h; ++y)
	{
		for (unsigned x = 0; x < w; ++x)
		{
			auto v = [&](unsigned c) { return double(mc::mix(salt*97 + c, y*1000 + x) % 256)/255.0; };
			im.setPixel(x, y, ColorRGBAd{v(0), v(1), v(2), v(3)});
		}
	}
	if (!im.save(name.c_str()))
		abort();
}

void init()
{
	S dir = mc::scratch();
	if (chdir(dir.c_str()) != 0)
		abort();
	signal(SIGXFSZ, SIG_IGN);
	for (unsigned k = 0; k < 12; ++k)
	{
		makePicture(mc::fmt("a%u.png", k), Image::Format::RGBA8, 5, 3, k + 1);
		makePicture(mc::fmt("s%u.png", k), Image::Format::RGBA8, 4, 4, k + 31);
		makePicture(mc::fmt("c%u.png", k), Image::Format::RGBA8, 2 + k % 3, 3, k + 51);
		makePicture(mc::fmt("l%u.png", k), Image::Format::RGBA8, 5, 1, k + 71);
		// The images of a texture may have different sizes; the first one decides.
		makePicture(mc::fmt("m%u.png", k), k % 2 ? Image::Format::RGB8 : Image::Format::RGBA8, 5 - k % 3, 3 + k % 2,
			k + 91);
		makePicture(mc::fmt("n%u.png", k), Image::Format::RGBA8, 4 - k % 2, 4 + k % 3, k + 111);
	}
	makePicture("b8.png", Image::Format::RGBA8, 8, 8, 7);
	makePicture("g16.png", Image::Format::Gray16, 4, 3, 3);
	makePicture("f.exr", Image::Format::RGBAF, 4, 3, 5);
	for (const corpus::Entry& e : corpus::entries())
	{
		S name = mc::fmt("k%zu.", corpusFiles.size()) + e.ext;
		put(name, e.bytes);
		corpusFiles.push_back(name);
	}
	put("broken.png", "\x89PNG\r\n\x1a\nnothing");
	put("empty.png", "");
	put("text.txt", "not an image\n");
	if (mkdir("dir.png", 0755) != 0)
		abort();
	std::vector<std::uint8_t> d;
	slurp("a0.png", d);
	put("short.png", S(d.begin(), d.begin() + long(d.size()/2)));
}

std::vector<S> inputs(Kind k, char prefix, unsigned n = 2)
{
	unsigned count = k == Cube ? 6 : k == CubeArray ? 12 : k == OneImage || k == Line || k == FlatVolume ? 1 : n;
	std::vector<S> l;
	for (unsigned i = 0; i < count; ++i)
		l.push_back(mc::fmt("%c%u.png", prefix, i));
	return l;
}

const tex::Desc* desc(tex::TF f)
{
	for (const tex::Desc& d : tex::formats())
	{
		if (d.format == f)
			return &d;
	}
	abort();
}

bool ties(const Job& j)
{
	return j.resize && (j.w.find("nearest") != S::npos || j.h.find("nearest") != S::npos);
}

// The options a family doesn't enumerate follow from those it does, so that every few of them meet in many ways.
void vary(Job& j, bool operations = false)
{
	std::uint64_t h = mc::hashStr(show(line(j)));
	auto pick = [&](unsigned n) { unsigned v = unsigned(h % n); h /= n; return v; };
	j.log = int(pick(3));
	j.jobs = int(pick(4)) - 1;
	j.alpha = int(pick(5)) - 1;
	j.shuffled = pick(2);
	if (!operations)
		return;
	static const struct { tex::TF f; tex::TT t; } formats[] = {{tex::TF::R8G8B8A8, tex::TT::UNorm},
		{tex::TF::R16G16B16A16, tex::TT::UNorm}, {tex::TF::R8G8B8A8, tex::TT::SNorm},
		{tex::TF::R16G16B16, tex::TT::Int}, {tex::TF::R32G32B32A32, tex::TT::Float}};
	unsigned f = pick(6);
	if (f)
	{
		j.format = desc(formats[f - 1].f);
		j.type = formats[f - 1].t;
	}
	j.srgb = pick(2);
	j.flipX = pick(3) == 1;
	j.flipY = pick(3) == 1;
	j.gray = pick(4) == 1;
	j.premul = pick(3) == 1;
	static const char* swizzles[] = {"", "", "abgr", "gxrb"};
	j.swizzle = swizzles[pick(4)];
	if (j.normal)
	{
		j.wrap = pick(4);
		j.height = pick(2) ? 2.5 : 1;
	}
}

void check(mc::Ctx& ctx, const Job& j)
{
	ctx.step();
	Words w = line(j);
	if (ctx.verbose())
		ctx.note("%s", show(w).c_str());
	::unlink(j.output.c_str());
	Outcome o = tool(w);
	if (ctx.verbose())
		ctx.note("  exit code %d %s%s", o.code, o.out.c_str(), o.err.c_str());
	std::vector<std::uint8_t> data;
	bool exists = slurp(j.output, data);
	::unlink(j.output.c_str());
	S cmd = show(w);
	if (o.code && o.err.find("error") == S::npos)
		ctx.fail("message", "%s: exit code %d without a message", cmd.c_str(), o.code);
	if (!o.code && !exists)
		ctx.fail("no output", "%s: exit code 0 without output", cmd.c_str());
	Expect e = reference(j, false);
	ctx.count(e.ok ? "written" : "refused");
	if (!Texture::isFormatValid(j.format->format, j.type,
		j.file ? Texture::FileType(j.file) : Texture::fileType(j.output.c_str())))
	{
		e.ok = false;
	}
	if (!o.code != e.ok)
	{
		ctx.fail(e.ok ? "fails" : "succeeds", "%s: exit code %d (%s), but the library's operations %s", cmd.c_str(),
			o.code, o.err.c_str(), e.ok ? "succeed" : "fail");
	}
	if (o.code)
		return;
	if (j.log == 1 && !(o.out.empty() && o.err.empty()))
		ctx.fail("quiet", "%s: printed '%s%s'", cmd.c_str(), o.out.c_str(), o.err.c_str());
	if (data == e.bytes)
		return;
	if (ties(j) && data == reference(j, true).bytes)
		return;
	std::size_t at = 0;
	while (at < data.size() && at < e.bytes.size() && data[at] == e.bytes[at])
		++at;
	ctx.fail(mc::fmt("bytes of %s", kindNames[j.kind]),
		"%s: the output differs from the documented pipeline's at byte %zu (%zu bytes instead of %zu)", cmd.c_str(),
		at, data.size(), e.bytes.size());
}

// The product of the operations, for all kinds and some formats.
struct FT { tex::TF f; tex::TT t; };
const FT pipelineFormats[] = {
	{tex::TF::R8G8B8A8, tex::TT::UNorm}, {tex::TF::R16G16B16A16, tex::TT::Float},
	{tex::TF::R8G8B8A8, tex::TT::SNorm}, {tex::TF::R32G32B32A32, tex::TT::Float},
	{tex::TF::R8G8B8A8, tex::TT::UInt}, {tex::TF::R16G16B16, tex::TT::Int},
	{tex::TF::R5G6B5, tex::TT::UNorm}, {tex::TF::B8G8R8A8, tex::TT::UNorm},
};

void pipeline(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	std::size_t nf = ctx.thorough() ? 8 : 4;
	j.kind = Kind(index % kindCount);
	index /= kindCount;
	const FT& ft = pipelineFormats[index % nf];
	index /= nf;
	j.format = desc(ft.f);
	j.type = ft.t;
	bool square = j.kind == Cube || j.kind == CubeArray;
	bool flat = j.kind == Line || j.kind == LineArray;
	bool many = ctx.choose(2) != 0;
	j.inputs = inputs(j.kind, square ? many ? 'n' : 's' : flat ? 'l' : many ? 'm' : 'a', 2);
	j.srgb = index & 1;
	j.premul = index & 2;
	j.turns = int(ctx.choose(4));
	if (flat && j.turns % 2)
		return;
	unsigned r = ctx.choose(ctx.thorough() ? 3 : 2);
	if (r)
	{
		j.resize = true;
		j.w = square ? "5" : r == 1 ? "4" : "nextpo2";
		j.h = flat ? "1" : square ? "5" : r == 1 ? "6" : "min";
		j.resizeFilter = r == 1 ? 2 : 0;
	}
	j.gray = ctx.choose(2);
	unsigned n = ctx.choose(3);
	j.normal = n;
	j.wrap = n == 2 ? 2 : 0;
	j.height = n == 2 ? 2.5 : 1;
	j.flipX = ctx.choose(2);
	j.flipY = ctx.choose(2);
	static const char* sw[] = {"", "bxra", "gabr", "rgbx"};
	j.swizzle = sw[ctx.choose(ctx.thorough() ? 4 : 3)];
	j.mips = ctx.choose(2) ? 0 : 1;
	vary(j);
	check(ctx, j);
}

// Every pair of sizes on images of several shapes.
const char* sizeWords[] = {"1", "2", "7", "nextpo2", "nearestpo2", "width", "width-nextpo2", "width-nearestpo2",
	"height", "height-nextpo2", "height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "max", "max-nextpo2",
	"max-nearestpo2"};
struct Shape { unsigned w, h; };
const Shape sizeShapes[] = {{1, 1}, {5, 3}, {3, 5}, {4, 8}, {7, 1}, {1, 9}, {6, 11}, {2, 13}};
void sizes(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	const Shape& s = sizeShapes[index % 8];
	S name = mc::fmt("z%ux%u.png", s.w, s.h);
	if (access(name.c_str(), R_OK) != 0)
		makePicture(name, Image::Format::RGBA8, s.w, s.h, s.w*17 + s.h);
	j.w = sizeWords[index/8];
	j.h = sizeWords[ctx.choose(17)];
	j.resize = true;
	j.resizeFilter = int(ctx.choose(5));
	j.kind = ctx.choose(2) ? Array : OneImage;
	j.inputs = {name};
	if (j.kind == Array)
		j.inputs.push_back("a1.png");
	j.turns = int(ctx.choose(2));
	if (ctx.thorough() && ctx.choose(2))
		j.mips = 0;
	j.format = desc(tex::TF::R8G8B8A8);
	vary(j);
	check(ctx, j);
}

// Sizes around and beyond the powers of 2, along one direction.
const unsigned longSizes[] = {12, 15, 16, 17, 24, 31, 33, 48, 63, 65, 96, 127, 128, 129, 191, 193, 255, 256, 257, 300, 511,
	513, 700, 1023, 1025, 1500, 2049, 4097, 5000, 8191, 16385, 32769, 65537};
const unsigned longSizeCount = sizeof(longSizes)/sizeof(*longSizes);
void longSides(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	bool tall = ctx.choose(2);
	unsigned n = longSizes[index/17], o = 1 + unsigned(index % 3);
	S name = mc::fmt("z%ux%u.png", tall ? o : n, tall ? n : o);
	if (access(name.c_str(), R_OK) != 0)
		makePicture(name, Image::Format::RGBA8, tall ? o : n, tall ? n : o, n);
	static const char* across[] = {"3", "min"};
	S along = sizeWords[index % 17], other = across[ctx.choose(2)];
	j.w = tall ? other : along;
	j.h = tall ? along : other;
	j.resize = true;
	j.resizeFilter = int(index % 5);
	j.inputs = {name};
	j.kind = OneImage;
	j.format = desc(tex::TF::R8G8B8A8);
	vary(j);
	check(ctx, j);
}

// Many images, with custom images in late places.
void many(mc::Ctx& ctx, std::size_t index)
{
	static const struct { Kind kind; unsigned n; } sets[] = {{Array, 40}, {CubeArray, 66}, {Volume, 37},
		{LineArray, 33}, {Array, 13}, {CubeArray, 24}, {Volume, 70}};
	Job j;
	j.kind = sets[index].kind;
	unsigned n = sets[index].n;
	unsigned w = j.kind == CubeArray ? 4 : 5, h = j.kind == LineArray ? 1 : j.kind == CubeArray ? 4 : 3;
	for (unsigned k = 0; k < n; ++k)
	{
		S name = mc::fmt("q%ux%u-%u.png", w, h, k);
		if (access(name.c_str(), R_OK) != 0)
			makePicture(name, Image::Format::RGBA8, w, h, 1000 + k);
		j.inputs.push_back(name);
	}
	j.format = desc(tex::TF::R8G8B8A8);
	unsigned layers = j.kind == CubeArray ? n/6 : n;
	unsigned mode = ctx.choose(3);
	j.mips = mode ? 0 : 1;
	if (mode == 2)
	{
		unsigned places[] = {0, layers/2, layers - 1};
		unsigned level = 1 + ctx.choose(2);
		bool once = ctx.choose(2);
		if (j.kind == Volume)
		{
			for (unsigned d = 0; d < layers >> level; ++d)
				j.customs.push_back({level, d, 0, once, mc::fmt("c%u.png", d % 12)});
		}
		else
			j.customs.push_back({level, places[ctx.choose(3)], j.kind == CubeArray ? ctx.choose(6) : 0, once, "c1.png"});
	}
	vary(j, true);
	check(ctx, j);
}

// Mipmaps and custom images.
void mips(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.kind = Kind(index % kindCount);
	index /= kindCount;
	bool square = j.kind == Cube || j.kind == CubeArray;
	bool flat = j.kind == Line || j.kind == LineArray;
	j.inputs = inputs(j.kind, square ? 's' : flat ? 'l' : 'a', 3);
	static const unsigned levels[] = {0, 2, 3, 40};
	j.mips = levels[index % 4];
	index /= 4;
	j.mipFilter = int(index % 5);
	index /= 5;
	unsigned prep = unsigned(index % 8);
	j.turns = prep == 1 ? 1 : prep == 2 ? -1 : 0;
	if (flat && j.turns)
		return;
	j.normal = prep == 2 || prep == 3;
	j.resize = prep == 4 || prep == 2;
	if (j.resize)
	{
		j.w = "8";
		j.h = flat ? "1" : square ? "8" : "6";
		j.resizeFilter = 1;
	}
	if (prep >= 6)
	{
		// Levels where only one of the sizes has reached one pixel.
		if (square || (flat && prep == 7))
			return;
		j.resize = true;
		j.w = prep == 6 ? "2" : "9";
		j.h = flat ? "1" : prep == 6 ? "9" : "2";
		j.resizeFilter = 2;
	}
	j.srgb = prep == 5;
	j.flipX = prep == 5;
	j.format = desc(prep == 3 ? tex::TF::R8G8B8A8 : tex::TF::R16G16B16A16);
	j.type = prep == 3 ? tex::TT::SNorm : tex::TT::UNorm;
	// Custom images: none, one of every place, or two.
	unsigned n = ctx.choose(j.mipFilter < 2 || ctx.thorough() ? 3 : 2);
	for (unsigned k = 0; k < n; ++k)
	{
		Custom c;
		c.level = 1 + ctx.choose(k == 0 ? 3 : 2);
		c.depth = k && j.kind == Volume ? ctx.choose(1) : ctx.choose(j.kind == Array || j.kind == CubeArray ||
			j.kind == Volume || j.kind == LineArray ? 3 : 1);
		static const unsigned fs[] = {0, 3, 5};
		c.face = fs[ctx.choose(square ? 3 : k ? 1 : 2)];
		c.once = ctx.choose(2);
		c.file = k ? "b8.png" : "c1.png";
		for (const Custom& o : j.customs)
		{
			if (o.level == c.level && o.depth == c.depth && o.face == c.face)
				return; // given twice
		}
		j.customs.push_back(c);
	}
	// A volume's custom images come for the whole level.
	vary(j, true);
	check(ctx, j);
}

// Volumes whose levels are replaced completely, in part, and with different replacements.
void volumes(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.kind = Volume;
	j.inputs = inputs(j.kind, index % 2 ? 'm' : 'a', 4 + unsigned(index/2));
	j.format = desc(tex::TF::R8G8B8A8);
	j.mips = 0;
	if (ctx.choose(2))
		j.turns = 3;
	unsigned full = unsigned(j.inputs.size());
	for (unsigned level = 1; level < 3; ++level)
	{
		for (unsigned d = 0; d <= (full >> level); ++d)
		{
			unsigned c = ctx.choose(3);
			if (c)
				j.customs.push_back({level, d, 0, c == 2, mc::fmt("c%u.png", d + level)});
		}
	}
	vary(j, true);
	check(ctx, j);
}

// Every format, type, file type, kind, alpha kind, quality, job count and verbosity.
void outputs(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.format = &tex::formats()[index % tex::formats().size()];
	index /= tex::formats().size();
	j.kind = Kind(index % kindCount);
	index /= kindCount;
	j.type = tex::TT(ctx.choose(6));
	bool square = j.kind == Cube || j.kind == CubeArray;
	bool flat = j.kind == Line || j.kind == LineArray;
	j.inputs = inputs(j.kind, square ? 's' : flat ? 'l' : 'a', 2);
	static const char* outs[] = {"out.dds", "out.ktx", "out.pvr", "out.KTX", "out.bin", "out.d/../x.dds"};
	unsigned o = ctx.choose(4);
	if (o < 3)
		j.output = outs[o];
	else
	{
		j.output = "out.dds";
		j.file = 2 + int(ctx.choose(2));
	}
	unsigned extra = unsigned(index);
	switch (extra)
	{
		case 0: j.srgb = true; break;
		case 1: j.alpha = int(ctx.choose(4)); break;
		case 2: j.premul = true; j.log = 1; j.mips = 0; break;
		case 3: j.jobs = int(ctx.choose(3)); j.log = 2; break;
		case 4: j.quality = int(ctx.choose(5)); j.shuffled = true; break;
		case 5: j.swizzle = "rxbx"; j.log = 1; j.srgb = true; break;
		default: break;
	}
	check(ctx, j);
}

// Block-compressed formats, whose stand-in encoders (shim/codecs) make different blocks of different options.
const tex::Desc* compressedDesc(std::size_t i)
{
	static const std::vector<tex::Desc>& list = *new std::vector<tex::Desc>([] {
		std::vector<tex::Desc> l;
		for (const blk::Block& b : blk::blocks())
			l.push_back({b.format, b.name, int(b.size), tex::Plain, {}, {b.type}, b.alpha});
		return l;
	}());
	return &list[i];
}
void compressed(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.format = compressedDesc(index % blk::blocks().size());
	index /= blk::blocks().size();
	j.type = tex::TT(ctx.choose(6));
	static const char* outs[] = {"out.dds", "out.ktx", "out.pvr"};
	j.output = outs[ctx.choose(3)];
	bool valid = j.type == j.format->types[0];
	switch (index)
	{
		case 0: // every kind of texture
			j.kind = Kind(ctx.choose(valid ? unsigned(kindCount) : 1));
			j.srgb = ctx.choose(2);
			j.mips = ctx.choose(2) ? 0 : 1;
			break;
		case 1: // options of the encoders
			if (!valid)
				return;
			j.quality = int(ctx.choose(6)) - 1;
			j.alpha = int(ctx.choose(5)) - 1;
			j.premul = ctx.choose(2);
			break;
		case 2: // masks
		{
			if (!valid)
				return;
			static const char* swizzles[] = {"xgba", "rxba", "rgxa", "rgbx", "bxrx", "xxxa", "abgr"};
			j.swizzle = swizzles[ctx.choose(7)];
			j.alpha = int(ctx.choose(5)) - 1;
			j.srgb = ctx.choose(2);
			break;
		}
		default: // jobs, and the order of options
			j.jobs = int(ctx.choose(4)) - 1;
			j.shuffled = ctx.choose(2);
			j.quality = ctx.choose(2) ? 4 : -1;
			j.log = int(ctx.choose(3));
			break;
	}
	bool square = j.kind == Cube || j.kind == CubeArray;
	bool flat = j.kind == Line || j.kind == LineArray;
	j.inputs = inputs(j.kind, square ? 's' : flat ? 'l' : 'a', 2);
	check(ctx, j);
}

// Input files of every pixel format.
void originals(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.inputs = {index < corpusFiles.size() ? corpusFiles[index] : S(index % 2 ? "g16.png" : "f.exr")};
	static const FT fts[] = {{tex::TF::R8G8B8A8, tex::TT::UNorm}, {tex::TF::R8G8B8A8, tex::TT::UInt},
		{tex::TF::R16G16B16A16, tex::TT::UInt}, {tex::TF::R16G16B16A16, tex::TT::Int},
		{tex::TF::R8G8B8A8, tex::TT::SNorm}, {tex::TF::R32G32B32A32, tex::TT::Float},
		{tex::TF::R32G32B32A32, tex::TT::UInt}};
	const FT& ft = fts[ctx.choose(7)];
	j.format = desc(ft.f);
	j.type = ft.t;
	j.srgb = ctx.choose(2);
	j.resize = ctx.choose(2);
	j.w = "3";
	j.h = "nextpo2";
	j.normal = ctx.choose(2);
	j.gray = ctx.choose(2);
	j.swizzle = ctx.choose(2) ? "abgr" : "";
	vary(j);
	check(ctx, j);
}

// Every input unusable in every way: no success, a message, and what was at the output stays.
const char* badFiles[] = {"missing.png", "broken.png", "empty.png", "text.txt", "dir.png", "short.png",
	"a0.png/x.png", "missing/a.png"};
void inputFaults(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.kind = Kind(index % kindCount);
	bool square = j.kind == Cube || j.kind == CubeArray;
	bool flat = j.kind == Line || j.kind == LineArray;
	j.inputs = inputs(j.kind, square ? 's' : flat ? 'l' : 'a', 3);
	j.format = desc(tex::TF::R8G8B8A8);
	j.mips = 0;
	for (unsigned k = 1; k < 3; ++k)
		j.customs.push_back({k, 0, 0, k == 1, "c0.png"});
	if (j.kind == Volume)
		j.customs.erase(j.customs.begin() + 1);
	unsigned n = unsigned(j.inputs.size() + j.customs.size());
	unsigned at = ctx.choose(n);
	S bad = badFiles[ctx.choose(8)];
	(at < j.inputs.size() ? j.inputs[at] : j.customs[at - j.inputs.size()].file) = bad;
	// A truncated image may still load.
	bool loads = false;
	if (bad == "short.png")
	{
		Image im;
		loads = im.load(bad.c_str());
	}
	unsigned state = ctx.choose(3);
	j.create = ctx.choose(2);
	j.output = state == 2 ? "new.d/out.ktx" : "out.ktx";
	::unlink("out.ktx");
	if (state == 1)
		put("out.ktx", "before");
	if (ctx.choose(2))
	{
		j.resize = true;
		j.w = j.h = flat ? "1" : "8";
		if (flat)
			j.w = "8";
	}
	ctx.step();
	Words w = line(j);
	Outcome o = tool(w);
	S cmd = show(w);
	if (ctx.verbose())
		ctx.note("%s: exit code %d %s", cmd.c_str(), o.code, o.err.c_str());
	std::vector<std::uint8_t> d;
	bool exists = slurp(j.output, d);
	bool dir = access("new.d", F_OK) == 0;
	::unlink("out.ktx");
	if (dir)
	{
		::unlink("new.d/out.ktx");
		::rmdir("new.d");
	}
	if (loads)
		return;
	ctx.count("unusable inputs");
	if (o.code == 0)
		ctx.fail("unusable input", "%s: exit code 0", cmd.c_str());
	if (o.err.find("error") == S::npos || o.err.find(bad) == S::npos)
		ctx.fail("input message", "%s: exit code %d, message '%s'", cmd.c_str(), o.code, o.err.c_str());
	if (state == 1 && S(d.begin(), d.end()) != "before")
		ctx.fail("output changed", "%s: the file at the output was changed", cmd.c_str());
	if (state != 1 && (exists || dir))
		ctx.fail("output left", "%s: exit code %d, but output was left", cmd.c_str(), o.code);
}

// The output cannot be created, or only up to some size.
struct Place { const char* path; bool without, with; }; // success without and with --create-dir
const Place places[] = {
	{"out.ktx", true, true}, {"./out.dds", true, true}, {"new.d/out.pvr", false, true},
	{"new.d/e/f/out.ktx", false, true}, {"new.d//e/./out.ktx", false, true},
	{"a0.png/out.ktx", false, false}, {"a0.png/e/out.ktx", false, false}, {"dir.png", false, false},
	{"dir.ktx", false, false}, {"old.d/out.ktx", true, true}, {"old.d/new/out.dds", false, true},
	{"loop.d/out.ktx", false, false}, {"old.d/../out.ktx", true, true}, {"n/out.ktx", false, true},
	{"/dev/full", false, false}, {"link.ktx", true, true}, {"dangling/out.ktx", false, false},
	{"ABS/out.ktx", true, true}, {"ABS/new.d/out.ktx", false, true}, {"old.d/", false, false},
	{"LONG.ktx", false, false}, {"old.d//new/out.dds", false, true}, {"old.d///new//out.dds", false, true},
	{"../new.d/out.ktx", false, true}, {"../new.d/e/out.ktx", false, true}, {"../old.d/new/out.dds", false, true},
	{"./new.d/out.ktx", false, true}, {"././new.d/./e/out.ktx", false, true}, {".new/out.ktx", false, true},
	{"..new/e/out.ktx", false, true}, {"old.d/../new.d/out.ktx", false, true}, {"../out.ktx", true, true},
	{"new d/e e/out.ktx", false, true}, {"ABS//new.d//out.ktx", false, true},
	{"new.d/DEEP/out.ktx", false, true}, {"old.d/DEEP/out.ktx", false, true}, {"ABS/new.d/DEEP/out.ktx", false, true},
	{"a0.png/DEEP/out.ktx", false, false},
};
const unsigned placeCount = sizeof(places)/sizeof(*places);

// Removes what is at a place in the scratch directory.
void wipe(const S& name)
{
	nftw(name.c_str(), [](const char* path, const struct stat*, int, struct FTW*) { return ::remove(path); }, 16,
		FTW_DEPTH | FTW_PHYS);
}

void outputFaults(mc::Ctx& ctx, std::size_t index)
{
	Job j;
	j.inputs = {"a0.png"};
	j.format = desc(tex::TF::R8G8B8A8);
	if (index < placeCount)
	{
		const Place& c = places[index];
		j.output = c.path;
		char cwd[4096];
		if (!getcwd(cwd, sizeof(cwd)))
			abort();
		if (j.output.substr(0, 3) == "ABS")
			j.output = S(cwd) + j.output.substr(3);
		if (j.output.substr(0, 4) == "LONG")
			j.output = S(300, 'x') + ".ktx";
		std::size_t deep = j.output.find("DEEP");
		if (deep != S::npos)
		{
			S levels;
			for (unsigned l = 0; l < 40; ++l)
				levels += mc::fmt("%slevel-%u", l ? "/" : "", l);
			j.output.replace(deep, 4, levels);
		}
		// Paths to the directory above are used from one below.
		S below;
		if (j.output.substr(0, 3) == "../")
		{
			below = "old.d";
			j.inputs = {"../a0.png"};
		}
		j.create = ctx.choose(2);
		j.file = 1 + int(ctx.choose(3));
		j.mips = ctx.choose(2) ? 0 : 1;
		mkdir("dir.ktx", 0755);
		mkdir("old.d", 0755);
		if (symlink("loop.d", "loop.d") != 0 && errno != EEXIST)
			abort();
		::unlink("link.ktx");
		if (symlink("out.real", "link.ktx") != 0)
			abort();
		if (symlink("nowhere/at/all", "dangling") != 0 && errno != EEXIST)
			abort();
		if (!below.empty() && chdir(below.c_str()) != 0)
			abort();
		bool before = ctx.choose(2); // an older, longer file at the place
		bool ok = j.create ? c.with : c.without;
		if (before && c.without)
			put(j.output, S(5000, 'z'));
		ctx.step();
		Words w = line(j);
		Outcome o = tool(w);
		S cmd = show(w);
		if (ctx.verbose())
			ctx.note("%s: exit code %d %s", cmd.c_str(), o.code, o.err.c_str());
		std::vector<std::uint8_t> d;
		if (ok)
			slurp(j.output, d);
		if (!below.empty() && chdir("..") != 0)
			abort();
		j.inputs = {"a0.png"};
		bool made = access("new.d", F_OK) == 0 || access("old.d/new", F_OK) == 0 || access("old.d/level-0", F_OK) == 0 || access(".new", F_OK) == 0 ||
			access("..new", F_OK) == 0 || access("new d", F_OK) == 0 || access("n", F_OK) == 0;
		for (const char* f : {"out.ktx", "out.dds", "old.d/out.ktx", "out.real", "link.ktx"})
			::unlink(f);
		for (const char* f : {"new.d", "old.d/new", "old.d/level-0", "n", ".new", "..new", "new d"})
			wipe(f);
		if (!o.code != ok)
		{
			ctx.fail(ok ? "path fails" : "path succeeds", "%s: exit code %d, %s", cmd.c_str(), o.code, o.err.c_str());
		}
		if (!ok && o.err.find("error") == S::npos)
			ctx.fail("message", "%s: exit code %d without a message", cmd.c_str(), o.code);
		if (!j.create && made)
			ctx.fail("directory", "%s: made a directory without being asked to", cmd.c_str());
		if (ok && d != reference(j, false).bytes)
			ctx.fail("bytes", "%s: wrong output of %zu bytes", cmd.c_str(), d.size());
		ctx.count(ok ? "usable places" : "unusable places");
		return;
	}
	// Every size at which the device is full.
	std::size_t k = index - placeCount;
	j.file = 1 + int(k % 3);
	k /= 3;
	j.kind = k % 2 ? Cube : OneImage;
	j.inputs = inputs(j.kind, 's');
	k /= 2;
	j.mips = k % 2 ? 0 : 1;
	k /= 2;
	j.create = k % 2;
	j.output = "limited.ktx";
	Expect e = reference(j, false);
	if (!e.ok)
		abort();
	unsigned limit = ctx.choose(unsigned(e.bytes.size()) + 2);
	::unlink("limited.ktx");
	struct rlimit old, now;
	getrlimit(RLIMIT_FSIZE, &old);
	now = old;
	now.rlim_cur = limit;
	Words w = line(j);
	ctx.step();
	setrlimit(RLIMIT_FSIZE, &now);
	Outcome o = tool(w);
	setrlimit(RLIMIT_FSIZE, &old);
	S cmd = show(w);
	if (ctx.verbose())
		ctx.note("%s with at most %u bytes: exit code %d %s", cmd.c_str(), limit, o.code, o.err.c_str());
	std::vector<std::uint8_t> d;
	slurp("limited.ktx", d);
	::unlink("limited.ktx");
	bool ok = limit >= e.bytes.size();
	if (!o.code != ok)
	{
		ctx.fail("full device", "%s: exit code %d although %u of %zu bytes fit", cmd.c_str(), o.code, limit,
			e.bytes.size());
	}
	if (!ok && o.err.find("error") == S::npos)
		ctx.fail("message", "%s: exit code %d without a message", cmd.c_str(), o.code);
	if (ok && d != e.bytes)
		ctx.fail("bytes", "%s: wrong output", cmd.c_str());
	ctx.count("device sizes");
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec s;
	s.property = "C16";
	s.rule = "pipeline: the product of the operations for every kind of texture (job counts, alpha kinds, verbosity and the order of options vary along, as do further operations in mips and volumes); sizes: every pair of size words, "
		"filters and image shapes; long sides: every size word on images of 12 to 65537 pixels in one direction; many: 13 to "
		"70 images with custom images at early, middle and late places; mips: level counts, filters and every place of one or two custom images; outputs: "
		"every format, type, file type and kind with the remaining options; compressed: the same of block-compressed "
		"formats with stand-in encoders, with qualities, alpha kinds, masks and job counts; originals: input files of every pixel "
		"format; input faults: every input unusable in every way; output faults: every kind of unusable place, and "
		"every size at which the device is full";
	s.assumptions = {"the single operations are the library's (C02-C14, C17-C23)", "the nearest power of two of a tie "
		"may be either", "custom images of normal maps are reduced after the normal map is made, as the source says"};
	s.workerInit = init;
	s.execTimeout = 120;
	s.families = {
		{"pipeline", [](bool t) { return std::size_t(kindCount)*(t ? 8 : 4)*4; }, pipeline},
		{"mips", [](bool) { return std::size_t(kindCount)*4*5*8; }, mips},
		{"volumes", [](bool) { return std::size_t(4); }, volumes},
		{"sizes", [](bool) { return std::size_t(8*17); }, sizes},
		{"long sides", [](bool) { return std::size_t(longSizeCount*17); }, longSides},
		{"many", [](bool) { return std::size_t(7); }, many},
		{"outputs", [](bool) { return tex::formats().size()*kindCount*6; }, outputs},
#ifdef CUTTLEFISH_HAS_S3TC
		{"compressed", [](bool) { return blk::blocks().size()*4; }, compressed},
#endif
		{"originals", [](bool) { return corpus::entries().size() + 2; }, originals},
		{"input faults", [](bool) { return std::size_t(kindCount); }, inputFaults},
		{"output faults", [](bool) { return std::size_t(placeCount + 3*2*2*2); }, outputFaults},
	};
	return mc::run(argc, argv, s);
}
