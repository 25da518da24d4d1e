// C15: the command line parser against an independent reading of its help text.
//
// Command lines are sequences of words. The real CommandLine::parse runs on every sequence of the stated
// spaces, in process; a reference reader written from the help text says whether the line is to be
// accepted and with which settings. The "tool" family runs the tool's whole main function.
#include "img.h"
#include "tex.h"
#include "CommandLine.h"
#include <dirent.h>
#include <algorithm>
#include <climits>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <strings.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace cuttlefish;
typedef std::string S;
typedef std::vector<S> Words;
typedef CommandLine CL;
typedef Image::ResizeFilter RF;

int cuttlefish_tool_main(int argc, const char** argv);

// A request for more memory than any command line here can need ends the process.
extern "C" const char* __asan_default_options()
{
	return "max_allocation_size_mb=256:allocator_may_return_null=0:detect_leaks=0:handle_abort=1:quarantine_size_mb=8:malloc_context_size=2";
}

namespace
{

// Files that the command lines name.
std::map<S, S> files;

struct Custom { S image; bool once; };
typedef std::tuple<unsigned, unsigned, unsigned> Key; // level, depth, face

enum Verdict { Accept, Reject, Free, Help };
struct Ref
{
	Verdict verdict = Accept;
	S why;
	S oversize; // a number too large for its slot: a file name if the line is accepted
	unsigned jobs = 1;
	int log = 0;
	int kind = -1; // 0 image, 1 array, 2 cube, 3 cube array
	std::vector<S> images;
	int w = -1, h = -1;
	RF resizeFilter = RF::CatmullRom, mipFilter = RF::CatmullRom;
	bool freeMipFilter = false, freeResizeFilter = false, freeNormal = false;
	unsigned mips = 1;
	std::map<Key, Custom> customs;
	bool flipX = false, flipY = false;
	int turns = 0;
	bool normal = false, gray = false, premul = false, srgb = false, create = false, swizzle = false;
	unsigned wrap = 0;
	double height = 1.0;
	char swz[5] = "rgba";
	int dim = 2;
	const tex::Desc* format = nullptr;
	int type = -1;
	int alpha = -1;
	int quality = 2;
	bool hasOutput = false;
	S output;
	int file = 0;
};

S lower(S s)
{
	for (char& c : s)
		c = char(tolower(c));
	return s;
}

// -1: not one of the words
int word(const S& s, std::initializer_list<const char*> l)
{
	int i = 0;
	for (const char* w : l)
	{
		if (lower(s) == w)
			return i;
		++i;
	}
	return -1;
}

enum Num { NotNumber, TooLarge, Number };
Num number(const S& s, std::uint64_t& v, std::uint64_t limit)
{
	if (s.empty())
		return NotNumber;
	v = 0;
	bool large = false;
	for (char c : s)
	{
		if (c < '0' || c > '9')
			return NotNumber;
		if (!large)
			v = v*10 + std::uint64_t(c - '0');
		large = large || v > limit;
	}
	return large ? TooLarge : Number;
}

bool filterWord(const S& s, RF& f)
{
	static const RF l[] = {RF::Box, RF::Linear, RF::Cubic, RF::BSpline, RF::CatmullRom};
	int i = word(s, {"box", "linear", "cubic", "b-spline", "catmull-rom"});
	if (i < 0)
		return false;
	f = l[i];
	return true;
}
int faceWord(const S& s) { return word(s, {"+x", "-x", "+y", "-y", "+z", "-z"}); }

bool sizeWord(const S& s, int& v)
{
	static const int l[] = {CL::NextPO2, CL::NearestPO2, CL::Width, CL::WidthNextPO2, CL::WidthNearestPO2,
		CL::Height, CL::HeightNextPO2, CL::HeightNearestPO2, CL::Min, CL::MinNextPO2, CL::MinNearestPO2,
		CL::Max, CL::MaxNextPO2, CL::MaxNearestPO2};
	int i = word(s, {"nextpo2", "nearestpo2", "width", "width-nextpo2", "width-nearestpo2", "height",
		"height-nextpo2", "height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "max", "max-nextpo2",
		"max-nearestpo2"});
	if (i >= 0)
	{
		v = l[i];
		return true;
	}
	std::uint64_t n;
	if (number(s, n, INT_MAX) != Number || n == 0)
		return false;
	v = int(n);
	return true;
}

std::vector<S> lines(const S& text)
{
	std::vector<S> l;
	S cur;
	for (char c : text + "\n")
	{
		if (c == '\n' || c == '\r')
		{
			if (!cur.empty())
				l.push_back(cur);
			cur.clear();
		}
		else
			cur += c;
	}
	return l;
}

struct Stop {};

struct Reader
{
	const Words& w;
	Ref r;
	std::size_t i = 0;
	explicit Reader(const Words& words) : w(words) {}

	std::size_t left() const { return w.size() - i; }
	[[noreturn]] void reject(const S& why)
	{
		// What was left open before may also end here.
		if (r.verdict != Free)
			r.verdict = Reject;
		r.why = why;
		throw Stop();
	}
	void open(const S& why)
	{
		r.verdict = Free;
		r.why = why;
	}
	[[noreturn]] void openAll(const S& why)
	{
		open(why);
		throw Stop();
	}
	S arg(const char* option)
	{
		if (i >= w.size())
			reject(S(option) + " lacks an argument");
		return w[i++];
	}

	void addCustom(unsigned level, unsigned depth, unsigned face, bool once, const S& image)
	{
		if (!r.customs.insert({Key(level, depth, face), {image, once}}).second)
			reject("a custom mip given twice");
	}

	void customMip()
	{
		std::uint64_t n, d = 0;
		Num k = number(arg("-M"), n, UINT_MAX);
		if (k != Number)
			reject("custom mip level");
		unsigned face = 0;
		bool once = false;
		if (left())
		{
			k = number(w[i], d, UINT_MAX);
			if (k == TooLarge)
			{
				r.oversize = w[i];
				openAll("a depth too large for any texture, or a file of that name");
			}
			if (k == Number)
				++i;
			else
				d = 0;
		}
		if (left() && faceWord(w[i]) >= 0)
			face = unsigned(faceWord(w[i++]));
		if (left() && word(w[i], {"once", "continue"}) >= 0)
			once = word(w[i++], {"once", "continue"}) == 0;
		if (!left())
		{
			if (i >= 2 && number(w[i - 2], d, UINT_MAX) == Number && w[i - 1] != "-M")
				openAll("the only file name reads as a depth, a face or a replacement");
			if (once || face)
				openAll("the only file name reads as a depth, a face or a replacement");
			reject("no custom mip file");
		}
		addCustom(unsigned(n), unsigned(d), face, once, w[i++]);
	}

	void customList(const S& name)
	{
		auto f = files.find(name);
		if (f == files.end())
			reject("no custom mip list file");
		for (const S& line : lines(f->second))
		{
			// tokens with their offsets
			std::vector<std::pair<std::size_t, S>> t;
			for (std::size_t p = 0; p < line.size();)
			{
				if (strchr(" \t\v\f", line[p]))
				{
					++p;
					continue;
				}
				std::size_t e = line.find_first_of(" \t\v\f", p);
				if (e == S::npos)
					e = line.size();
				t.push_back({p, line.substr(p, e - p)});
				p = e;
			}
			if (t.empty())
				continue;
			std::uint64_t n, d = 0;
			std::size_t k = 0;
			if (number(t[k++].second, n, UINT_MAX) != Number)
				reject("custom mip level in the list");
			unsigned face = 0;
			bool once = false;
			if (k < t.size())
			{
				Num q = number(t[k].second, d, UINT_MAX);
				if (q == TooLarge)
				{
					r.oversize = line.substr(t[k].first);
					openAll("a depth too large in the list");
				}
				if (q == Number)
					++k;
				else
					d = 0;
			}
			if (k < t.size() && faceWord(t[k].second) >= 0)
				face = unsigned(faceWord(t[k++].second));
			if (k < t.size() && word(t[k].second, {"once", "continue"}) >= 0)
				once = word(t[k++].second, {"once", "continue"}) == 0;
			if (k == t.size())
			{
				if (t.size() > 1)
					openAll("the only file name in the list reads as a depth, a face or a replacement");
				reject("no file in the custom mip list");
			}
			addCustom(unsigned(n), unsigned(d), face, once, line.substr(t[k].first));
		}
	}

	void input(int kind, bool once)
	{
		if (r.kind >= 0 && (r.kind != kind || once || listed))
			reject("inputs of different types");
		r.kind = kind;
		listed = listed || once;
	}
	bool listed = false;

	void put(std::size_t index, const S& name)
	{
		if (r.images.size() <= index)
			r.images.resize(index + 1);
		if (!r.images[index].empty())
			reject("an input given twice");
		if (name.empty())
			open("empty input name"); // Still no crash; rejected in the end unless overwritten.
		r.images[index] = name;
	}

	void option()
	{
		S o = w[i++];
		auto is = [&](const char* s, const char* l) { return o == s || o == l; };
		std::uint64_t n;
		if (is("-j", "--jobs"))
		{
			r.jobs = Texture::allCores;
			if (left())
			{
				Num k = number(w[i], n, UINT_MAX);
				if (k == TooLarge)
					reject("number of jobs too large");
				if (k == Number)
				{
					++i;
					r.jobs = unsigned(n);
				}
			}
		}
		else if (is("-q", "--quiet"))
			r.log = 1;
		else if (is("-v", "--verbose"))
			r.log = 2;
		else if (is("-i", "--input"))
		{
			input(0, true);
			r.images.push_back(arg("-i"));
		}
		else if (is("-a", "--array"))
		{
			input(1, false);
			if (!left())
				reject("-a lacks a file");
			std::size_t index = r.images.size();
			if (left() >= 2)
			{
				Num k = number(w[i], n, UINT_MAX);
				if (k == TooLarge)
				{
					r.oversize = w[i];
					openAll("an index too large, or a file of that name");
				}
				if (k == Number)
				{
					++i;
					index = std::size_t(n);
				}
			}
			if (index > 10*w.size())
				reject("not all images can have been given");
			put(index, arg("-a"));
		}
		else if (is("-c", "--cube"))
		{
			input(2, false);
			if (left() < 2)
				reject("-c lacks arguments");
			int f = faceWord(arg("-c"));
			if (f < 0)
				reject("unknown face");
			if (r.images.empty())
				r.images.resize(6);
			put(std::size_t(f), arg("-c"));
		}
		else if (is("-C", "--cube-array"))
		{
			input(3, false);
			if (left() < 3)
				reject("-C lacks arguments");
			if (number(arg("-C"), n, UINT_MAX) != Number)
				reject("invalid index");
			int f = faceWord(arg("-C"));
			if (f < 0)
				reject("unknown face");
			if (n > 10*w.size())
				reject("not all images can have been given");
			if (r.images.size() < std::size_t(n + 1)*6)
				r.images.resize(std::size_t(n + 1)*6);
			put(std::size_t(n)*6 + std::size_t(f), arg("-C"));
		}
		else if (is("-I", "--input-list"))
		{
			if (left() < 2)
				reject("-I lacks arguments");
			int k = word(arg("-I"), {"image", "array", "cube", "cube-array"});
			if (k < 0)
				reject("unknown list type");
			input(k, true);
			auto f = files.find(arg("-I"));
			if (f == files.end())
				reject("no list file");
			r.images = lines(f->second);
		}
		else if (is("-r", "--resize"))
		{
			if (left() < 2)
				reject("-r lacks arguments");
			if (!sizeWord(arg("-r"), r.w) || !sizeWord(arg("-r"), r.h))
				reject("invalid size");
			RF before = r.resizeFilter;
			if (left() && filterWord(w[i], r.resizeFilter))
			{
				++i;
				r.freeResizeFilter = false;
			}
			else if (before != RF::CatmullRom)
				r.freeResizeFilter = true;
		}
		else if (is("-m", "--mipmap"))
		{
			r.mips = Texture::allMipLevels;
			if (left())
			{
				Num k = number(w[i], n, UINT_MAX);
				if (k == TooLarge)
					reject("number of mip levels too large");
				if (k == Number)
				{
					++i;
					r.mips = unsigned(n);
					if (!n)
						open("zero mip levels");
				}
			}
			RF before = r.mipFilter;
			if (left() && filterWord(w[i], r.mipFilter))
			{
				++i;
				r.freeMipFilter = false;
			}
			else if (before != RF::CatmullRom)
				r.freeMipFilter = true;
		}
		else if (is("-M", "--custom-mip"))
			customMip();
		else if (o == "--custom-mip-list")
			customList(arg("--custom-mip-list"));
		else if (o == "--flipx")
			r.flipX = true;
		else if (o == "--flipy")
			r.flipY = true;
		else if (o == "--rotate")
		{
			S a = arg("--rotate");
			bool neg = !a.empty() && a[0] == '-';
			Num k = number(neg ? a.substr(1) : a, n, 1ULL << 58);
			if (k == NotNumber)
				reject("invalid angle");
			if (k == TooLarge)
				openAll("a huge angle");
			if (n % 90)
				reject("not a multiple of 90");
			r.turns = int((n/90) % 4);
			if (neg)
				r.turns = (4 - r.turns) % 4;
		}
		else if (is("-n", "--normalmap"))
		{
			bool again = r.normal;
			r.normal = true;
			bool given = false;
			if (left() && word(w[i], {"wrap", "wrapx", "wrapy"}) >= 0)
			{
				static const unsigned m[] = {3, 1, 2};
				r.wrap = m[word(w[i++], {"wrap", "wrapx", "wrapy"})];
				given = true;
			}
			if (left() && !w[i].empty())
			{
				char* e;
				double h = strtod(w[i].c_str(), &e);
				if (!*e)
				{
					if (!std::isfinite(h))
						reject("height is not a number");
					++i;
					r.height = h;
				}
				else
					given = false;
			}
			else
				given = false;
			if (again)
				r.freeNormal = !given;
		}
		else if (is("-g", "--grayscale"))
			r.gray = true;
		else if (is("-s", "--swizzle"))
		{
			S a = lower(arg("-s"));
			if (a.size() != 4 || a.find_first_not_of("rgbax") != S::npos)
				reject("invalid swizzle");
			r.swizzle = true;
			strcpy(r.swz, a.c_str());
		}
		else if (o == "--srgb")
			r.srgb = true;
		else if (o == "--pre-multiply")
			r.premul = true;
		else if (is("-d", "--dimension"))
		{
			int d = word(arg("-d"), {"1", "2", "3"});
			if (d < 0)
				reject("unknown dimension");
			r.dim = d + 1;
		}
		else if (is("-f", "--format"))
		{
			S a = arg("-f");
			r.format = nullptr;
			for (const tex::Desc& d : tex::formats())
			{
				if (lower(d.name) == lower(a))
					r.format = &d;
			}
			if (!r.format)
				reject("unknown format");
		}
		else if (is("-t", "--type"))
		{
			r.type = word(arg("-t"), {"unorm", "snorm", "uint", "int", "ufloat", "float"});
			if (r.type < 0)
				reject("unknown type");
		}
		else if (o == "--alpha")
		{
			r.alpha = word(arg("--alpha"), {"none", "standard", "pre-multiplied", "encoded"});
			if (r.alpha < 0)
				reject("unknown alpha type");
		}
		else if (is("-Q", "--quality"))
		{
			r.quality = word(arg("-Q"), {"lowest", "low", "normal", "high", "highest"});
			if (r.quality < 0)
				reject("unknown quality");
		}
		else if (is("-o", "--output"))
		{
			S a = arg("-o");
			if (r.hasOutput)
				reject("output given twice");
			r.hasOutput = true;
			r.output = a;
		}
		else if (o == "--file-format")
		{
			r.file = 1 + word(arg("--file-format"), {"dds", "ktx", "pvr"});
			if (!r.file)
				reject("unknown file format");
		}
		else if (o == "--create-dir")
			r.create = true;
		else
			reject("unknown option '" + o + "'");
	}

	void whole()
	{
		if (r.images.empty())
			reject("no input");
		for (const S& s : r.images)
		{
			if (s.empty())
				reject("not all images given");
		}
		if (r.kind == 0 && r.images.size() != 1)
			reject("more than one image");
		if (r.kind == 2 && r.images.size() != 6)
			reject("not six faces");
		if (r.kind == 3 && r.images.size() % 6)
			reject("not a multiple of six faces");
		if (r.kind >= 2 && r.dim != 2)
			reject("cube of another dimension");
		if (!r.format)
			reject("no format");
		if (r.type < 0)
		{
			bool uf = S(r.format->name).find("UFloat") != S::npos;
			r.type = int(uf ? tex::TT::UFloat : tex::TT::UNorm);
		}
		if (!r.hasOutput)
			reject("no output");
		if (!r.file)
		{
			std::size_t dot = r.output.rfind('.');
			r.file = dot == S::npos ? 0 : 1 + word(r.output.substr(dot + 1), {"dds", "ktx", "pvr"});
			if (!r.file)
				reject("unknown file type");
		}
		if (!Texture::isFormatValid(r.format->format, tex::TT(r.type), Texture::FileType(r.file)))
			reject("format not supported");
		if (r.alpha < 0)
		{
			r.alpha = int(r.swz[3] == 'x' ? Texture::Alpha::None :
				r.premul ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard);
		}
		if (r.customs.empty())
			return;
		if (r.mips <= 1)
			reject("custom mips without mipmaps");
		unsigned depth = r.kind == 1 ? unsigned(r.images.size()) :
			r.kind == 3 ? unsigned(r.images.size()/6) : 1;
		std::map<unsigned, unsigned> counts;
		bool late = false;
		for (auto& c : r.customs)
		{
			unsigned level = std::get<0>(c.first), d = std::get<1>(c.first);
			if (level == 0)
				reject("custom mip for level 0");
			// Cannot be a level of the texture; the rest depends on the image's size.
			if (level >= 32 || level >= r.mips)
				late = true;
			unsigned count = r.dim != 3 ? depth : level >= 32 ? 1 : std::max(depth >> level, 1u);
			if (d >= count)
				reject("custom mip depth out of range");
			if (std::get<2>(c.first) && r.kind < 2)
				late = true;
			++counts[level];
		}
		if (r.dim == 3)
		{
			for (auto& c : counts)
			{
				unsigned count = c.first >= 32 ? 1 : std::max(depth >> c.first, 1u);
				// (a count may be made up by faces, which a volume does not have: left to later)
				if (c.second != count && !late)
					reject("not all custom depths of a level");
			}
		}
		if (late)
			open("custom mip level or face that is refused at the latest when the images are known");
	}

	Ref run()
	{
		for (const S& s : w)
		{
			if (s == "-h" || s == "--help")
			{
				r.verdict = Help;
				return r;
			}
		}
		if (w.empty())
		{
			r.verdict = Help;
			return r;
		}
		try
		{
			while (i < w.size())
				option();
			whole();
		}
		catch (Stop&)
		{
		}
		return r;
	}
};

S show(const Words& w)
{
	S s = "cuttlefish";
	for (const S& a : w)
	{
		s += ' ';
		bool q = a.empty() || a.find_first_of(" \n\r\t'") != S::npos;
		s += q ? "'" + a + "'" : a;
	}
	return s;
}

struct Capture
{
	std::ostringstream out, err;
	std::streambuf* o;
	std::streambuf* e;
	Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
	~Capture()
	{
		std::cout.rdbuf(o);
		std::cerr.rdbuf(e);
	}
};

const char* channelNames = "axrgb";
char channel(Image::Channel c)
{
	switch (c)
	{
		case Image::Channel::Red: return 'r';
		case Image::Channel::Green: return 'g';
		case Image::Channel::Blue: return 'b';
		case Image::Channel::Alpha: return 'a';
		default: return 'x';
	}
}

// Runs the parser on the words and compares.
void check(mc::Ctx& ctx, const Words& words)
{
	ctx.step();
	Ref r = Reader(words).run();
	std::vector<const char*> argv{"/usr/bin/cuttlefish"};
	for (const S& s : words)
		argv.push_back(s.c_str());
	argv.push_back(nullptr);
	CommandLine c;
	bool ok;
	S out, err;
	if (ctx.verbose())
		ctx.note("%s", show(words).c_str());
	{
		Capture cap;
		ok = c.parse(int(argv.size()) - 1, argv.data());
		out = cap.out.str();
		err = cap.err.str();
	}
	if (ctx.verbose())
	{
		ctx.note("  %s%s%s", ok ? "accepted" : "rejected", err.empty() ? "" : ": ", err.c_str());
		ctx.note("  reference: %s %s", r.verdict == Accept ? "accept" : r.verdict == Reject ? "reject" :
			r.verdict == Help ? "help" : "not prescribed", r.why.c_str());
	}
	const char* names[] = {"accepted", "rejected", "open", "help"};
	ctx.count(names[r.verdict]);
	S line = show(words);
	if (!ok && r.verdict != Help && err.find("error") == S::npos)
		ctx.fail("silent", "%s: rejected without a message", line.c_str());
	switch (r.verdict)
	{
		case Help:
			if (ok)
				ctx.fail("help", "%s: accepted", line.c_str());
			if (out.find("Usage") == S::npos)
				ctx.fail("help", "%s: no usage printed", line.c_str());
			return;
		case Reject:
			if (ok)
				ctx.fail("accepts " + r.why, "%s: accepted (%s)", line.c_str(), r.why.c_str());
			return;
		case Free:
			if (ok && !r.oversize.empty())
			{
				bool found = std::find(c.images.begin(), c.images.end(), r.oversize) != c.images.end();
				for (auto& m : c.customMipImages)
					found = found || m.second.image == r.oversize;
				if (!found)
					ctx.fail("oversize", "%s: accepted, '%s' was misread", line.c_str(), r.oversize.c_str());
			}
			return;
		case Accept:
			break;
	}
	if (!ok)
		ctx.fail("rejects", "%s: rejected: %s", line.c_str(), err.c_str());
	auto want = [&](bool good, const char* what, const S& got, const S& exp) {
		if (!good)
		{
			ctx.fail(S("setting ") + what, "%s: %s is %s instead of %s", line.c_str(), what, got.c_str(),
				exp.c_str());
		}
	};
	auto num = [&](const char* what, double got, double exp) {
		want(got == exp, what, mc::fmt("%.17g", got), mc::fmt("%.17g", exp));
	};
	if (r.jobs != 0)
		num("jobs", c.jobs, r.jobs);
	num("log", int(c.log), r.log);
	num("image type", int(c.imageType), r.kind);
	num("number of images", double(c.images.size()), double(r.images.size()));
	for (std::size_t i = 0; i < r.images.size(); ++i)
		want(c.images[i] == r.images[i], "image", c.images[i], r.images[i]);
	num("width", c.width, r.w);
	num("height", c.height, r.h);
	if (!r.freeResizeFilter)
		num("resize filter", int(c.resizeFilter), int(r.resizeFilter));
	num("mip levels", c.mipLevels, r.mips);
	if (!r.freeMipFilter)
		num("mip filter", int(c.mipFilter), int(r.mipFilter));
	num("number of custom mips", double(c.customMipImages.size()), double(r.customs.size()));
	for (auto& m : r.customs)
	{
		Texture::ImageIndex index(Texture::CubeFace(std::get<2>(m.first)), std::get<0>(m.first),
			std::get<1>(m.first));
		auto f = c.customMipImages.find(index);
		if (f == c.customMipImages.end())
		{
			ctx.fail("custom mip", "%s: no custom mip for level %u, depth %u, face %u", line.c_str(),
				std::get<0>(m.first), std::get<1>(m.first), std::get<2>(m.first));
		}
		want(f->second.image == m.second.image, "custom mip image", f->second.image, m.second.image);
		num("mip replacement", int(f->second.replacement),
			int(m.second.once ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
	}
	num("flipX", c.flipX, r.flipX);
	num("flipY", c.flipY, r.flipY);
	int turns = 0;
	if (c.rotate)
	{
		switch (c.rotateAngle)
		{
			case Image::RotateAngle::CW90: case Image::RotateAngle::CCW270: turns = 1; break;
			case Image::RotateAngle::CW180: case Image::RotateAngle::CCW180: turns = 2; break;
			case Image::RotateAngle::CW270: case Image::RotateAngle::CCW90: turns = 3; break;
			default: turns = 0; break;
		}
	}
	num("quarter turns", turns, r.turns);
	num("normal map", c.normalMap, r.normal);
	if (r.normal && !r.freeNormal)
	{
		unsigned opt = (bool(c.normalOptions & Image::NormalOptions::WrapX) ? 1 : 0) |
			(bool(c.normalOptions & Image::NormalOptions::WrapY) ? 2 : 0);
		num("normal map wrapping", opt, r.wrap);
		num("normal map height", c.normalHeight, r.height);
	}
	num("grayscale", c.grayscale, r.gray);
	char swz[5] = "rgba";
	if (c.swizzle)
	{
		swz[0] = channel(c.redSwzl);
		swz[1] = channel(c.greenSwzl);
		swz[2] = channel(c.blueSwzl);
		swz[3] = channel(c.alphaSwzl);
	}
	want(S(swz) == r.swz, "swizzle", swz, r.swz);
	S mask = {c.colorMask.r ? '1' : '0', c.colorMask.g ? '1' : '0', c.colorMask.b ? '1' : '0',
		c.colorMask.a ? '1' : '0'};
	S rmask;
	for (int k = 0; k < 4; ++k)
		rmask += r.swz[k] == 'x' ? '0' : '1';
	want(mask == rmask, "channel mask", mask, rmask);
	num("image colour space", int(c.imageColorSpace), int(r.srgb ? ColorSpace::sRGB : ColorSpace::Linear));
	bool native = r.srgb && r.type == int(tex::TT::UNorm) &&
		(r.format->format == tex::TF::R8G8B8 || r.format->format == tex::TF::B8G8R8 ||
		r.format->format == tex::TF::R8G8B8A8 || r.format->format == tex::TF::B8G8R8A8 ||
		r.format->format == tex::TF::A8B8G8R8);
	num("texture colour space", int(c.textureColorSpace),
		int(native ? ColorSpace::sRGB : ColorSpace::Linear));
	num("pre-multiply", c.preMultiply, r.premul);
	Texture::Dimension dim = r.kind >= 2 ? Texture::Dimension::Cube : r.dim == 1 ? Texture::Dimension::Dim1D :
		r.dim == 2 ? Texture::Dimension::Dim2D : Texture::Dimension::Dim3D;
	num("dimension", int(c.dimension), int(dim));
	num("format", int(c.format), int(r.format->format));
	num("type", int(c.type), r.type);
	num("alpha", int(c.alpha), r.alpha);
	num("quality", int(c.quality), r.quality);
	want(c.output && r.output == c.output, "output", c.output ? c.output : "(none)", r.output);
	num("file type", int(c.fileType), r.file);
	num("create directory", c.createOutputDir, r.create);
	if (ctx.wantSample())
		ctx.sample(line + ": accepted as described");
}

void writeFiles()
{
	files.clear();
	files["image.lst"] = "pic.png\n";
	files["array.lst"] = "p0.png\r\n\r\np 1.png\np2.png";
	files["cube.lst"] = "a\nb\nc\nd\ne\nf\n";
	files["five.lst"] = "a\nb\nc\nd\ne\n";
	files["cubes.lst"] = "a\nb\nc\nd\ne\nf\ng\nh\ni\nj\nk\nl\n";
	files["empty.lst"] = "";
	files["blank.lst"] = "\n\r\n\n";
	files["custom.lst"] = "1 0 +x once c1 x.png\n\n  2 c2.png\r\n";
	files["custom1.lst"] = "1 c1.png";
	files["custom0.lst"] = "0 c.png\n";
	files["customdup.lst"] = "1 a\n1 0 +x b\n";
	files["custombad.lst"] = "x a\n";
	files["customneg.lst"] = "-1 a\n";
	files["customhuge.lst"] = "1 4294967296 a\n";
	files["customhuge2.lst"] = "4294967297 a\n";
	files["customnofile.lst"] = "1\nc.png\n";
	files["customnofile2.lst"] = "1 0 +x once\n";
	for (auto& f : files)
		std::ofstream(f.first, std::ios::binary) << f.second;
}

void init()
{
	S dir = mc::scratch();
	if (chdir(dir.c_str()) != 0)
		abort();
	writeFiles();
}

const Words& vocabulary()
{
	static const Words l = {
		"", "0", "1", "2", "3", "40", "007", "4294967295", "4294967296", "18446744073709551615",
		"18446744073709551616", "2147483647", "2147483648", "-1", "-2147483648", "4x", "0x10", "1.5",
		"-0.25", "nan", "inf", "1e999", "90", "-90", "180", "-180", "270", "-270", "360", "450", "45",
		"nextpo2", "nearestpo2", "width", "width-nextpo2", "Width-NearestPO2", "height", "height-nextpo2",
		"height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "MAX", "max-nextpo2",
		"max-nearestpo2", "box", "Linear", "cubic", "b-spline", "catmull-rom", "lanczos", "wrap", "wrapX",
		"wrapy", "+x", "-X", "+y", "-y", "+z", "-z", "x", "once", "Continue", "rgba", "aBgX", "xxxx",
		"rgb", "rgbaa", "rgbq", "image", "array", "cube", "cube-array", "image.lst", "array.lst",
		"cube.lst", "cubes.lst", "five.lst", "empty.lst", "missing.lst", "custom.lst", "customdup.lst",
		"unorm", "SNorm", "uint", "int", "ufloat", "Float", "none", "standard", "pre-multiplied",
		"Encoded", "lowest", "low", "normal", "high", "Highest", "dds", "KTX", "pvr", "auto", "R8", "r8g8",
		"R16G16B16A16", "B10G11R11_UFloat", "e5b9g9r9_ufloat", "BC1_RGB", "R5G6B5", "Unknown", "out.ktx",
		"dir/out.PVR", "out", "out.png", "-q", "-x", "--", "-o", "-f", "-m",
	};
	return l;
}

const Words& optionWords()
{
	static const Words l = {"-j", "--jobs", "-q", "--quiet", "-v", "--verbose", "-i", "--input", "-a", "--array",
		"-c", "--cube", "-C", "--cube-array", "-I", "--input-list", "-r", "--resize", "-m", "--mipmap", "-M",
		"--custom-mip", "--custom-mip-list", "--flipx", "--flipy", "--rotate", "-n", "--normalmap", "-g",
		"--grayscale", "-s", "--swizzle", "--srgb", "--pre-multiply", "-d", "--dimension", "-f", "--format",
		"-t", "--type", "--alpha", "-Q", "--quality", "-o", "--output", "--file-format", "--create-dir",
		"-h", "--help", "--unknown", "-J", "--FLIPX", "file", "--custom-mip-lists", "-"};
	return l;
}

// The rest of a valid line, without the part that the option provides.
Words base(const S& option)
{
	Words w;
	bool input = option == "-i" || option == "--input" || option == "-a" || option == "--array" ||
		option == "-c" || option == "--cube" || option == "-C" || option == "--cube-array" ||
		option == "-I" || option == "--input-list";
	if (!input)
	{
		w.push_back("-i");
		w.push_back("pic.png");
	}
	if (option == "-M" || option == "--custom-mip" || option == "--custom-mip-list")
		w.push_back("-m");
	if (option != "-f" && option != "--format")
	{
		w.push_back("-f");
		w.push_back("R8G8B8A8");
	}
	if (option != "-o" && option != "--output")
	{
		w.push_back("-o");
		w.push_back("out.ktx");
	}
	return w;
}

// One option with every sequence of up to three words after it (thorough: more words), before or after
// the rest of the line.
void words(mc::Ctx& ctx, std::size_t index)
{
	const Words& voc = vocabulary();
	const S& option = optionWords()[index % optionWords().size()];
	std::size_t first = index/optionWords().size(); // first word, or none
	unsigned place = ctx.choose(3);
	Words w{option};
	if (first)
	{
		w.push_back(voc[first - 1]);
		bool shortName = option.size() == 2;
		static const S several = "-a -c -C -I -r -m -M -n";
		unsigned n = ctx.thorough() || shortName ? ctx.choose(unsigned(voc.size()) + 1) : 0;
		if (n)
		{
			w.push_back(voc[n - 1]);
			// The third word is relevant to the options with optional arguments.
			static const char* third[] = {"1", "90", "box", "2.5", "+x", "once", "pic.png", "wrap", "-q", "",
				"4294967296", "out.dds", "array.lst"};
			bool more = ctx.thorough() || several.find(option) != S::npos;
			unsigned m = more ? ctx.choose(sizeof(third)/sizeof(*third) + 1) : 0;
			if (m)
				w.push_back(third[m - 1]);
		}
	}
	Words b = base(option);
	Words line;
	if (place == 0)
	{
		line = w;
		line.insert(line.end(), b.begin(), b.end());
	}
	else if (place == 1)
	{
		line = b;
		line.insert(line.end(), w.begin(), w.end());
	}
	else
		line = w;
	check(ctx, line);
}

// Options with their arguments.
const std::vector<Words>& groups()
{
	static const std::vector<Words> l = {
		{"-f", "B10G11R11_UFloat"}, {"-f", "R8"}, {"-f", "bogus"}, {"--format", "R16G16"}, {"-t", "ufloat"},
		{"-t", "unorm"}, {"-t", "Float"}, {"-t", "bogus"}, {"-s", "rgbx"}, {"-s", "rgba"}, {"-s", "xgbr"},
		{"--alpha", "encoded"}, {"--alpha", "none"}, {"--pre-multiply"}, {"--srgb"}, {"-m"}, {"-m", "2"},
		{"-m", "box"}, {"-m", "3", "linear"}, {"-r", "3", "min"}, {"-r", "4", "5", "cubic"}, {"-q"}, {"-v"},
		{"-j"}, {"-j", "4"}, {"-n"}, {"-n", "wrapx"}, {"-n", "wrapy", "2.5"}, {"-n", "wrap", "0.5"}, {"-g"},
		{"--flipx"}, {"--flipy"}, {"--rotate", "90"}, {"--rotate", "-180"}, {"--rotate", "0"}, {"-d", "1"},
		{"-d", "2"}, {"-d", "3"}, {"-Q", "low"}, {"-Q", "highest"}, {"--file-format", "dds"},
		{"--file-format", "PVR"}, {"--create-dir"}, {"-M", "1", "c.png"}, {"-M", "1", "once", "d.png"},
		{"-M", "2", "0", "+x", "once", "e.png"}, {"--custom-mip-list", "custom.lst"}, {"-i", "x.png"},
		{"-a", "y.png"}, {"-o", "other.dds"}, {"bogus"},
	};
	return l;
}

void orders(mc::Ctx& ctx, std::size_t index)
{
	const auto& g = groups();
	std::vector<Words> seq;
	unsigned len = ctx.thorough() ? 4 : 3;
	seq.push_back(g[index % g.size()]);
	std::size_t second = index/g.size();
	if (second)
	{
		seq.push_back(g[second - 1]);
		while (seq.size() < len)
		{
			unsigned n = ctx.choose(unsigned(g.size()) + 1);
			if (!n)
				break;
			seq.push_back(g[n - 1]);
		}
	}
	// Where the required options stand: all in front, all behind, or around.
	unsigned place = ctx.choose(3);
	Words line;
	std::vector<Words> req = {{"-i", "pic.png"}, {"-f", "R8G8B8A8"}, {"-o", "out.ktx"}};
	std::size_t front = place == 0 ? 3 : place == 1 ? 0 : 1;
	for (std::size_t k = 0; k < front; ++k)
		line.insert(line.end(), req[k].begin(), req[k].end());
	for (const Words& w : seq)
		line.insert(line.end(), w.begin(), w.end());
	for (std::size_t k = front; k < 3; ++k)
		line.insert(line.end(), req[k].begin(), req[k].end());
	check(ctx, line);
}

const std::vector<Words>& inputGroups()
{
	static const std::vector<Words> l = {
		{"-i", "i0"}, {"-i", ""}, {"-a", "a0"}, {"-a", "0", "a1"}, {"-a", "1", "a2"}, {"-a", "2", "a3"},
		{"-a", "5", "a4"}, {"-a", "4000000000", "a5"}, {"-a", "-1", "a6"}, {"-a", "", "a7"}, {"-c", "+x", "c0"},
		{"-c", "-x", "c1"}, {"-c", "+y", "c2"}, {"-c", "w", "c3"}, {"-C", "0", "+x", "d0"},
		{"-C", "1", "-Z", "d1"}, {"-C", "-1", "+x", "d2"}, {"-C", "4000000000", "+x", "d3"},
		{"-C", "", "+x", "d4"}, {"-C", "18446744073709551615", "+x", "d5"},
		{"-C", "3074457345618258603", "+x", "d6"}, {"-C", "0", "w", "d7"}, {"-I", "image", "image.lst"},
		{"-I", "array", "array.lst"}, {"-I", "Cube", "cube.lst"}, {"-I", "cube-array", "cubes.lst"},
		{"-I", "array", "empty.lst"}, {"-I", "image", "blank.lst"}, {"-I", "cube-array", "five.lst"},
		{"-I", "image", "array.lst"}, {"-I", "cube", "empty.lst"}, {"-I", "array", "missing.lst"},
		{"-I", "volume", "array.lst"}, {"-a", "18446744073709551616", "a8"}, {"-d", "3"}, {"-d", "1"},
	};
	return l;
}

void inputs(mc::Ctx& ctx, std::size_t index)
{
	const auto& g = inputGroups();
	Words line = g[index % g.size()];
	std::size_t second = index/g.size();
	auto add = [&](std::size_t k) { line.insert(line.end(), g[k].begin(), g[k].end()); };
	if (second)
	{
		add(second - 1);
		for (unsigned k = 0; k < (ctx.thorough() ? 3u : 2u); ++k)
		{
			unsigned n = ctx.choose(unsigned(g.size()) + 1);
			if (!n)
				break;
			add(n - 1);
		}
	}
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	check(ctx, line);
}

// Complete cubes and cube arrays: every order of the faces, every set of faces left out or repeated.
const char* faces[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
void cubes(mc::Ctx& ctx, std::size_t index)
{
	Words line;
	unsigned order[6] = {0, 1, 2, 3, 4, 5};
	std::size_t p = index % 720;
	std::size_t kind = index/720;
	for (unsigned k = 0; k < 6; ++k)
	{
		std::size_t f = 1;
		for (unsigned q = 2; q <= 5 - k; ++q)
			f *= q;
		std::size_t at = p/f;
		p %= f;
		std::rotate(order + k, order + k + at, order + k + at + 1);
	}
	unsigned omit = ctx.choose(8); // 6: none, 7: one repeated
	for (unsigned k = 0; k < 6; ++k)
	{
		if (omit == k)
			continue;
		if (kind == 0)
		{
			for (S s : {S("-c"), S(faces[order[k]]), mc::fmt("f%u.png", order[k])})
				line.push_back(s);
		}
		else
		{
			// Two cubes, interleaved forwards or backwards.
			unsigned o2 = kind == 1 ? order[k] : order[5 - k];
			for (S s : {S("-C"), S("1"), S(faces[order[k]]), mc::fmt("g%u.png", order[k]), S("-C"), S("0"),
				S(faces[o2]), mc::fmt("h%u.png", o2)})
			{
				line.push_back(s);
			}
		}
	}
	if (omit == 7)
	{
		for (S s : {S(kind ? "-C" : "-c"), S(faces[order[0]]), S("again.png")})
		{
			line.push_back(s);
			if (s == "-C")
				line.push_back("0");
		}
	}
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	check(ctx, line);
}

// Array images in every order of given and omitted indices.
void arrays(mc::Ctx& ctx, std::size_t index)
{
	Words line;
	unsigned n = 1 + unsigned(index % 4);
	for (unsigned k = 0; k < n; ++k)
	{
		unsigned a = ctx.choose(6);
		line.push_back("-a");
		if (a)
			line.push_back(mc::fmt("%u", a - 1));
		line.push_back(mc::fmt("p%u.png", k));
	}
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	if (index >= 4)
	{
		line.push_back("-d");
		line.push_back(index >= 8 ? "3" : "1");
	}
	check(ctx, line);
}

template <std::size_t N>
const char* pick(mc::Ctx& ctx, const char* const (&l)[N]) { return l[ctx.choose(N)]; }

void finish(mc::Ctx& ctx, Words line, const std::vector<Words>& customs, const char* mips, unsigned how)
{
	if (mips)
	{
		line.push_back("-m");
		if (*mips)
			line.push_back(mips);
	}
	if (how == 0)
	{
		for (const Words& c : customs)
		{
			line.push_back("-M");
			line.insert(line.end(), c.begin(), c.end());
		}
	}
	else
	{
		S sep = how == 1 ? " " : how == 2 ? "\t " : "  ";
		S end = how == 1 ? "\n" : how == 2 ? "\r\n" : "\n \n";
		S text;
		for (const Words& c : customs)
		{
			if (how == 3)
				text += " ";
			for (std::size_t k = 0; k < c.size(); ++k)
				text += (k ? sep : S()) + c[k];
			text += end;
		}
		if (how == 2)
			text.resize(text.size() - 2); // no end of the last line
		files["gen.lst"] = text;
		std::ofstream("gen.lst", std::ios::binary) << text;
		line.push_back("--custom-mip-list");
		line.push_back("gen.lst");
		if (ctx.verbose())
			ctx.note("gen.lst: %s", text.c_str());
	}
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	check(ctx, line);
}

// Many images: as options in several orders and as lines of list files, with one left out or given twice; long
// and unusual names.
const unsigned manyCounts[] = {7, 8, 10, 12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257,
	258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500};
const unsigned nameLengths[] = {1, 2, 15, 16, 31, 32, 63, 64, 100, 127, 128, 250, 254, 255, 256, 257, 259, 260, 261,
	511, 512, 513, 1000, 1023, 1024, 1025, 4000, 4095, 4096, 4097, 8192, 10000};
void many(mc::Ctx& ctx, std::size_t index)
{
	unsigned n = manyCounts[index];
	unsigned kind = ctx.choose(5); // -a, -a without index, -C, list of an array, list of cubes
	unsigned order = ctx.choose(kind == 1 || kind > 2 ? 1 : 4);
	unsigned odd = ctx.choose(5); // complete, first/middle/last left out, last twice
	unsigned stride = n % 7 ? 7 : n % 5 ? 5 : n % 11 ? 11 : 13;
	std::vector<unsigned> at;
	for (unsigned k = 0; k < n; ++k)
	{
		unsigned e = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? k*stride % n : k ^ 1u;
		if (e >= n)
			e = k;
		bool left = (odd == 1 && e == 0) || (odd == 2 && e == n/2) || (odd == 3 && e == n - 1);
		if (!left)
			at.push_back(e);
		if (odd == 4 && e == n - 1)
			at.push_back(e);
	}
	Words line;
	S text;
	for (unsigned e : at)
	{
		if (kind == 0)
		{
			for (S w : {S("-a"), mc::fmt("%u", e), mc::fmt("p%u.png", e)})
				line.push_back(w);
		}
		else if (kind == 1)
		{
			line.push_back("-a");
			line.push_back(mc::fmt("p%u.png", e));
		}
		else if (kind == 2)
		{
			// The image left out is one face of the cube.
			for (unsigned f = 0; f < 6; ++f)
			{
				for (S w : {S("-C"), mc::fmt("%u", e), S(faces[f]), mc::fmt("q%u_%u.png", e, f)})
					line.push_back(w);
			}
		}
		else
			text += mc::fmt("p%u.png\n", e);
	}
	if (kind == 2 && odd > 0 && odd < 4)
	{
		unsigned e = odd == 1 ? 0 : odd == 2 ? n/2 : n - 1;
		for (unsigned f = 0; f < 5; ++f)
		{
			for (S w : {S("-C"), mc::fmt("%u", e), S(faces[(f + odd) % 6]), mc::fmt("q%u_%u.png", e, f)})
				line.push_back(w);
		}
	}
	if (kind > 2)
	{
		files["gen.lst"] = text;
		std::ofstream("gen.lst", std::ios::binary) << text;
		line = {"-I", kind == 3 ? "array" : "cube-array", "gen.lst"};
	}
	static const char* depths[] = {nullptr, "1", "3"};
	const char* d = kind == 0 ? pick(ctx, depths) : nullptr;
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	if (d)
	{
		line.push_back("-d");
		line.push_back(d);
	}
	check(ctx, line);
}

// Long names and names with unusual bytes.
void names(mc::Ctx& ctx, std::size_t index)
{
	unsigned n = nameLengths[index];
	static const char* odd[] = {"n", "\xff", "\x80", "\xc3\xa9", "-", "a b", "#", "\"", "\\", "%", "=", "*", "\x1a", "\x7f"};
	S unit = pick(ctx, odd);
	unsigned where = ctx.choose(3); // throughout, in the middle, at the end
	S name;
	if (where == 0)
	{
		while (name.size() < n)
			name += unit;
	}
	else
	{
		name.assign(n, 'm');
		name.insert(where == 1 ? n/2 : n, unit);
	}
	unsigned how = ctx.choose(5);
	if (name[0] == '-' || name.back() == ' ')
		return;
	Words line;
	S text = "first.png\n" + name + "\r\nlast.png\n";
	if (how < 2)
	{
		files["gen.lst"] = text;
		std::ofstream("gen.lst", std::ios::binary) << text;
		line = {"-I", "array", "gen.lst"};
		if (how == 1)
		{
			text = "1 0 " + name + "\n1 1 once " + name + "x\n";
			files["custom-gen.lst"] = text;
			std::ofstream("custom-gen.lst", std::ios::binary) << text;
			for (const char* s : {"-m", "--custom-mip-list", "custom-gen.lst"})
				line.push_back(s);
		}
	}
	else if (how == 2)
		line = {"-i", name};
	else if (how == 3)
		line = {"-a", "a.png", "-a", name};
	else
		line = {"-i", "a.png", "-m", "--custom-mip", "1", name};
	for (S s : {S("-f"), S("R8G8B8A8"), S("-o"), how == 2 ? name + ".ktx" : S("out.ktx")})
		line.push_back(s);
	check(ctx, line);
}

// Custom mip images, given as arguments and as lines of a list file.
struct Setup { const char* name; Words w; };
const std::vector<Setup>& setups()
{
	static const std::vector<Setup> l = {
		{"image", {"-i", "p.png"}}, {"volume1", {"-i", "p.png", "-d", "3"}},
		{"array", {"-I", "array", "array.lst"}}, {"volume", {"-I", "array", "array.lst", "-d", "3"}},
		{"cube", {"-I", "cube", "cube.lst"}}, {"cubes", {"-I", "cube-array", "cubes.lst"}},
		{"line", {"-i", "p.png", "-d", "1"}},
	};
	return l;
}
const char* levelAlphabet[] = {"1", "2", "3", "0", "31", "32", "40", "4294967295", "4294967297", "x", "-1", ""};
const char* depthAlphabet[] = {nullptr, "0", "1", "2", "3", "5", "6", "4294967295", "4294967296", "-1"};
const char* faceAlphabet[] = {nullptr, "+x", "-x", "-Z", "w"};
const char* replaceAlphabet[] = {nullptr, "once", "Continue"};
const char* mipAlphabet[] = {nullptr, "", "2", "3", "1", "40"};


void customs(mc::Ctx& ctx, std::size_t index)
{
	const Setup& s = setups()[index % setups().size()];
	const char* level = levelAlphabet[(index/setups().size()) % 12];
	unsigned how = unsigned(index/setups().size()/12);
	const char* mips = pick(ctx, mipAlphabet);
	Words c{level};
	if (const char* d = pick(ctx, depthAlphabet))
		c.push_back(d);
	if (const char* f = pick(ctx, faceAlphabet))
		c.push_back(f);
	if (const char* r = pick(ctx, replaceAlphabet))
		c.push_back(r);
	static const char* names[] = {"m.png", "m p.png", nullptr};
	if (const char* n = pick(ctx, names))
	{
		// An empty level is no token of a line, and shifts the others.
		c.push_back(n);
	}
	finish(ctx, s.w, {c}, mips, how);
}

// Several custom mips together.
void manyCustoms(mc::Ctx& ctx, std::size_t index)
{
	const Setup& s = setups()[index % setups().size()];
	unsigned how = unsigned(index/setups().size()) % 2;
	unsigned n = 2 + unsigned(index/setups().size()/2);
	std::vector<Words> cs;
	for (unsigned k = 0; k < n; ++k)
	{
		static const char* lv[] = {"1", "2"};
		static const char* dp[] = {nullptr, "1", "2"};
		static const char* fc[] = {nullptr, "-y"};
		Words c{pick(ctx, lv)};
		if (const char* d = pick(ctx, dp))
			c.push_back(d);
		if (const char* f = pick(ctx, fc))
			c.push_back(f);
		if (k == 1)
			c.push_back("once");
		c.push_back(mc::fmt("m%u", k));
		cs.push_back(c);
	}
	finish(ctx, s.w, cs, "", how);
}

// Every list file over a small alphabet.
// Every set of slices of the levels of a volume, in two orders, with one of them given twice or out of range.
const unsigned volumeDepths[] = {2, 3, 4, 5, 6, 7, 8, 9, 12};
void slices(mc::Ctx& ctx, std::size_t index)
{
	unsigned n = volumeDepths[index/4], how = index % 2;
	bool backwards = index/2 % 2;
	S text;
	for (unsigned k = 0; k < n; ++k)
		text += mc::fmt("s%u.png\n", k);
	files["volume-gen.lst"] = text;
	std::ofstream("volume-gen.lst", std::ios::binary) << text;
	std::vector<Words> all, cs;
	for (unsigned m = 1; m < 5; ++m)
	{
		for (unsigned z = 0; z < std::max(n >> m, 1u); ++z)
			all.push_back({mc::fmt("%u", m), mc::fmt("%u", z), mc::fmt("m%u_%u.png", m, z)});
	}
	for (const Words& c : all)
	{
		if (ctx.choose(2))
			cs.insert(backwards ? cs.begin() : cs.end(), c);
	}
	unsigned odd = ctx.choose(3);
	if (odd == 1 && !cs.empty())
		cs.push_back(cs[cs.size()/2]);
	else if (odd == 2)
		cs.push_back({"1", mc::fmt("%u", std::max(n >> 1, 1u)), "m.png"});
	finish(ctx, {"-I", "array", "volume-gen.lst", "-d", "3"}, cs, "", how);
}

void listFiles(mc::Ctx& ctx, std::size_t index)
{
	static const char* pieces[] = {"", "a", " ", "\n", "\r", "b c"};
	S text;
	unsigned n = ctx.thorough() ? 7 : 5;
	bool custom = index >= 24;
	text += pieces[index % 6];
	static const char* cp[] = {"", "1", " ", "\n", "\r", "+x", "\t", "once", "2"};
	for (unsigned k = 0; k < n; ++k)
	{
		unsigned c = ctx.choose(custom ? 9 : 6);
		if (!c)
			break;
		text += custom ? cp[c] : pieces[c];
	}
	// Whether white space at the end of a line belongs to the name is not prescribed.
	for (std::size_t k = 0; k < text.size(); ++k)
	{
		bool end = k + 1 == text.size() || text[k + 1] == '\n' || text[k + 1] == '\r';
		if ((text[k] == ' ' || text[k] == '\t') && end)
			return;
	}
	if (!custom)
	{
		for (const S& l : lines(text))
		{
			if (l[0] == ' ')
				return;
		}
	}
	files["gen.lst"] = text;
	std::ofstream("gen.lst", std::ios::binary) << text;
	static const char* kinds[] = {"image", "array", "cube", "cube-array"};
	Words line;
	if (custom)
		line = {"-I", "array", "array.lst", "-m", "--custom-mip-list", "gen.lst"};
	else
		line = {"-I", kinds[(index/6) % 4], "gen.lst"};
	for (const char* s : {"-f", "R8G8B8A8", "-o", "out.ktx"})
		line.push_back(s);
	if (ctx.verbose())
		ctx.note("gen.lst: %s", text.c_str());
	check(ctx, line);
}

// Every format, type and file type, with the parts in every order.
void formatTypes(mc::Ctx& ctx, std::size_t index)
{
	const tex::Desc& d = tex::formats()[index % tex::formats().size()];
	static const char* types[] = {nullptr, "unorm", "snorm", "uint", "int", "ufloat", "float"};
	static const char* outs[] = {"o.dds", "o.ktx", "o.pvr", "O.DDS", "a.dds/o", "a.b.Ktx"};
	std::vector<Words> parts{{"-i", "p"}, {"-f", index >= tex::formats().size() ? lower(d.name) : S(d.name)}};
	if (const char* t = pick(ctx, types))
		parts.push_back({"-t", t});
	parts.push_back({"-o", pick(ctx, outs)});
	static const char* ff[] = {nullptr, "dds", "ktx", "pvr"};
	if (const char* f = pick(ctx, ff))
		parts.push_back({"--file-format", f});
	if (ctx.choose(2))
		parts.push_back({"--srgb"});
	if (ctx.choose(2))
		parts.push_back({"--quiet"});
	Words line;
	while (!parts.empty())
	{
		unsigned k = parts.size() == 1 ? 0 : ctx.thorough() ? ctx.choose(unsigned(parts.size())) :
			ctx.choose(2) ? unsigned(parts.size()) - 1 : 0;
		line.insert(line.end(), parts[k].begin(), parts[k].end());
		parts.erase(parts.begin() + k);
	}
	check(ctx, line);
}

// The whole tool: the exit code, the message and whether there is output.
void tool(mc::Ctx& ctx, std::size_t index)
{
	static const std::vector<Words> extra = [] {
		std::vector<Words> l{{}};
		for (const Words& g : groups())
			l.push_back(g);
		for (Words w : std::vector<Words>{{"-M", "9", "pic.png"}, {"-M", "1", "-x", "pic.png"},
			{"-M", "40", "pic.png"}, {"-M", "4294967295", "pic.png"}, {"-M", "1", "1", "pic.png"},
			{"-h"}, {"--help"}, {"-r", "0", "5"}, {"-r", "-5", "5"}, {"-j", "-5"}, {"-m", "-1"}, {"--rotate", ""},
			{"-j", "3000000000"}, {"-j", "0"}, {"-m", "0"}, {"-f"}, {"-o"}, {"-t"}, {"-I"}})
		{
			l.push_back(w);
		}
		return l;
	}();
	Words line{"-i", "pic.png", "-f", "R8G8B8A8", "-o", "real.ktx"};
	const Words& a = extra[index % extra.size()];
	const Words& b = extra[ctx.choose(unsigned(extra.size()))];
	line.insert(line.end(), a.begin(), a.end());
	line.insert(line.end(), b.begin(), b.end());
	bool missing = false;
	for (const S& s : line)
		missing = missing || s == "c.png" || s == "d.png" || s == "e.png";
	missing = missing || std::find(line.begin(), line.end(), "custom.lst") != line.end();
	::unlink("real.ktx");
	{
		Image im(Image::Format::RGBA8, 8, 4);
		if (access("pic.png", R_OK) != 0 && !im.save("pic.png"))
			abort();
	}
	Ref r = Reader(line).run();
	std::vector<const char*> argv{"cuttlefish"};
	for (const S& s : line)
		argv.push_back(s.c_str());
	argv.push_back(nullptr);
	ctx.step();
	int code;
	S out, err;
	if (ctx.verbose())
		ctx.note("%s", show(line).c_str());
	{
		Capture cap;
		code = cuttlefish_tool_main(int(argv.size()) - 1, argv.data());
		out = cap.out.str();
		err = cap.err.str();
	}
	if (ctx.verbose())
		ctx.note("  exit code %d, %s", code, err.c_str());
	bool exists = access("real.ktx", F_OK) == 0;
	S text = show(line);
	::unlink("real.ktx");
	for (const char* f : {"other.dds", "out.ktx"})
	{
		if (access(f, F_OK) == 0)
			ctx.fail("stray output", "%s: wrote %s", text.c_str(), f);
	}
	// What the reader leaves open here is refused once the image is known (level, face), or allowed.
	bool mayAccept = r.verdict == Accept || r.verdict == Free;
	bool custom = !r.customs.empty();
	bool known = !missing && r.verdict == Free && custom && r.why.find("refused at the latest") != S::npos;
	if (code == 0 && (!mayAccept || known))
		ctx.fail("tool accepts", "%s: exit code 0 (%s)", text.c_str(), r.why.c_str());
	if ((code == 0) != exists)
		ctx.fail("tool output", "%s: exit code %d, output %s", text.c_str(), code, exists ? "left" : "missing");
	if (code != 0 && r.verdict != Help && err.find("error") == S::npos)
		ctx.fail("tool message", "%s: exit code %d without a message", text.c_str(), code);
	if (code != 0 && r.verdict == Accept && !missing && r.dim == 2)
	{
		bool deep = false;
		for (auto& c : r.customs)
			deep = deep || std::get<0>(c.first) > 3;
		if (!deep && r.w < 0 && !r.turns)
			ctx.fail("tool rejects", "%s: exit code %d: %s", text.c_str(), code, err.c_str());
	}
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec s;
	s.property = "C15";
	s.rule = "words: each option spelling followed by every sequence of up to two of the vocabulary's words and "
		"(for the options with several arguments, and all in the thorough tier) one more, before, after or without the rest of the line; orders: every sequence of up to three (thorough: "
		"four) options with arguments, around the required ones; inputs, cubes, arrays: every sequence of input "
		"options; many: up to 1500 images in four orders, one left out or repeated; names: long and unusual names; slices: every set of custom slices of volumes; customs: every custom mip argument combination, as arguments and in a list file; lists: every "
		"short list file; formats: every format, type, file name; tool: pairs of options through main";
	s.assumptions = {"reference reading of the help text in src/c15.cpp", "whether a format suits a file type is taken "
		"from the library (C20)", "settings are observed through CommandLine's members",
		"signs and white space before numbers are not tried"};
	s.workerInit = init;
	s.execTimeout = 60;
	s.families = {
		{"orders", [](bool) { return groups().size()*(groups().size() + 1); }, orders},
		{"words", [](bool) { return optionWords().size()*(vocabulary().size() + 1); }, words},
		{"inputs", [](bool) { return inputGroups().size()*(inputGroups().size() + 1); }, inputs},
		{"cubes", [](bool) { return std::size_t(720*3); }, cubes},
		{"arrays", [](bool) { return std::size_t(12); }, arrays},
		{"many", [](bool) { return sizeof(manyCounts)/sizeof(*manyCounts); }, many},
		{"names", [](bool) { return sizeof(nameLengths)/sizeof(*nameLengths); }, names},
		{"customs", [](bool) { return setups().size()*12*4; }, customs},
		{"many customs", [](bool t) { return setups().size()*2*(t ? 3 : 2); }, manyCustoms},
		{"slices", [](bool) { return 4*sizeof(volumeDepths)/sizeof(*volumeDepths); }, slices},
		{"lists", [](bool) { return std::size_t(36); }, listFiles},
		{"formats", [](bool) { return 2*tex::formats().size(); }, formatTypes},
		{"tool", [](bool) { return groups().size() + 20; }, tool},
	};
	(void)channelNames;
	return mc::run(argc, argv, s);
}
