// C17: images, textures and custom mip images behave like values under every sequence of copies,
// moves, assignments and modifications.
#include "texmodel.h"
using namespace tmod;

namespace
{

// ---------------------------------------------------------------- images
struct ImageModel
{
	bool known = true; // false: moved from, anything safe is fine
	bool valid = false;
	Image::Format format = Image::Format::Invalid;
	unsigned w = 0, h = 0;
	ColorSpace cs = ColorSpace::Linear;
	std::vector<unsigned char> bytes;
	bool operator==(const ImageModel& o) const
	{
		return valid == o.valid && (!valid || (format == o.format && w == o.w && h == o.h &&
			cs == o.cs && bytes == o.bytes));
	}
	std::string str() const
	{
		return !known ? "moved" : !valid ? "invalid" : mc::fmt("%ux%u %s %s %08x", w, h,
			img::find(format)->name, img::csName(cs), unsigned(mc::hashBytes(bytes.data(), bytes.size())));
	}
};

ImageModel observe(mc::Ctx& ctx, const Image& i, const std::string& what)
{
	ImageModel m;
	m.valid = i.isValid();
	if (m.valid != bool(i))
		ctx.fail("image:bool", "%s", what.c_str());
	if (!m.valid)
	{
		ColorRGBAd c;
		if (i.width() || i.height() || i.scanline(0) || i.getPixel(c, 0, 0) || i.bitsPerPixel() ||
			i.format() != Image::Format::Invalid)
			ctx.fail("image:invalid-content", "%s: an invalid image reports content", what.c_str());
		return m;
	}
	m.format = i.format();
	m.w = i.width();
	m.h = i.height();
	m.cs = i.colorSpace();
	const img::Desc* d = img::find(m.format);
	if (!d || !m.w || !m.h)
		ctx.fail("image:shape", "%s", what.c_str());
	m.bytes = img::bytes(*d, i);
	return m;
}

Image picture(unsigned id, Image::Format f, unsigned w, unsigned h, ColorSpace cs)
{
	return img::make(*img::find(f), w, h, cs, [&](unsigned x, unsigned y) {
		img::Px p;
		for (unsigned c = 0; c < 4; ++c)
			p[int(c)] = double((id*37 + x*29 + y*53 + c*71) % 256)/255.0;
		return p;
	});
}

const char* imageMutators[] = {"setPixel", "scanline write", "flipHorizontal", "flipVertical",
	"changeColorSpace", "grayscale", "preMultiplyAlpha", "swizzle", "reset", "initialize", "load garbage",
	"adjust range"};
const unsigned imageMutatorCount = sizeof(imageMutators)/sizeof(*imageMutators);

void mutateImage(Image& i, unsigned k)
{
	switch (k)
	{
		case 0:
		{
			ColorRGBAd c;
			i.getPixel(c, 0, 0);
			i.setPixel(0, 0, ColorRGBAd(c.r > 0.5 ? 0 : 1, c.g > 0.5 ? 0 : 1, c.b > 0.5 ? 0 : 1, 0.5), false);
			break;
		}
		case 1:
			if (i.isValid())
				static_cast<unsigned char*>(i.scanline(i.height() - 1))[0] ^= 1;
			break;
		case 2: i.flipHorizontal(); break;
		case 3: i.flipVertical(); break;
		case 4:
			i.changeColorSpace(i.colorSpace() == ColorSpace::Linear ? ColorSpace::sRGB : ColorSpace::Linear);
			break;
		case 5: i.grayscale(); break;
		case 6: i.preMultiplyAlpha(); break;
		case 7:
			i.swizzle(Image::Channel::Green, Image::Channel::Blue, Image::Channel::Red, Image::Channel::None);
			break;
		case 8: i.reset(); break;
		case 9:
			i.initialize(Image::Format::RGB8, 2, 1, ColorSpace::sRGB);
			for (unsigned b = 0; b < 6; ++b)
				static_cast<unsigned char*>(i.scanline(0))[b] = static_cast<unsigned char>(b);
			break;
		case 10: i.load("garbage", 7); break;
		case 11: Texture::adjustImageValueRange(i, Texture::Type::SNorm); break;
	}
}

enum Transfer { CopyConstruct, MoveConstruct, CopyAssign, MoveAssign, Swap, Derive, TransferCount };
const char* transferNames[] = {"copy-construct", "move-construct", "copy-assign", "move-assign", "swap",
	"derive"};

template <typename T>
void transfer(T*& a, T*& b, int op)
{
	switch (op)
	{
		case CopyConstruct:
		{
			T* n = new T(*b);
			delete a;
			if (&a == &b)
				b = n;
			a = n;
			break;
		}
		case MoveConstruct:
		{
			T* n = new T(std::move(*b));
			delete a;
			if (&a == &b)
				b = n;
			a = n;
			break;
		}
		case CopyAssign: { T& r = (*a = *b); if (&r != a) abort(); break; }
		case MoveAssign: { T& r = (*a = std::move(*b)); if (&r != a) abort(); break; }
		case Swap: std::swap(*a, *b); break;
	}
}

struct ImageWorld
{
	Image* s[3];
	ImageModel m[3];
	~ImageWorld() { for (Image* i : s) delete i; }
};

void checkImages(mc::Ctx& ctx, ImageWorld& w, unsigned slots, const char* op, const std::string& hist)
{
	std::uint64_t h = 1;
	for (unsigned i = 0; i < slots; ++i)
	{
		ImageModel now = observe(ctx, *w.s[i], hist);
		if (w.m[i].known && !(now == w.m[i]))
		{
			ctx.fail(std::string("image:") + op, "%s: image %u is %s, expected %s", hist.c_str(), i,
				now.str().c_str(), w.m[i].str().c_str());
		}
		h = mc::hashStr(w.m[i].str(), h);
		// No two images share pixels.
		for (unsigned j = 0; j < i; ++j)
		{
			if (w.s[i]->isValid() && w.s[j]->isValid() && w.s[i]->scanline(0) == w.s[j]->scanline(0))
				ctx.fail(std::string("image:shared-") + op, "%s: images %u and %u share memory",
					hist.c_str(), i, j);
		}
	}
	ctx.state(h);
	ctx.step();
}

void images(mc::Ctx& ctx, std::size_t index, unsigned slots, unsigned depth)
{
	const img::Desc& d = img::formats()[index % img::formats().size()];
	unsigned start = unsigned(index/img::formats().size());
	ImageWorld w;
	std::string hist = mc::fmt("%s %s", d.name, start & 1 ? "(second invalid)" : "");
	w.s[0] = new Image(picture(1, d.format, 3, 2, ColorSpace::Linear));
	w.s[1] = start & 1 ? new Image : new Image(picture(2, d.format, 2, 3, ColorSpace::sRGB));
	w.s[2] = new Image(picture(3, Image::Format::RGBA8, 1, 1, ColorSpace::Linear));
	for (unsigned i = 0; i < 3; ++i)
		w.m[i] = observe(ctx, *w.s[i], hist);
	unsigned n = slots*slots*TransferCount;
	for (unsigned s = 0; s < depth; ++s)
	{
		unsigned k = ctx.choose(n + slots*imageMutatorCount);
		if (k < n)
		{
			unsigned op = k % TransferCount, a = k/TransferCount % slots, b = k/TransferCount/slots;
			hist += mc::fmt("; %s %u <- %u", transferNames[op], a, b);
			if (ctx.verbose())
				ctx.note("%s %u <- %u", transferNames[op], a, b);
			if (op == Derive)
			{
				// Functions that return an image: even when there is nothing to do.
				for (int f = 0; f < 3; ++f)
				{
					ImageModel before = w.m[b];
					Image r = f == 0 ? w.s[b]->convert(w.s[b]->format()) : f == 1 ?
						w.s[b]->resize(w.s[b]->width(), w.s[b]->height(), Image::ResizeFilter::Box) :
						w.s[b]->rotate(Image::RotateAngle::CW180);
					if (f < 2 && before.known && before.valid && !(observe(ctx, r, hist) == before))
						ctx.fail("image:derive-same", "%s: function %d changed the image", hist.c_str(), f);
					// Modifying the result must not show in the source.
					mutateImage(r, 1);
					mutateImage(r, 2);
					checkImages(ctx, w, slots, "derive", hist);
				}
				continue;
			}
			ImageModel ma = w.m[a], mb = w.m[b];
			transfer(w.s[a], w.s[b], int(op));
			switch (op)
			{
				case CopyConstruct:
				case CopyAssign:
					w.m[a] = mb;
					break;
				case MoveConstruct:
					w.m[b].known = false;
					w.m[a] = mb;
					break;
				case MoveAssign:
					w.m[b].known = false;
					if (a != b)
						w.m[a] = mb;
					break;
				case Swap:
					w.m[a] = mb;
					w.m[b] = ma;
					break;
			}
			checkImages(ctx, w, slots, transferNames[op], hist);
		}
		else
		{
			unsigned op = (k - n) % imageMutatorCount, a = (k - n)/imageMutatorCount;
			hist += mc::fmt("; %s on %u", imageMutators[op], a);
			if (ctx.verbose())
				ctx.note("%s on %u", imageMutators[op], a);
			mutateImage(*w.s[a], op);
			bool was = w.m[a].known;
			w.m[a] = observe(ctx, *w.s[a], hist);
			if (!was && op != 8 && op != 9 && op != 10)
				w.m[a].known = false;
			checkImages(ctx, w, slots, imageMutators[op], hist);
		}
		// A moved-from image is known again once it was observed.
		for (unsigned i = 0; i < slots; ++i)
		{
			if (!w.m[i].known)
				w.m[i] = observe(ctx, *w.s[i], hist);
		}
	}
	if (ctx.wantSample())
		ctx.sample(hist);
}

// ---------------------------------------------------------------- textures
struct TextureWorld
{
	Texture* s[2];
	Model m[2];
	bool known[2] = {true, true};
	// Type, alpha kind and colour mask, which a texture has whether it is converted or not.
	unsigned settings[2];
	~TextureWorld() { delete s[0]; delete s[1]; }
};
const char* textureMutators[] = {"initialize", "set-all", "set-one", "convert", "mipmaps", "reset",
	"initialize-other"};
const unsigned textureMutatorCount = sizeof(textureMutators)/sizeof(*textureMutators);

struct Shape { D dim; unsigned w, h, d, mips; ColorSpace cs; };
const Shape shapes[] = {
	{D::Dim2D, 2, 2, 0, 2, ColorSpace::Linear}, {D::Cube, 1, 1, 2, 1, ColorSpace::sRGB},
	{D::Dim3D, 2, 1, 3, 2, ColorSpace::Linear}, {D::Dim1D, 3, 1, 2, 1, ColorSpace::sRGB},
};

bool mutateTexture(Texture& t, Model& m, unsigned op, const Shape& shape, const Shape& other, unsigned& id)
{
	auto set = [&](unsigned f, unsigned l, unsigned z) {
		Image i = picture(id++, l ? Image::Format::RGBA8 : Image::Format::RGBAF, m.width(l), m.height(l),
			m.cs);
		bool r = t.setImage(i, Face(f), l, z) == m.setImage(i, int(f), l, z);
		// The texture has its own copy.
		mutateImage(i, 1);
		mutateImage(i, 2);
		return r;
	};
	switch (op)
	{
		case 0:
			return t.initialize(shape.dim, shape.w, shape.h, shape.d, shape.mips, shape.cs) ==
				m.initialize(shape.dim, shape.w, shape.h, shape.d, shape.mips, shape.cs);
		case 1:
		{
			bool r = true;
			for (unsigned l = 0; l < m.mips; ++l)
				for (unsigned z = 0; z < m.depth(l); ++z)
					for (unsigned f = 0; f < m.faces; ++f)
						r = set(f, l, z) && r;
			return r;
		}
		case 2:
			return !m.valid || set(m.faces - 1, m.mips - 1, m.depth(m.mips - 1) - 1);
		case 3:
			return t.convert(TF::R8G8B8A8, TT::UNorm, Texture::Quality::Lowest, Texture::Alpha::Encoded,
				Texture::ColorMask(true, true, false, true), 1) == m.convert(TF::R8G8B8A8, TT::UNorm,
				Texture::Alpha::Encoded, Texture::ColorMask(true, true, false, true));
		case 4:
			return t.generateMipmaps(RF::Linear, Texture::allMipLevels) ==
				m.generateMipmaps(RF::Linear, Texture::allMipLevels, {});
		case 5:
			t.reset();
			m.reset();
			return true;
		default:
			return t.initialize(other.dim, other.w, other.h, other.d, other.mips, other.cs) ==
				m.initialize(other.dim, other.w, other.h, other.d, other.mips, other.cs);
	}
}

unsigned settingsOf(const Texture& t)
{
	Texture::ColorMask k = t.colorMask();
	return unsigned(t.type())*1000 + unsigned(t.alphaType())*100 + k.r*8u + k.g*4u + k.b*2u + k.a;
}

void checkTextures(mc::Ctx& ctx, TextureWorld& w, const char* op, const std::string& hist)
{
	std::uint64_t h = 2;
	for (int i = 0; i < 2; ++i)
	{
		if (!w.known[i])
		{
			// Moved from: it must be possible to ask it anything.
			const Texture& t = *w.s[i];
			volatile unsigned sum = t.width() + t.height() + t.depth() + t.mipLevelCount() +
				t.faceCount() + t.imagesComplete() + t.converted() + unsigned(t.dataSize()) +
				unsigned(t.getImage().isValid()) + t.isArray();
			(void)sum;
			std::vector<std::uint8_t> v;
			w.s[i]->save(v, Texture::FileType::DDS);
			continue;
		}
		validate(ctx, *w.s[i], w.m[i], std::string("texture:") + op, mc::fmt("%s: texture %d", hist.c_str(),
			i));
		unsigned settings = settingsOf(*w.s[i]);
		if (settings != w.settings[i])
			ctx.fail(std::string("texture:") + op + ":settings", "%s: texture %d has type, alpha kind and colour "
				"mask %u, expected those of what was assigned to it, %u", hist.c_str(), i, settings,
				w.settings[i]);
		validateSave(ctx, *w.s[i], w.m[i], std::string("texture:") + op, hist);
		h = mc::mix(h, w.m[i].hash());
	}
	ctx.state(h);
	ctx.step();
}

void textures(mc::Ctx& ctx, std::size_t index)
{
	const unsigned shapeCount = sizeof(shapes)/sizeof(*shapes);
	const Shape& sh = shapes[index % shapeCount];
	const Shape& other = shapes[(index + 1) % shapeCount];
	unsigned prepared = unsigned(index/shapeCount) % 16;
	TextureWorld w;
	w.s[0] = new Texture;
	w.s[1] = new Texture;
	unsigned id = 0;
	// Every pair of the four stages a texture can be in.
	static const char* stages[] = {"invalid", "empty", "complete", "converted"};
	std::string hist;
	for (int i = 0; i < 2; ++i)
	{
		unsigned stage = i ? prepared/4 : prepared % 4;
		for (unsigned k = 0; k < stage; ++k)
		{
			static const unsigned steps[] = {0, 1, 3};
			mutateTexture(*w.s[i], w.m[i], steps[k], i ? other : sh, sh, id);
		}
		hist += mc::fmt("%s%s %s", i ? ", " : "", stages[stage], dimName((i ? other : sh).dim));
	}
	for (int i = 0; i < 2; ++i)
		w.settings[i] = settingsOf(*w.s[i]);
	checkTextures(ctx, w, "start", hist);
	unsigned depth = (ctx.thorough() ? 3 : 2) + (index % 9 == 6);
	const unsigned n = 4*5;
	for (unsigned s = 0; s < depth; ++s)
	{
		unsigned k = ctx.choose(n + 2*textureMutatorCount);
		const char* name;
		if (k < n)
		{
			unsigned op = k % 5, a = k/5 % 2, b = k/10;
			name = transferNames[op];
			hist += mc::fmt("; %s %u <- %u", name, a, b);
			Model ma = w.m[a], mb = w.m[b];
			bool ka = w.known[a], kb = w.known[b];
			unsigned sa = w.settings[a], sb = w.settings[b];
			transfer(w.s[a], w.s[b], int(op));
			if (op == Swap)
			{
				w.m[a] = mb;
				w.known[a] = kb;
				w.m[b] = ma;
				w.known[b] = ka;
				w.settings[a] = sb;
				w.settings[b] = sa;
			}
			else
			{
				if (op == MoveConstruct || op == MoveAssign)
					w.known[b] = false;
				if (!(op == MoveAssign && a == b))
				{
					w.m[a] = mb;
					w.known[a] = kb;
					w.settings[a] = sb;
				}
			}
		}
		else
		{
			unsigned a = (k - n)/textureMutatorCount, op = (k - n) % textureMutatorCount;
			name = textureMutators[op];
			hist += mc::fmt("; %s on %u", name, a);
			if (op == 0 || op == 5 || op == 6)
				w.known[a] = true;
			else if (!w.known[a])
			{
				// Give it a value first: reusing a moved-from texture.
				w.s[a]->reset();
				w.m[a].reset();
				w.known[a] = true;
			}
			if (!mutateTexture(*w.s[a], w.m[a], op, sh, other, id))
				ctx.fail(std::string("texture:result-") + name, "%s", hist.c_str());
			w.settings[a] = settingsOf(*w.s[a]);
		}
		if (ctx.verbose())
			ctx.note("%s", hist.c_str());
		checkTextures(ctx, w, name, hist);
	}
}

// ---------------------------------------------------------------- custom mip images
typedef Texture::CustomMipImage CMI;
struct CustomModel
{
	bool known = true;
	MR rep;
	int external; // -1: owned
	ImageModel content;
};

void customs(mc::Ctx& ctx, std::size_t index)
{
	Image ext[2] = {picture(11, Image::Format::RGBA8, 2, 2, ColorSpace::Linear),
		picture(12, Image::Format::RGBAF, 1, 3, ColorSpace::sRGB)};
	ImageModel extModel[2];
	for (int i = 0; i < 2; ++i)
		extModel[i] = observe(ctx, ext[i], "external");
	unsigned id = 20;
	auto create = [&](unsigned kind, CustomModel& m) {
		m.known = true;
		m.rep = kind & 1 ? MR::Continue : MR::Once;
		if (kind < 4)
		{
			m.external = int(kind/2);
			m.content = extModel[kind/2];
			return new CMI(ext[kind/2], m.rep);
		}
		m.external = -1;
		Image i = picture(id++, kind < 6 ? Image::Format::Gray8 : Image::Format::RGB16, 2 + id % 2, 2,
			ColorSpace::Linear);
		m.content = observe(ctx, i, "owned");
		return new CMI(std::move(i), m.rep);
	};
	static const unsigned starts[] = {0, 3, 4, 7};
	CMI* s[2];
	CustomModel m[2];
	s[0] = create(starts[index % 4], m[0]);
	s[1] = create(starts[index/4 % 4], m[1]);
	std::string hist = mc::fmt("kinds %u %u", starts[index % 4], starts[index/4 % 4]);
	auto checkOne = [&](const CMI& c, const CustomModel& k, const char* op, const char* which) {
		ctx.step();
		if (!k.known)
			return;
		if (c.replacement != k.rep)
			ctx.fail(std::string("custom:replacement-") + op, "%s: %s has replacement %d, expected %d",
				hist.c_str(), which, int(c.replacement), int(k.rep));
		const Image* want = k.external < 0 ? &c.imageStorage : &ext[k.external];
		if (c.image != want)
			ctx.fail(std::string("custom:pointer-") + op, "%s: %s points to %s", hist.c_str(), which,
				c.image == ext || c.image == ext + 1 ? "an external image" : "neither its own nor the right "
				"image");
		if (!(observe(ctx, *c.image, hist) == k.content))
			ctx.fail(std::string("custom:content-") + op, "%s: content of %s", hist.c_str(), which);
		if (k.external >= 0 && c.imageStorage.isValid())
			ctx.fail(std::string("custom:leftover-") + op, "%s: %s keeps an image it does not use",
				hist.c_str(), which);
	};
	auto check = [&](const char* op) {
		std::uint64_t h = 3;
		for (int i = 0; i < 2; ++i)
		{
			checkOne(*s[i], m[i], op, i ? "the second" : "the first");
			h = mc::mix(mc::mix(h, unsigned(m[i].external + 1)*4 + unsigned(m[i].rep)*2 + m[i].known),
				mc::hashStr(m[i].content.str()));
			if (!(observe(ctx, ext[i], hist) == extModel[i]))
				ctx.fail(std::string("custom:external-") + op, "%s: an external image changed", hist.c_str());
		}
		ctx.state(h);
	};
	check("create");
	unsigned depth = ctx.thorough() ? 4 : 3;
	const unsigned n = 4*5;
	for (unsigned step = 0; step < depth; ++step)
	{
		unsigned k = ctx.choose(n + 2*8 + 3);
		const char* name;
		if (k < n)
		{
			unsigned op = k % 5, a = k/5 % 2, b = k/10;
			name = transferNames[op];
			hist += mc::fmt("; %s %u <- %u", name, a, b);
			CustomModel ma = m[a], mb = m[b];
			transfer(s[a], s[b], int(op));
			if (op == Swap)
			{
				if (a != b)
				{
					m[a] = mb;
					m[b] = ma;
				}
				else
					m[a].known = false; // self move assignment: safe, but nothing prescribed
			}
			else
			{
				if (op == MoveConstruct || op == MoveAssign)
					m[b].known = false;
				if (!(op == MoveAssign && a == b))
					m[a] = mb;
			}
		}
		else if (k < n + 16)
		{
			unsigned a = (k - n)/8, kind = (k - n) % 8;
			name = "recreate";
			hist += mc::fmt("; recreate %u as kind %u", a, kind);
			delete s[a];
			s[a] = create(kind, m[a]);
		}
		else if (k == n + 16)
		{
			name = "modify";
			hist += "; modify owned images";
			for (int i = 0; i < 2; ++i)
			{
				if (m[i].known && m[i].external < 0)
				{
					mutateImage(s[i]->imageStorage, 1);
					m[i].content = observe(ctx, s[i]->imageStorage, hist);
				}
			}
		}
		else if (k == n + 17)
		{
			// Through a growing vector and back.
			name = "vector";
			hist += "; through a vector";
			std::vector<CMI> v;
			for (int r = 0; r < 5; ++r)
				v.push_back(*s[r % 2]);
			for (unsigned i = 0; i < 5; ++i)
				checkOne(v[i], m[i % 2], name, "a vector element");
			v.erase(v.begin());
			for (unsigned i = 0; i < 4; ++i)
				checkOne(v[i], m[(i + 1) % 2], "vector-erase", "a vector element");
			*s[0] = v[1];
			*s[1] = v[0];
			for (int i = 0; i < 2; ++i)
				m[i].known = m[i].known;
		}
		else
		{
			// Through copies of the map passed to generateMipmaps.
			name = "map";
			hist += "; through a map";
			Texture::CustomMipImages a, b;
			a.emplace(Texture::ImageIndex(1), *s[0]);
			for (unsigned i = 2; i < 8; ++i)
				a.emplace(Texture::ImageIndex(i, i), *s[1]);
			b = a;
			Texture::CustomMipImages c(std::move(a));
			for (const Texture::CustomMipImages* x : {&b, &c})
			{
				if (x->size() != 7)
					ctx.fail("custom:map-size", "%s: %zu entries", hist.c_str(), x->size());
				for (auto& e : *x)
					checkOne(e.second, m[e.first.mipLevel > 1], name, "a map entry");
			}
		}
		if (ctx.verbose())
			ctx.note("%s", hist.c_str());
		check(name);
	}
	delete s[0];
	delete s[1];
}

} // namespace

int main(int argc, char** argv)
{
	mc::Spec spec;
	spec.property = "C17";
	spec.rule = "every sequence of copy/move construction, copy/move/self assignment, swap, derivation and "
		"12 modifications over 2 images (length 2, for some formats 3; 3 and 4 thorough) and 3 images (length 2; 3) of each pixel "
		"format; of transfers and 7 modifications over 2 textures starting in every pair of stages (length "
		"2 or 3; 3 or 4); of transfers, recreation and containers over 2 custom mip images (length 3; 4)";
	spec.assumptions = {"nothing is prescribed for the value of a moved-from object, only that it is safe"};
	spec.families = {
		{"images2", [](bool) { return img::formats().size()*2; },
			[](mc::Ctx& c, std::size_t i) {
				// In the quick run the longer sequences are for a few formats.
				bool deep = i % img::formats().size() % 7 == 2;
				images(c, i, 2, (c.thorough() ? 3 : 2) + deep); }},
		{"images3", [](bool) { return img::formats().size(); },
			[](mc::Ctx& c, std::size_t i) { images(c, i, 3, c.thorough() ? 3 : 2); }},
		{"textures", [](bool) { return std::size_t(64); }, textures},
		{"customs", [](bool) { return std::size_t(16); }, customs},
	};
	return mc::run(argc, argv, spec);
}
