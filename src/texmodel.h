// Reference model of a Texture: what the documentation says every operation does, as plain data.
// Shared by C08 (histories), C09 (mipmap generation) and C17 (value semantics).
#pragma once
#include "tex.h"
#include "img.h"
#include <map>
#include <memory>
#include <tuple>

namespace tmod
{
using namespace tex;
typedef Texture::Dimension D;
typedef Texture::CubeFace Face;
typedef Texture::MipReplacement MR;
typedef Image::ResizeFilter RF;

inline const char* dimName(D d)
{
	static const char* n[] = {"1D", "2D", "3D", "cube"};
	return n[int(d)];
}

// Pixels of a surface in RGBAF and the texture's colour space.
struct Pix
{
	unsigned w = 0, h = 0;
	std::vector<float> v;
	double tol = 0;        // relative to max(1, |value|)
	bool unknown = false;  // exists, but its values are not prescribed
};
typedef std::shared_ptr<const Pix> PP;

inline Image toImage(const Pix& p, ColorSpace cs)
{
	return makeImage(p.w, p.h, cs, [&](unsigned x, unsigned y, float* o) {
		memcpy(o, &p.v[(std::size_t(y)*p.w + x)*4], 16);
	});
}

inline Pix fromRGBAF(const Image& i)
{
	Pix p;
	p.w = i.width();
	p.h = i.height();
	p.v.resize(std::size_t(p.w)*p.h*4);
	for (unsigned y = 0; y < p.h; ++y)
		memcpy(&p.v[std::size_t(y)*p.w*4], i.scanline(y), std::size_t(p.w)*16);
	return p;
}

// Any image as RGBAF pixels in a colour space.
inline Pix fromAny(const Image& i, ColorSpace cs)
{
	const img::Desc& d = *img::find(i.format());
	Pix p;
	p.w = i.width();
	p.h = i.height();
	for (unsigned y = 0; y < p.h; ++y)
	{
		for (unsigned x = 0; x < p.w; ++x)
		{
			img::Px c = img::read(d, i, x, y);
			for (int k = 0; k < 3; ++k)
			{
				if (i.colorSpace() != cs)
					c[k] = cs == ColorSpace::Linear ? img::toLinear(c[k]) : img::toSRGB(c[k]);
			}
			for (int k = 0; k < 4; ++k)
				p.v.push_back(float(c[k]));
		}
	}
	p.tol = i.colorSpace() == cs && i.format() == Image::Format::RGBAF ? 0 : 2e-6;
	// The 16-bit formats may be expanded through 8 bits per channel.
	if (d.format == Image::Format::RGB5 || d.format == Image::Format::RGB565)
		p.tol = i.colorSpace() == cs ? 0.004 : 0.03;
	return p;
}

inline Pix resized(const Pix& p, unsigned w, unsigned h, RF filter, ColorSpace cs)
{
	if (p.unknown)
	{
		Pix r;
		r.w = w;
		r.h = h;
		r.unknown = true;
		return r;
	}
	if (p.w == w && p.h == h)
		return p;
	Pix r = fromRGBAF(toImage(p, cs).resize(w, h, filter));
	r.tol = std::max(p.tol, 2e-5);
	return r;
}

// Reduction of a stack of slices along Z, in linear light.
inline std::vector<Pix> reduceZ(const std::vector<Pix>& in, unsigned depth, RF filter, ColorSpace cs)
{
	std::vector<Pix> out;
	double scale = double(in.size())/depth, width = std::max(scale, 1.0);
	for (unsigned d = 0; d < depth; ++d)
	{
		Pix o;
		o.w = in[0].w;
		o.h = in[0].h;
		o.v.resize(in[0].v.size());
		o.tol = 2e-5;
		double center = (d + 0.5)*scale, total = 0;
		std::vector<double> weight(in.size());
		for (std::size_t i = 0; i < in.size(); ++i)
		{
			double x = std::fabs(double(i) + 0.5 - center)/width;
			if (filter == RF::Box)
			{
				weight[i] = x <= 0.5;
				if (std::fabs(x - 0.5) < 1e-9)
					o.unknown = true; // a slice centre on the edge of the box
			}
			else
				weight[i] = std::max(1 - x, 0.0);
			total += weight[i];
			o.tol = std::max(o.tol, in[i].tol);
			o.unknown = o.unknown || (weight[i] > 0 && in[i].unknown);
		}
		if (!o.unknown)
		{
			for (std::size_t k = 0; k < o.v.size(); ++k)
			{
				bool lin = cs == ColorSpace::sRGB && k % 4 != 3;
				double s = 0;
				for (std::size_t i = 0; i < in.size(); ++i)
				{
					if (weight[i] > 0)
						s += weight[i]*(lin ? img::toLinear(in[i].v[k]) : in[i].v[k]);
				}
				s /= total;
				o.v[k] = float(lin ? img::toSRGB(s) : s);
			}
		}
		out.push_back(o);
	}
	return out;
}

typedef std::vector<std::vector<std::vector<PP>>> Surfaces; // mip, depth, face

struct Custom { Face face; unsigned mip, depth; const Image* image; MR replacement; };

struct Model
{
	bool valid = false;
	D dim = D::Dim2D;
	ColorSpace cs = ColorSpace::Linear;
	unsigned w = 0, h = 0, d = 0, mips = 0, faces = 0;
	Surfaces images;
	bool converted = false;
	TF format = TF::Unknown;
	TT type = TT::UNorm;
	Texture::Alpha alpha = Texture::Alpha::Standard;
	Texture::ColorMask mask;
	Surfaces data;

	static unsigned levels(D dim, unsigned w, unsigned h, unsigned d)
	{
		unsigned m = std::max(w, h), n = 0;
		if (dim == D::Dim3D)
			m = std::max(m, d);
		for (; m; m >>= 1)
			++n;
		return n;
	}
	unsigned width(unsigned m) const { return m < mips ? std::max(w >> m, 1u) : 0; }
	unsigned height(unsigned m) const { return m < mips ? std::max(h >> m, 1u) : 0; }
	unsigned depth(unsigned m) const
	{
		return m >= mips ? 0 : dim == D::Dim3D ? std::max(d >> m, 1u) : std::max(d, 1u);
	}
	void sizeImages()
	{
		images.resize(mips);
		for (unsigned m = 0; m < mips; ++m)
		{
			images[m].resize(depth(m));
			for (auto& f : images[m])
				f.resize(faces);
		}
	}
	bool complete() const
	{
		if (!valid)
			return false;
		for (auto& m : images)
			for (auto& x : m)
				for (auto& f : x)
				{
					if (!f)
						return false;
				}
		return true;
	}

	void reset() { *this = Model(); }
	bool initialize(D dim_, unsigned w_, unsigned h_, unsigned d_, unsigned mips_, ColorSpace cs_)
	{
		reset();
		if (!w_ || !h_ || (dim_ == D::Dim1D && h_ != 1) || (dim_ == D::Dim3D && !d_))
			return false;
		valid = true;
		dim = dim_;
		cs = cs_;
		w = w_;
		h = h_;
		d = d_;
		mips = std::min(std::max(mips_, 1u), levels(dim, w, h, d));
		faces = dim == D::Cube ? 6 : 1;
		sizeImages();
		return true;
	}
	// face < 0: the overload without a face.
	bool canSet(const Image& i, int face, unsigned m, unsigned z) const
	{
		if (!valid || !i.isValid() || z >= depth(m) || i.width() != width(m) ||
			i.height() != height(m))
			return false;
		return face < 0 ? faces == 1 : faces == 6 || face == 0;
	}
	bool setImage(const Image& i, int face, unsigned m, unsigned z)
	{
		if (!canSet(i, face, m, z))
			return false;
		images[m][z][unsigned(std::max(face, 0))] = std::make_shared<Pix>(fromAny(i, cs));
		return true;
	}

	bool generateMipmaps(RF filter, unsigned levels_, const std::vector<Custom>& customs)
	{
		if (!valid)
			return false;
		for (auto& z : images[0])
			for (auto& f : z)
			{
				if (!f)
					return false;
			}
		for (const Custom& c : customs)
		{
			if (!c.image || !c.image->isValid())
				return false;
		}
		auto find = [&](unsigned f, unsigned m, unsigned z) -> const Custom* {
			for (const Custom& c : customs)
			{
				if (unsigned(c.face) == f && c.mip == m && c.depth == z)
					return &c;
			}
			return nullptr;
		};
		unsigned n = std::min(std::max(levels_, 1u), levels(dim, w, h, d));
		if (dim == D::Dim3D)
		{
			for (unsigned m = 1; m < n; ++m)
			{
				const Custom* first = find(0, m, 0);
				for (unsigned z = 1; z < std::max(d >> m, 1u); ++z)
				{
					const Custom* c = find(0, m, z);
					if (!c != !first || (c && c->replacement != first->replacement))
						return false;
				}
			}
		}
		mips = n;
		images.resize(1);
		sizeImages();
		converted = false;
		format = TF::Unknown;
		data.clear();
		auto custom = [&](const Custom& c, unsigned m) {
			Pix p = fromAny(*c.image, cs);
			bool same = p.w == width(m) && p.h == height(m);
			Pix r = resized(p, width(m), height(m), filter, cs);
			const img::Desc& desc = *img::find(c.image->format());
			// A resize in the custom image's own format may round to its steps.
			if (!same && desc.kind != img::Flt)
				r.tol = std::max(r.tol, 1.5*img::stepSize(desc, desc.chans[0], 1));
			else if (!same)
				r.tol = std::max(r.tol, 1e-4);
			return r;
		};
		if (dim == D::Dim3D)
		{
			std::vector<Pix> chain; // what the next generated level is reduced from
			for (auto& z : images[0])
				chain.push_back(*z[0]);
			for (unsigned m = 1; m < n; ++m)
			{
				for (Pix& p : chain)
					p = resized(p, width(m), height(m), filter, cs);
				chain = reduceZ(chain, depth(m), filter, cs);
				std::vector<Pix> level = chain;
				if (const Custom* first = find(0, m, 0))
				{
					for (unsigned z = 0; z < depth(m); ++z)
						level[z] = custom(*find(0, m, z), m);
					if (first->replacement == MR::Continue)
						chain = level;
				}
				for (unsigned z = 0; z < depth(m); ++z)
					images[m][z][0] = std::make_shared<Pix>(level[z]);
			}
		}
		else
		{
			for (unsigned z = 0; z < depth(0); ++z)
			{
				for (unsigned f = 0; f < faces; ++f)
				{
					Pix chain = *images[0][z][f];
					for (unsigned m = 1; m < n; ++m)
					{
						chain = resized(chain, width(m), height(m), filter, cs);
						Pix level = chain;
						if (const Custom* c = find(f, m, z))
						{
							level = custom(*c, m);
							if (c->replacement == MR::Continue)
								chain = level;
						}
						images[m][z][f] = std::make_shared<Pix>(level);
					}
				}
			}
		}
		return true;
	}

	bool convert(TF f, TT t, Texture::Alpha a, Texture::ColorMask k)
	{
		bool ok = false, native = false;
		for (const Pair& p : pairs())
			ok = ok || (p.d->format == f && p.type == t);
		for (TF s : {TF::R8G8B8, TF::B8G8R8, TF::R8G8B8A8, TF::B8G8R8A8, TF::A8B8G8R8})
			native = native || (s == f && t == TT::UNorm);
		if (!complete() || !ok || (cs == ColorSpace::sRGB && !native))
			return false;
		converted = true;
		format = f;
		type = t;
		alpha = a;
		mask = k;
		data = images;
		for (auto& m : images)
			for (auto& x : m)
				for (auto& s : x)
					s.reset();
		return true;
	}

	std::uint64_t hash() const
	{
		std::uint64_t x = mc::mix(7, std::uint64_t(valid));
		for (std::uint64_t v : {std::uint64_t(dim), std::uint64_t(cs), std::uint64_t(w),
			std::uint64_t(h), std::uint64_t(d), std::uint64_t(mips), std::uint64_t(converted),
			std::uint64_t(format), std::uint64_t(type), std::uint64_t(alpha)})
			x = mc::mix(x, v);
		for (const Surfaces* s : {&images, &data})
			for (auto& m : *s)
				for (auto& z : m)
					for (auto& f : z)
						x = f ? mc::hashBytes(f->v.data(), f->v.size()*4, x) : mc::mix(x, 3);
		return x;
	}
	std::string str() const
	{
		if (!valid)
			return "invalid";
		unsigned have = 0, all = 0;
		for (auto& m : images)
			for (auto& z : m)
				for (auto& f : z)
				{
					++all;
					have += f != nullptr;
				}
		return mc::fmt("%s %ux%ux%u mips %u %s images %u/%u%s", dimName(dim), w, h, d, mips,
			img::csName(cs), have, all, converted ? " converted" : "");
	}
};

inline const Desc* descOf(TF f)
{
	for (const Desc& d : formats())
	{
		if (d.format == f)
			return &d;
	}
	return nullptr;
}

// Compares everything observable; afterwards the model holds the exact observed pixels.
// keyPrefix distinguishes the operation that was just done.
inline void validate(mc::Ctx& ctx, const Texture& t, Model& m, const std::string& key,
	const std::string& what)
{
	auto chk = [&](const char* n, unsigned long have, unsigned long want) {
		if (have != want)
			ctx.fail(key + ":" + n, "%s: %s is %lu, expected %lu (model: %s)", what.c_str(), n, have,
				want, m.str().c_str());
		ctx.step();
	};
	chk("isValid", t.isValid(), m.valid);
	chk("bool", bool(t), m.valid);
	if (m.valid)
	{
		chk("dimension", unsigned(t.dimension()), unsigned(m.dim));
		chk("colorSpace", unsigned(t.colorSpace()), unsigned(m.cs));
	}
	chk("isArray", t.isArray(), m.valid && m.dim != D::Dim3D && m.d > 0);
	chk("mipLevelCount", t.mipLevelCount(), m.mips);
	chk("faceCount", t.faceCount(), m.faces);
	chk("imagesComplete", t.imagesComplete(), m.complete());
	chk("converted", t.converted(), m.converted);
	chk("format", unsigned(t.format()), unsigned(m.converted ? m.format : TF::Unknown));
	if (m.converted)
	{
		chk("type", unsigned(t.type()), unsigned(m.type));
		chk("alphaType", unsigned(t.alphaType()), unsigned(m.alpha));
		Texture::ColorMask k = t.colorMask();
		chk("colorMask", k.r*8u + k.g*4u + k.b*2u + k.a, m.mask.r*8u + m.mask.g*4u + m.mask.b*2u +
			m.mask.a);
	}
	for (unsigned l = 0; l < m.mips + 3; ++l)
	{
		chk("width", t.width(l), m.width(l));
		chk("height", t.height(l), m.height(l));
		chk("depth", t.depth(l), m.depth(l));
		for (unsigned z = 0; z < m.depth(l) + 2; ++z)
		{
			bool in = z < m.depth(l);
			for (unsigned f = 0; f < 6; ++f)
			{
				bool has = in && f < m.faces;
				PP want = has ? m.images[l][z][f] : nullptr;
				const Image& i = t.getImage(Face(f), l, z);
				std::string where = mc::fmt("%s: image mip %u depth %u face %u", what.c_str(), l, z, f);
				if (i.isValid() != (want != nullptr))
					ctx.fail(key + ":image", "%s is %s", where.c_str(), i.isValid() ? "present" : "missing");
				if (f == 0)
				{
					const Image& j = t.getImage(l, z);
					if (j.isValid() != (want != nullptr && m.faces == 1) || (j.isValid() && &j != &i))
						ctx.fail(key + ":image-overload", "%s without a face", where.c_str());
				}
				if (want)
				{
					if (i.format() != Image::Format::RGBAF || i.colorSpace() != m.cs ||
						i.width() != m.width(l) || i.height() != m.height(l))
					{
						ctx.fail(key + ":image-shape", "%s: %ux%u format %d %s", where.c_str(), i.width(),
							i.height(), int(i.format()), img::csName(i.colorSpace()));
					}
					Pix have = fromRGBAF(i);
					if (!want->unknown)
					{
						for (std::size_t k = 0; k < have.v.size(); ++k)
						{
							double e = want->v[k], a = have.v[k];
							if (!(std::fabs(e - a) <= want->tol*std::max(1.0, std::fabs(e))))
								ctx.fail(key + ":pixel", "%s: pixel %zu channel %zu is %.9g, expected %.9g",
									where.c_str(), k/4, k % 4, a, e);
						}
					}
					if (want->tol > 0 || want->unknown)
						m.images[l][z][f] = std::make_shared<Pix>(have);
				}
				PP src = has && m.converted ? m.data[l][z][f] : nullptr;
				const Desc* desc = m.converted ? descOf(m.format) : nullptr;
				std::size_t size = src ? std::size_t(m.width(l))*m.height(l)*unsigned(desc->bytes) : 0;
				const unsigned char* data = static_cast<const unsigned char*>(t.data(Face(f), l, z));
				if (t.dataSize(Face(f), l, z) != size || (data != nullptr) != (src != nullptr))
					ctx.fail(key + ":data", "%s: %zu bytes of data (%s), expected %zu", where.c_str(),
						t.dataSize(Face(f), l, z), data ? "present" : "null", size);
				if (f == 0)
				{
					bool sees = src && m.faces == 1;
					if (t.dataSize(l, z) != (sees ? size : 0) ||
						static_cast<const unsigned char*>(t.data(l, z)) != (sees ? data : nullptr))
						ctx.fail(key + ":data-overload", "%s without a face", where.c_str());
				}
				if (src && desc->kind == Plain)
				{
					for (std::size_t k = 0; k < size/unsigned(desc->bytes); ++k)
					{
						for (const Chan& c : desc->chans)
						{
							std::uint64_t raw = rawBits(data + k*unsigned(desc->bytes), c);
							if (checkChannel(*desc, m.type, c, raw, src->v[k*4 + unsigned(c.ch)]))
								ctx.fail(key + ":texel", "%s: texel %zu channel %d is 0x%llx for %.9g",
									where.c_str(), k, c.ch, (unsigned long long)raw,
									src->v[k*4 + unsigned(c.ch)]);
						}
					}
				}
				ctx.step();
			}
		}
	}
	for (unsigned l : {~0u, 0x80000000u, 40000u})
	{
		if (t.width(l) || t.height(l) || t.depth(l) || t.getImage(l).isValid() || t.data(l) ||
			t.dataSize(l) || t.getImage(Face::PosX, 0, l).isValid() || t.data(Face::PosX, 0, l))
			ctx.fail(key + ":outside", "%s: something at index %u", what.c_str(), l);
	}
}

// What validate() does to the model, without the comparison (for replaying a validated prefix).
inline void adopt(const Texture& t, Model& m)
{
	for (unsigned l = 0; l < m.mips; ++l)
	{
		for (unsigned z = 0; z < m.depth(l); ++z)
		{
			for (unsigned f = 0; f < m.faces; ++f)
			{
				PP& p = m.images[l][z][f];
				if (p && (p->tol > 0 || p->unknown))
					p = std::make_shared<Pix>(fromRGBAF(t.getImage(Face(f), l, z)));
			}
		}
	}
}

// Saving is possible exactly when there is data, and does not change anything.
inline void validateSave(mc::Ctx& ctx, Texture& t, const Model& m, const std::string& key,
	const std::string& what)
{
	for (Texture::FileType ft : {Texture::FileType::DDS, Texture::FileType::KTX,
		Texture::FileType::PVR, Texture::FileType::Auto})
	{
		std::vector<std::uint8_t> out;
		Texture::SaveResult r = t.save(out, ft);
		Texture::SaveResult want = !m.converted ? Texture::SaveResult::Invalid :
			ft == Texture::FileType::Auto ? Texture::SaveResult::UnknownFormat :
			Texture::isFormatValid(m.format, m.type, ft) ? Texture::SaveResult::Success :
			Texture::SaveResult::Unsupported;
		std::size_t payload = 0;
		for (auto& l : m.data)
			for (auto& z : l)
				for (auto& f : z)
					payload += f->v.size()/4*unsigned(descOf(m.format)->bytes);
		if (r != want || (r == Texture::SaveResult::Success && out.size() < payload))
			ctx.fail(key + ":save", "%s: saving as %d gives %d and %zu bytes, expected %d", what.c_str(),
				int(ft), int(r), out.size(), int(want));
		ctx.step();
	}
}

} // namespace tmod
