// See shim/codecs/stand_in.h.
#include "stand_in.h"
#include "mc.h"
#include <cmath>
#include <cstring>
#include <squish.h>
#include <rgbcx.h>
#include <cmp_core.h>
#include <bc7enc.h>
#include <Etc.h>
#include <astcenc.h>
#include <PVRTexLib.hpp>

namespace codec
{
void (*hook)(const Call& call, std::uint64_t id) = nullptr;
static void ignore(const char*) {}
void (*misuse)(const char* what) = ignore;
int openOptions = 0;
int openContexts = 0;
bool counting = true;

double halfValue(unsigned h)
{
	int e = (h >> 10) & 31, m = h & 1023;
	double v = e == 0 ? std::ldexp(m, -24) : e == 31 ? (m ? NAN : INFINITY) :
		std::ldexp(1024 + m, e - 25);
	return h & 0x8000 ? -v : v;
}

// Collects what is given to an encoder; the identity depends on all of it.
struct Input
{
	Call call;
	std::uint64_t id;
	bool record;
	Input(const char* fn, unsigned w, unsigned h, unsigned channels, const void* dst)
		: id(mc::hashBytes(fn, strlen(fn), w*31 + h)), record(hook != nullptr)
	{
		if (!record)
			return;
		call.fn = fn;
		call.w = w;
		call.h = h;
		call.channels = channels;
		call.dst = dst;
	}
	void px(float v)
	{
		std::uint32_t b;
		memcpy(&b, &v, 4);
		id = mc::mix(id, b);
		if (record)
			call.px.push_back(v);
	}
	void opt(const char* name, double v)
	{
		std::uint64_t b;
		memcpy(&b, &v, 8);
		id = mc::mix(mc::mix(id, mc::hashBytes(name, strlen(name))), b);
		if (record)
			call.opts[name] = v;
	}
	void write(void* dst, unsigned bytes)
	{
		id |= 1;
		auto p = static_cast<std::uint8_t*>(dst);
		for (unsigned i = 0; i < bytes; i += 8)
		{
			std::uint64_t v = i == 0 ? id : mc::mix(id, i);
			memcpy(p + i, &v, 8);
		}
		if (record)
			hook(call, id);
	}
};

static bool rgbcxReady = false, bc7Ready = false;

static void rgba8(Input& in, const std::uint8_t* p)
{
	for (int i = 0; i < 64; ++i)
		in.px(p[i]);
}
static void needRgbcx()
{
	if (!rgbcxReady)
		misuse("rgbcx is used before rgbcx::init");
}

// Options of Compressonator.
struct Options { int kind; float quality; bool isSigned; int alive; };
static int create(void** o, int kind)
{
	if (counting)
		__atomic_fetch_add(&openOptions, 1, __ATOMIC_SEQ_CST);
	*o = new Options{kind, 1.0f, false, 0x600D};
	return 0;
}
static int destroy(void* o, int kind)
{
	auto p = static_cast<Options*>(o);
	if (!p || p->alive != 0x600D || p->kind != kind)
		misuse("options of another kind are destroyed");
	else
		p->alive = 0;
	delete p;
	if (counting)
		__atomic_fetch_sub(&openOptions, 1, __ATOMIC_SEQ_CST);
	return 0;
}
static const Options& use(const void* o, int kind)
{
	static const Options defaults{0, 1.0f, false, 0x600D};
	if (!o)
		return defaults;
	auto p = static_cast<const Options*>(o);
	if (p->alive != 0x600D || p->kind != kind)
		misuse("options of another kind, or destroyed ones, are used");
	return *p;
}
} // namespace codec

using namespace codec;

void squish::Compress(const u8* rgba, void* block, int flags, float* metric)
{
	Input in("squish", 4, 4, 4, block);
	rgba8(in, rgba);
	in.opt("flags", flags);
	for (int i = 0; i < 3; ++i)
		in.opt(i == 0 ? "weight0" : i == 1 ? "weight1" : "weight2", metric ? metric[i] : 1);
	in.write(block, flags & (kDxt1 | kBc4) ? 8 : 16);
}

void rgbcx::init()
{
	rgbcxReady = true;
}
void rgbcx::encode_bc1(std::uint32_t level, void* dst, const std::uint8_t* pixels, bool allow3Color,
	bool transparentTexelsForBlack, const void*)
{
	needRgbcx();
	Input in("bc1", 4, 4, 4, dst);
	rgba8(in, pixels);
	in.opt("level", level);
	in.opt("3color", allow3Color);
	in.opt("black", transparentTexelsForBlack);
	in.write(dst, 8);
}
void rgbcx::encode_bc3(std::uint32_t level, void* dst, const std::uint8_t* pixels)
{
	needRgbcx();
	Input in("bc3", 4, 4, 4, dst);
	rgba8(in, pixels);
	in.opt("level", level);
	in.opt("radius", 0);
	in.write(dst, 16);
}
void rgbcx::encode_bc3_hq(std::uint32_t level, void* dst, const std::uint8_t* pixels,
	std::uint32_t searchRadius)
{
	needRgbcx();
	Input in("bc3", 4, 4, 4, dst);
	rgba8(in, pixels);
	in.opt("level", level);
	in.opt("radius", searchRadius);
	in.write(dst, 16);
}
void rgbcx::encode_bc4(void* dst, const std::uint8_t* pixels, std::uint32_t stride)
{
	encode_bc4_hq(dst, pixels, stride, 0);
}
void rgbcx::encode_bc4_hq(void* dst, const std::uint8_t* pixels, std::uint32_t stride,
	std::uint32_t searchRadius)
{
	needRgbcx();
	Input in("bc4", 4, 4, 1, dst);
	for (int i = 0; i < 16; ++i)
		in.px(pixels[i*stride]);
	in.opt("radius", searchRadius);
	in.write(dst, 8);
}
void rgbcx::encode_bc5(void* dst, const std::uint8_t* pixels, std::uint32_t chan0,
	std::uint32_t chan1, std::uint32_t stride)
{
	encode_bc5_hq(dst, pixels, chan0, chan1, stride, 0);
}
void rgbcx::encode_bc5_hq(void* dst, const std::uint8_t* pixels, std::uint32_t chan0,
	std::uint32_t chan1, std::uint32_t stride, std::uint32_t searchRadius)
{
	needRgbcx();
	Input in("bc5", 4, 4, 2, dst);
	for (int i = 0; i < 16; ++i)
	{
		in.px(pixels[i*stride + chan0]);
		in.px(pixels[i*stride + chan1]);
	}
	in.opt("radius", searchRadius);
	in.write(dst, 16);
}

int CreateOptionsBC4(void** o) { return create(o, 4); }
int CreateOptionsBC5(void** o) { return create(o, 5); }
int CreateOptionsBC6(void** o) { return create(o, 6); }
int DestroyOptionsBC4(void* o) { return destroy(o, 4); }
int DestroyOptionsBC5(void* o) { return destroy(o, 5); }
int DestroyOptionsBC6(void* o) { return destroy(o, 6); }
static int setQuality(void* o, int kind, float q)
{
	use(o, kind);
	if (!(q >= 0 && q <= 1))
		misuse("Compressonator quality out of range");
	static_cast<Options*>(o)->quality = q;
	return 0;
}
int SetQualityBC4(void* o, float q) { return setQuality(o, 4, q); }
int SetQualityBC5(void* o, float q) { return setQuality(o, 5, q); }
int SetQualityBC6(void* o, float q) { return setQuality(o, 6, q); }
int SetSignedBC6(void* o, bool s)
{
	use(o, 6);
	static_cast<Options*>(o)->isSigned = s;
	return 0;
}
template <typename T>
static int bc45(const T* a, unsigned sa, const T* b, unsigned sb, unsigned char* block, const void* o)
{
	const Options& op = use(o, b ? 5 : 4);
	bool s = T(-1) < T(0);
	Input in(b ? s ? "bc5s" : "bc5" : s ? "bc4s" : "bc4", 4, 4, b ? 2 : 1, block);
	for (int i = 0; i < 16; ++i)
	{
		in.px(a[i/4*sa + i%4]);
		if (b)
			in.px(b[i/4*sb + i%4]);
	}
	in.opt("quality", op.quality);
	in.write(block, b ? 16 : 8);
	return 0;
}
int CompressBlockBC4(const unsigned char* s, unsigned int stride, unsigned char* block, const void* o)
{
	return bc45<unsigned char>(s, stride, nullptr, 0, block, o);
}
int CompressBlockBC4S(const char* s, unsigned int stride, unsigned char* block, const void* o)
{
	return bc45<signed char>(reinterpret_cast<const signed char*>(s), stride, nullptr, 0, block, o);
}
int CompressBlockBC5(const unsigned char* a, unsigned int sa, const unsigned char* b, unsigned int sb,
	unsigned char* block, const void* o)
{
	return bc45<unsigned char>(a, sa, b, sb, block, o);
}
int CompressBlockBC5S(const char* a, unsigned int sa, const char* b, unsigned int sb,
	unsigned char* block, const void* o)
{
	return bc45<signed char>(reinterpret_cast<const signed char*>(a), sa,
		reinterpret_cast<const signed char*>(b), sb, block, o);
}
int CompressBlockBC6(const unsigned short* s, unsigned int stride, unsigned char* block, const void* o)
{
	const Options& op = use(o, 6);
	Input in("bc6h", 4, 4, 3, block);
	for (int y = 0; y < 4; ++y)
		for (int i = 0; i < 12; ++i)
			in.px(float(halfValue(s[y*stride + i])));
	in.opt("quality", op.quality);
	in.opt("signed", op.isSigned);
	in.write(block, 16);
	return 0;
}

void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = false;
	for (auto& w : p->m_weights)
		w = 1;
}
void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = true;
	p->m_weights[0] = 128;
	p->m_weights[1] = 64;
	p->m_weights[2] = 16;
	p->m_weights[3] = 32;
}
void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p)
{
	p->m_mode_mask = ~0U;
	p->m_max_partitions = BC7ENC_MAX_PARTITIONS;
	p->m_uber_level = 0;
	p->m_try_least_squares = true;
	p->m_mode17_partition_estimation_filterbank = true;
	bc7enc_compress_block_params_init_perceptual_weights(p);
}
void bc7enc_compress_block_init()
{
	bc7Ready = true;
}
bool bc7enc_compress_block(void* block, const void* pixels, const bc7enc_compress_block_params* p)
{
	if (!bc7Ready)
		misuse("bc7enc is used before bc7enc_compress_block_init");
	if (p->m_max_partitions > BC7ENC_MAX_PARTITIONS || p->m_uber_level > BC7ENC_MAX_UBER_LEVEL)
		misuse("bc7enc parameters out of range");
	Input in("bc7", 4, 4, 4, block);
	rgba8(in, static_cast<const std::uint8_t*>(pixels));
	in.opt("partitions", p->m_max_partitions);
	in.opt("uber", p->m_uber_level);
	in.opt("squares", p->m_try_least_squares);
	in.opt("filterbank", p->m_mode17_partition_estimation_filterbank);
	in.opt("perceptual", p->m_perceptual);
	in.opt("weight0", p->m_weights[0]);
	in.opt("weight1", p->m_weights[1]);
	in.opt("weight2", p->m_weights[2]);
	in.opt("weight3", p->m_weights[3]);
	in.write(block, 16);
	return true;
}

Etc::Image::Image(float* rgba, unsigned int width, unsigned int height, ErrorMetric)
	: m_source(rgba), m_width(width), m_height(height), m_bytes(0), m_bits(nullptr)
{
}
Etc::Image::~Image()
{
	delete[] m_bits;
}
Etc::Image::EncodingStatus Etc::Image::Encode(Format format, ErrorMetric metric, float effort,
	unsigned int, unsigned int)
{
	if (!m_width || !m_height)
		misuse("an empty image is given to etc2comp");
	unsigned blocks = (m_width + 3)/4*((m_height + 3)/4);
	bool big = format == Format::RGBA8 || format == Format::SRGBA8 || format == Format::RG11 ||
		format == Format::SIGNED_RG11;
	delete[] m_bits;
	m_bytes = blocks*(big ? 16 : 8);
	m_bits = new unsigned char[m_bytes];
	Input in("etc", m_width, m_height, 4, nullptr);
	for (unsigned i = 0; i < m_width*m_height*4; ++i)
		in.px(m_source[i]);
	in.opt("format", int(format));
	in.opt("metric", int(metric));
	in.opt("effort", effort);
	in.write(m_bits, m_bytes);
	return SUCCESS;
}

struct astcenc_context
{
	astcenc_config config;
	int busy;
	bool used;
};
astcenc_error astcenc_config_init(astcenc_profile profile, unsigned int x, unsigned int y,
	unsigned int z, float quality, unsigned int flags, astcenc_config* config)
{
	if (!(quality >= 0 && quality <= 100) || !x || !y || z != 1)
	{
		misuse("astcenc configuration out of range");
		return ASTCENC_ERR_BAD_PARAM;
	}
	*config = {profile, flags, x, y, z, 1, 1, 1, 1, quality};
	if (flags & ASTCENC_FLG_USE_PERCEPTUAL)
	{
		config->cw_r_weight = 0.30f*2.25f;
		config->cw_g_weight = 0.59f*2.25f;
		config->cw_b_weight = 0.11f*2.25f;
	}
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_context_alloc(const astcenc_config* config, unsigned int threads,
	astcenc_context** context)
{
	if (threads != 1)
		misuse("astcenc context for several threads");
	if (counting)
		__atomic_fetch_add(&openContexts, 1, __ATOMIC_SEQ_CST);
	*context = new astcenc_context{*config, 0, false};
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_image(astcenc_context* c, astcenc_image* image,
	const astcenc_swizzle* s, std::uint8_t* out, std::size_t length, unsigned int thread)
{
	if (c->busy++)
		misuse("two threads use the same astcenc context");
	if (c->used)
		misuse("an astcenc context is used again without reset");
	if (thread != 0 || image->dim_z != 1 || image->data_type != ASTCENC_TYPE_F32)
		misuse("astcenc image or thread index");
	c->used = true;
	unsigned blocks = (image->dim_x + c->config.block_x - 1)/c->config.block_x*
		((image->dim_y + c->config.block_y - 1)/c->config.block_y);
	if (length < blocks*16)
	{
		misuse("the space given to astcenc is too small");
		--c->busy;
		return ASTCENC_ERR_OUT_OF_MEM;
	}
	Input in("astc", image->dim_x, image->dim_y, 4, out);
	auto src = static_cast<const float*>(image->data[0]);
	for (unsigned i = 0; i < image->dim_x*image->dim_y*4; ++i)
		in.px(src[i]);
	in.opt("profile", c->config.profile);
	in.opt("flags", c->config.flags);
	in.opt("blockx", c->config.block_x);
	in.opt("blocky", c->config.block_y);
	in.opt("quality", c->config.quality);
	in.opt("swz0", s->r);
	in.opt("swz1", s->g);
	in.opt("swz2", s->b);
	in.opt("swz3", s->a);
	in.write(out, blocks*16);
	--c->busy;
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_reset(astcenc_context* c)
{
	c->used = false;
	return ASTCENC_SUCCESS;
}
void astcenc_context_free(astcenc_context* c)
{
	if (!c)
		return;
	if (c->busy)
		misuse("an astcenc context is freed while it is used");
	if (counting)
		__atomic_fetch_sub(&openContexts, 1, __ATOMIC_SEQ_CST);
	delete c;
}

pvrtexlib::PVRTexture::PVRTexture(const PVRTextureHeader& header, const void* data)
	: m_header(header)
{
	if (header.format != PVRTGENPIXELID4('r', 'g', 'b', 'a', 8, 8, 8, 8) || header.depth != 1 ||
		header.mips != 1 || header.layers != 1 || header.faces != 1 ||
		header.type != PVRTLVT_UnsignedByteNorm)
	{
		misuse("PVRTexLib source format that the stand-in does not know");
	}
	m_data.resize(std::size_t(header.width)*header.height*4);
	if (data)
		memcpy(m_data.data(), data, m_data.size());
}
bool pvrtexlib::PVRTexture::Transcode(PVRTuint64 format, PVRTexLibVariableType type,
	PVRTexLibColourSpace, PVRTexLibCompressorQuality quality, bool, float, PVRTuint32)
{
	Input in("pvrtc", m_header.width, m_header.height, 4, nullptr);
	for (std::uint8_t b : m_data)
		in.px(b);
	in.opt("format", double(format));
	in.opt("type", type);
	in.opt("quality", quality);
	in.opt("premultiplied", m_header.preMultiplied);
	bool two = format == PVRTLPF_PVRTCI_2bpp_RGB || format == PVRTLPF_PVRTCI_2bpp_RGBA ||
		format == PVRTLPF_PVRTCII_2bpp;
	bool one = format < PVRTLPF_PVRTCII_2bpp;
	unsigned bx = (m_header.width + (two ? 7 : 3))/(two ? 8 : 4), by = (m_header.height + 3)/4;
	if (one)
	{
		// PVRTC1 needs at least two by two blocks.
		bx = bx < 2 ? 2 : bx;
		by = by < 2 ? 2 : by;
	}
	m_data.assign(std::size_t(bx)*by*8, 0);
	in.write(m_data.data(), unsigned(m_data.size()));
	return true;
}
