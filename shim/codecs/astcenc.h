#pragma once
#include <cstddef>
#include <cstdint>
struct astcenc_context;
enum astcenc_error { ASTCENC_SUCCESS, ASTCENC_ERR_OUT_OF_MEM, ASTCENC_ERR_BAD_PARAM };
enum astcenc_profile { ASTCENC_PRF_LDR_SRGB, ASTCENC_PRF_LDR, ASTCENC_PRF_HDR_RGB_LDR_A,
	ASTCENC_PRF_HDR };
enum astcenc_swz { ASTCENC_SWZ_R, ASTCENC_SWZ_G, ASTCENC_SWZ_B, ASTCENC_SWZ_A, ASTCENC_SWZ_0,
	ASTCENC_SWZ_1, ASTCENC_SWZ_Z };
struct astcenc_swizzle { astcenc_swz r, g, b, a; };
enum astcenc_type { ASTCENC_TYPE_U8, ASTCENC_TYPE_F16, ASTCENC_TYPE_F32 };
static const float ASTCENC_PRE_FASTEST = 0.0f, ASTCENC_PRE_FAST = 10.0f, ASTCENC_PRE_MEDIUM = 60.0f,
	ASTCENC_PRE_THOROUGH = 98.0f, ASTCENC_PRE_VERYTHOROUGH = 99.0f, ASTCENC_PRE_EXHAUSTIVE = 100.0f;
static const unsigned int ASTCENC_FLG_MAP_NORMAL = 1, ASTCENC_FLG_USE_DECODE_UNORM8 = 2,
	ASTCENC_FLG_USE_ALPHA_WEIGHT = 4, ASTCENC_FLG_USE_PERCEPTUAL = 8;
struct astcenc_config
{
	astcenc_profile profile;
	unsigned int flags, block_x, block_y, block_z;
	float cw_r_weight, cw_g_weight, cw_b_weight, cw_a_weight;
	float quality;
};
struct astcenc_image
{
	unsigned int dim_x, dim_y, dim_z;
	astcenc_type data_type;
	void** data; // an array of 2D slices
};
astcenc_error astcenc_config_init(astcenc_profile profile, unsigned int x, unsigned int y,
	unsigned int z, float quality, unsigned int flags, astcenc_config* config);
astcenc_error astcenc_context_alloc(const astcenc_config* config, unsigned int threads,
	astcenc_context** context);
astcenc_error astcenc_compress_image(astcenc_context* context, astcenc_image* image,
	const astcenc_swizzle* swizzle, std::uint8_t* out, std::size_t length, unsigned int thread);
astcenc_error astcenc_compress_reset(astcenc_context* context);
void astcenc_context_free(astcenc_context* context);
