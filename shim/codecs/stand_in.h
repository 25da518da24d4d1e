// Stand-ins for the third-party encoders, whose sources are not available here. Each one turns the
// exact input it is given (pixels and options) into a block that identifies this input, and watches
// the rules of use of the interface it stands for. The library's own code is the real one.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace codec
{
// What an encoder was given.
struct Call
{
	const char* fn = "";
	unsigned w = 0, h = 0, channels = 0;
	std::vector<float> px;              // as the encoder reads them, row by row
	std::map<std::string, double> opts;
	const void* dst = nullptr;
	double opt(const char* name, double def = -1) const
	{
		auto i = opts.find(name);
		return i == opts.end() ? def : i->second;
	}
};
// Called for each encoded block, from the thread that encodes it; none: calls are not recorded.
extern void (*hook)(const Call& call, std::uint64_t id);
// Breaks of the rules of use: calls that a real encoder does not survive or ignores.
extern void (*misuse)(const char* what);
// Options or contexts created and not yet given back.
extern int openOptions;
extern int openContexts;
// Whether these are counted (with atomic operations).
extern bool counting;
} // namespace codec
