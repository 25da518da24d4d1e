// Small explicit-state / stateless exploration engine shared by the checks.
//
// A check is a list of families; a family is a finite, indexed list of cases, and a case is
// explored by depth-first enumeration of every sequence of answers to Ctx::choose().  Cases are
// handed to worker processes (one per core); a worker that dies or hangs is itself a violation of
// the execution it was running.  Every violation is re-executed from its recorded choices in a
// fresh process before it is reported; if that alone does not show it again, after the executions
// its worker ran before it (state kept by the code under test from one call to the next), which
// then are part of the replay.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace mc
{

struct Violation
{
	std::string key;
	std::string msg;
};

class Ctx
{
public:
	// Nondeterministic choice in [0, n): the explorer enumerates every answer.
	unsigned choose(unsigned n);
	// True when replaying: the body should describe its steps with note().
	bool verbose() const { return m_verbose; }
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// Records that an (abstract) state was reached. Distinct hashes are counted.
	void state(std::uint64_t hash);
	// Counts transitions (operations executed / inputs evaluated).
	void step(std::uint64_t n = 1) { m_steps += n; }
	// Adds a named count to the evidence file.
	void count(const char* name, std::uint64_t n = 1);
	// Reports a violation and abandons this execution.
	[[noreturn]] void fail(const std::string& key, const char* fmt, ...)
		__attribute__((format(printf, 3, 4)));
	// Offers a written-out sample for the evidence file (first few are kept).
	bool wantSample() const { return m_samples.size() < 2; }
	void sample(const std::string& s) { if (wantSample()) m_samples.push_back(s); }
	// True for VERIF_TIER=thorough.
	bool thorough() const { return m_thorough; }

	std::vector<unsigned> m_choices;
	std::vector<unsigned> m_limits;
	std::size_t m_pos = 0;
	bool m_verbose = false;
	bool m_thorough = false;
	std::uint64_t m_steps = 0;
	std::vector<std::string> m_samples;
	std::vector<std::string> m_notes;
};

struct Family
{
	std::string name;
	std::function<std::size_t(bool thorough)> cases;
	std::function<void(Ctx&, std::size_t)> body;
};

struct Spec
{
	std::string property;
	std::string level = "model_checking";
	std::string rule;                       // how cases are made
	std::vector<std::string> assumptions;
	std::vector<Family> families;
	double execTimeout = 120;               // seconds for one execution
	double quickBudget = 600;               // seconds of exploration
	double thoroughBudget = 3600;
	std::function<void()> workerInit;       // in each worker process
	int workers = 0;                        // 0: one per core
};

int run(int argc, char** argv, const Spec& spec);

// FNV/murmur style hashing helpers.
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	h ^= h >> 33;
	return h;
}
std::uint64_t hashBytes(const void* data, std::size_t size, std::uint64_t seed = 1);
inline std::uint64_t hashStr(const std::string& s, std::uint64_t seed = 1)
{
	return hashBytes(s.data(), s.size(), seed);
}
// A directory of this process's own, removed when the check ends.
std::string scratch();
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace mc
